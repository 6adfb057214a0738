"""C12: per-worker state is indexed by the number of the worker and by nothing else."""
import ast

from ..flow import Interp, Monitor, NONE, subterms, fmt
from ..model import AnalysisBroken, walk_own
from . import state as S

W = ("tok", "worker")
NUMBER = "rank_worker_id"
#: methods which run in the main process, on the state of all workers
GLOBAL = {"__init__", "restore_state", "merge_states", "config", "__str__", "__repr__", "restore_sample",
          "can_restore_sample", "assert_can_restore"}
NEUTRAL_FNS = {"len", "isinstance", "id", "type", "repr", "str", "bool"}


class Mon(Monitor):
    """mon: True while the loop index is known to differ from the own worker"""

    def __init__(self):
        self.out = []

    def init(self):
        return False

    def inline(self, fi, recv, ip, stack):
        if fi.name == NUMBER:
            return False
        return NotImplemented

    def result(self, ev, st, ip):
        if ev.name == NUMBER and ev.kind == "call":
            return W
        return None

    def event(self, ev, st, ip):
        if ev.kind == "branch":
            other = None
            for t in ev.cond:
                pol = ev.taken
                while t[0] in ("not", "unop") and len(t) >= 2 and isinstance(t[-1], tuple):
                    t, pol = t[-1], not pol
                if t[0] == "cmp" and t[1] in ("Eq", "NotEq") and any(isw(x) for x in t[2:4]) and \
                        not all(isw(x) for x in t[2:4]):
                    other = (t[1] == "NotEq") == bool(pol)
            if other is not None:
                return other
            return NotImplemented
        if ev.kind in ("loop_back", "exhausted"):
            return False
        self.out.append((ev, st))
        return NotImplemented


CACHED = set()


def isw(t):
    """Is this the number of the current worker?"""
    if t == W:
        return True
    if t[0] == "any":
        return all(isw(x) for x in t[1])
    if t[0] == "attr" and t[1] == ("self",):
        return t[2] in CACHED
    return False


def run(p, f, c):
    m = Mon()
    ip = Interp(p, m)
    o = ip.run(f, c)
    return m.out, o, ip


def attr_of(t):
    """Name if t is self.<name>."""
    if t[0] == "attr" and t[1] == ("self",):
        return t[2]
    return None


def mentions_attr(t, name):
    return any(x[0] == "attr" and x[2] == name for x in subterms(t))


def size_of(t, st):
    """The term for the length of a list built with a given number of equal slots."""
    if t[0] == "binop" and t[1] == "Mult":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == "obj" and a[1] == "list":
                return b
    if t[0] == "obj" and t[1] == "list" and t in st.heap:
        sh = st.heap[t][0]
        if isinstance(sh, tuple) and sh[0] == "map" and len(sh) > 1:
            r = sh[1]
            if isinstance(r, tuple) and r[0] == "call" and r[1] == ("ext", "range") and len(r[2]) == 1:
                return r[2][0]
        if sh == "lit":
            return ("const", len([k for k, _ in st.heap[t][1] if k != "*"]))
    return None


def evaluate(t, env):
    """Set of possible values of a term for given values of attributes, or None."""
    k = t[0]
    if k == "const":
        return {t[1]}
    if k == "attr":
        return {env[t[2]]} if t[2] in env else None
    if k == "any":
        out = set()
        for x in t[1]:
            v = evaluate(x, env)
            if v is None:
                return None
            out |= v
        return out
    if k == "call" and t[1][0] == "ext" and t[1][1] in ("max", "min", "int", "abs") and not t[3]:
        vs = [evaluate(x, env) for x in t[2]]
        if any(v is None or len(v) != 1 for v in vs):
            return None
        vals = [next(iter(v)) for v in vs]
        try:
            return {{"max": max, "min": min, "int": int, "abs": abs}[t[1][1]](*vals)}
        except (TypeError, ValueError):
            return None
    if k in ("binop", "boolop") and len(t) >= 4:
        a, b = evaluate(t[2], env), evaluate(t[3], env)
        if a is None or b is None:
            return None
        out = set()
        for x in a:
            for y in b:
                try:
                    out.add({"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y,
                             "FloorDiv": lambda: x // y, "Mod": lambda: x % y, "Or": lambda: x or y,
                             "And": lambda: x and y}[t[1]]())
                except (KeyError, TypeError, ZeroDivisionError):
                    return None
        return out
    if k == "tok":
        return {env[t]} if t in env else None
    return None


def per_worker(p, c):
    """({attr: [(size term, event)]}, attrs holding the worker number, bad places)"""
    sized, cached, other, early = {}, {}, set(), []
    for n, f in sorted(methods(c).items()):
        out, o, ip = run(p, f, c)
        for ev, st in out:
            if ev.kind == "store_attr" and ("self",) in ev.base:
                for t in ev.value:
                    if t == W:
                        cached.setdefault(ev.attr, ev)
                        if n in GLOBAL:
                            early.append((ev, n))
                    elif t != NONE:
                        if n != "__init__" or t[0] != "const":
                            other.add(ev.attr)
                    if t[0] == "attr" and t[1] == ("self",):
                        pass
                    e = size_of(t, st)
                    if e is not None:
                        sized.setdefault(ev.attr, []).append((e, ev))
            if ev.kind in ("load_sub", "store_sub", "del_sub"):
                for b in ev.base:
                    a = attr_of(b)
                    if a and W in ev.index:
                        sized.setdefault(a, [])
    cached = {a: e for a, e in cached.items() if a not in other}
    return sized, cached, early


def methods(c):
    ms = {}
    for k in reversed(c.mro()):
        ms.update(k.methods)
    return {n: m for n, m in ms.items() if not m.is_static and not m.is_abstract}


def entries(c):
    ms = methods(c)
    used = {x.attr for m in ms.values() for x in walk_own(m.node) if isinstance(x, ast.Attribute)
            and isinstance(x.value, ast.Name) and x.value.id == "self"}
    return [m for n, m in sorted(ms.items()) if n not in GLOBAL
            and not (n.startswith("_") and not n.startswith("__") and n in used)]


def classes(p):
    cs = {}
    for k in S.facts(p):
        cs[k.cls.name] = k.cls
    return [c for n, c in sorted(cs.items())]


def check(p, cx):
    cx.rule("C12.size", "a list with one slot per worker has max(number of workers, 1) slots wherever it is created")
    cx.rule("C12.own", "in code that runs inside a worker every slot that is read, written or deleted is selected by the "
            "logical worker number, determined in the worker; other slots are only emptied, never the own one with them; "
            "the list is never read or passed on as a whole")
    cx.rule("C12.number", "the logical worker number is (number of the process + offset) modulo the number of workers")
    cx.rule("C12.main", "restoring a single sample, which happens outside of the workers, does not use the slots")
    cx.rule("C12.source", "the process number of a worker is read only where the logical worker number is computed")
    nattr = nacc = 0
    for c in classes(p):
        sized, cached, early = per_worker(p, c)
        CACHED.clear()
        CACHED.update(cached)
        # slots selected through a cached number
        for f in entries(c):
            for ev, st in run(p, f, c)[0]:
                if ev.kind in ("load_sub", "store_sub", "del_sub") and any(isw(i) for i in ev.index):
                    for b in ev.base:
                        if attr_of(b):
                            sized.setdefault(attr_of(b), [])
        A = set()
        for a, es in sorted(sized.items()):
            ws = [e for e, ev in es if mentions_attr(e, "num_workers")]
            if es and not ws and not indexed_by_worker(p, c, a):
                continue
            A.add(a)
            for e, ev in es:
                bad = None
                for nw in (0, 1, 2, 3, 7):
                    v = evaluate(e, {"num_workers": nw})
                    if v is None:
                        break
                    if max(nw, 1) not in v:
                        bad = nw
                        break
                cx.check(bad is None, "C12.size", f"{c.name}.{a}@{ev.fn.name}", ev.where(),
                         f"with {bad} workers, {c.name}.{a} does not get one slot per worker (size {fmt(e)})")
        for ev, n in early:
            cx.bad("C12.own", f"{c.name}.{ev.attr}@{n}", ev.where(),
                   f"{n} runs in the main process: the worker number stored there is not the one of the worker")
        nattr += len(A)
        for f in entries(c):
            cx.fn(f)
            nacc += own(p, cx, c, f, A)
        f = c.find_method("restore_sample")
        if f is not None and not f.is_abstract and A:
            out, o, ip = run(p, f, c)
            bad = None
            for ev, st in out:
                if ev.kind in ("load_sub", "store_sub", "del_sub") and any(attr_of(b) in A for b in ev.base):
                    bad = ev
            cx.check(bad is None, "C12.main", f"{c.name}.restore_sample", bad.where() if bad else f.loc(),
                     "restore_sample uses per-worker state, but does not run in a worker")
    CACHED.clear()
    cx.floor("lists with one slot per worker", nattr, 18)
    cx.floor("slot accesses", nacc, 60)
    number(p, cx)
    source(p, cx)


_iw = {}


def indexed_by_worker(p, c, a):
    key = (id(p), c.name)
    if key not in _iw:
        s = set()
        for f in entries(c):
            for ev, st in run(p, f, c)[0]:
                if ev.kind in ("load_sub", "store_sub", "del_sub") and any(isw(i) for i in ev.index):
                    s |= {attr_of(b) for b in ev.base}
        _iw[key] = s
    return a in _iw[key]


def slot(t, A):
    """(attr, index term) if t is one slot of a per-worker list"""
    if t[0] == "sub" and attr_of(t[1]) in A:
        return attr_of(t[1]), t[2]
    if t[0] == "elem" and attr_of(t[1]) in A:
        return attr_of(t[1]), t
    return None


def is_empty(v, st):
    for t in v:
        if t == NONE or t == ("const", 0):
            continue
        if t[0] == "obj":
            h = st.heap.get(t)
            if h is not None and all(x[0] == "const" and x[1] in (None, 0) for _, v2 in h[1] for x in v2):
                continue
            return False
        if t[0] == "binop" and t[1] == "Mult" and (is_empty({t[2]}, st) or is_empty({t[3]}, st)):
            continue
        if t[0] == "call" and t[1] in (("ext", "list"), ("ext", "dict"), ("ext", "set")) and not t[2]:
            continue
        return False
    return True


def own(p, cx, c, f, A):
    n = 0
    out, o, ip = run(p, f, c)

    def bad(a, ev, msg):
        cx.bad("C12.own", f"{c.name}.{a}:{f.name}", ev.where(), f"{c.name}.{a}: {msg}")

    loads = {}
    for ev, st in out:
        if ev.kind in ("load_sub", "store_sub", "del_sub"):
            for b in ev.base:
                a = attr_of(b)
                if a not in A:
                    s = slot(b, A)
                    if s and not isw(s[1]):
                        bad(s[0], ev, "content of another worker's slot is used")
                    continue
                n += 1
                if ev.index and all(isw(i) for i in ev.index):
                    cx.ok("C12.own", f"{c.name}.{a}:{f.name}", ev.loc())
                    continue
                if any(i[0] == "slice" for i in ev.index):
                    bad(a, ev, "a range of slots is used")
                elif ev.kind == "store_sub" and st.mon and is_empty(ev.value, st):
                    cx.ok("C12.own", f"{c.name}.{a}:{f.name} (emptying others)", ev.loc())
                elif ev.kind == "store_sub" and is_empty(ev.value, st) and not isw_const(ev.index):
                    bad(a, ev, "slots are emptied without leaving out the worker's own one")
                elif ev.kind == "load_sub" and not isw_const(ev.index) and indexish(ev.index):
                    loads[a] = ev       # judged by what is done with it
                else:
                    bad(a, ev, "the slot is not selected by the logical worker number but by "
                        + " | ".join(fmt(i, ip) for i in ev.index))
        elif ev.kind == "call" and ev.tag != "inlined":
            r = ev.recv
            s = slot(r, A) if r is not None else None
            if s and not isw(s[1]):
                n += 1
                if ev.name == "clear" and st.mon:
                    cx.ok("C12.own", f"{c.name}.{s[0]}:{f.name} (emptying others)", ev.loc())
                elif ev.name == "clear":
                    bad(s[0], ev, "slots are emptied without leaving out the worker's own one")
                else:
                    bad(s[0], ev, f"another worker's slot is used ({ev.name})")
            if r is not None and attr_of(r) in A and ev.name not in ("__len__",):
                bad(attr_of(r), ev, f"the list of all workers is used as a whole ({ev.name})")
            fn = ev.func[1] if ev.func[0] == "ext" else None
            for v in list(ev.args or ()) + list((ev.kwargs or {}).values()):
                for t in v:
                    if attr_of(t) in A and fn not in NEUTRAL_FNS and fn != "enumerate":
                        bad(attr_of(t), ev, "the list of all workers is passed on")
                    s = slot(t, A)
                    if s and not isw(s[1]) and fn not in NEUTRAL_FNS:
                        bad(s[0], ev, "another worker's slot is used")
        elif ev.kind in ("iter", "yield_from"):
            for t in ev.value or ():
                s = slot(t, A)
                if s and not isw(s[1]):
                    bad(s[0], ev, "content of another worker's slot is used")
        elif ev.kind == "newrec":
            for v in list(ev.args or ()) + list((ev.kwargs or {}).values()):
                for t in v:
                    if attr_of(t) in A:
                        bad(attr_of(t), ev, "the list of all workers is put into a state")
        elif ev.kind == "yield":
            for t in ev.value or ():
                if attr_of(t) in A:
                    bad(attr_of(t), ev, "the list of all workers is handed out")
        elif ev.kind == "store_attr" and ("self",) in ev.base and ev.attr in A and \
                not all(t == NONE or size_of(t, st) is not None for t in ev.value):
            bad(ev.attr, ev, "the list of all workers is replaced while running in a worker")
    for st, v, node in o.ret:
        for t in v:
            if attr_of(t) in A:
                cx.bad("C12.own", f"{c.name}.{attr_of(t)}:{f.name}", f.loc(node),
                       f"{f.name} returns the list of all workers")
    return n


def isw_const(index):
    return any(i[0] == "const" for i in index)


def indexish(index):
    return all(i[0] in ("index", "elem", "key") for i in index)


def number(p, cx):
    f = p.cls("WorkerConfig").find_method(NUMBER)
    if f is None:
        raise AnalysisBroken("WorkerConfig.rank_worker_id not found")
    cx.fn(f)
    ip = Interp(p, Monitor())
    o = ip.run(f, p.cls("WorkerConfig"))
    seen = False
    for st, v, node in o.ret:
        for t in v:
            if mentions_attr(t, "_worker_override_global_rank"):
                continue
            if not mentions_attr(t, "id"):
                continue
            seen = True
            bad = None
            for nw in (1, 2, 3, 5):
                for i in range(nw):
                    for off in range(nw):
                        r = evaluate(t, {"id": i, "num_workers": nw, "worker_id_offset": off})
                        if r != {(i + off) % nw}:
                            bad = (nw, i, off, r)
            cx.check(bad is None, "C12.number", NUMBER, f.loc(node),
                     f"{NUMBER} is {fmt(t, ip)}: wrong for (workers, process, offset, result) {bad}")
    cx.check(seen, "C12.number", f"{NUMBER}:process", f.loc(), "the logical worker number does not depend on the process")


def source(p, cx):
    from .order import Names, walk_scoped
    n = 0
    wc = p.cls("WorkerConfig")
    okfns = {id(m.node) for m in wc.methods.values()}
    for m in p.modules.values():
        names = Names(m)
        nodes = walk_scoped(m)

        def info(e, scope):
            return isinstance(e, ast.Call) and (names.dotted(e.func, scope) or "").endswith("get_worker_info")

        bound = set()
        for node, scope, quals, parents in nodes:
            fn = id(scope[-1]) if scope else None
            if isinstance(node, ast.Assign) and info(node.value, scope):
                bound |= {(fn, t.id) for t in node.targets if isinstance(t, ast.Name)}
            elif isinstance(node, ast.NamedExpr) and info(node.value, scope):
                bound.add((fn, node.target.id))
            if info(node, scope):
                n += 1
        for node, scope, quals, parents in nodes:
            fn = id(scope[-1]) if scope else None
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and node.attr in ("id", "seed"):
                v = node.value
                if isinstance(v, ast.NamedExpr):
                    v = v.value
                if info(v, scope) or isinstance(v, ast.Name) and (fn, v.id) in bound:
                    where = ".".join(quals)
                    cx.check(any(id(s) in okfns for s in scope), "C12.source", f"{m.relpath}:{where}",
                             f"{m.relpath}:{node.lineno}",
                             "the process number is used directly, without the offset of a restored loader")
    cx.floor("uses of get_worker_info", n, 2)
