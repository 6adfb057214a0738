"""C21: what a metadataset names relative to itself is looked up there, and all of it is set up; the order of joined
datasets is the configured one."""
import ast

from ..flow import Interp, Monitor, subterms
from ..model import AnalysisBroken

SELF = ("self",)
ROOT = "parent_path"
SETUP = ("prepare", "__init__", "__post_init__")
ORDERS = {"sorted", "reversed", "set", "frozenset", "random.shuffle", "random.sample", "random.sample"}


def rooted(t):
    """The folder of the file which names the datasets"""
    while True:
        if t == ("param", ROOT) or t == ("attr", SELF, ROOT):
            return True
        if t[0] == "call" and t[1][0] == "bm" and not t[2]:
            t = t[1][1]
        elif t[0] == "call" and t[1][0] == "cls" and len(t[2]) == 1:
            t = t[2][0]
        else:
            return False


def joins(t):
    """The own path below that folder? None if the term is not about paths of this kind"""
    named = [x for x in subterms(t) if x == ("attr", SELF, "path")]
    if not named:
        return None
    for x in subterms(t):
        if x[0] == "binop" and x[1] == "Div" and any(y == ("attr", SELF, "path") for y in subterms(x[3])):
            return rooted(x[2])
        if x[0] == "call" and x[1][0] == "bm" and x[2] and any(y == ("attr", SELF, "path") for a in x[2] for y in subterms(a)):
            return any(rooted(y) for y in subterms(x[1][1]))
    return False


class Setup(Monitor):
    """mon: (own path as stored, children not yet set up in this round of a loop)"""

    def __init__(self, classes):
        self.classes = classes
        self.made, self.loads, self.calls, self.left, self.stored = [], [], [], [], []

    def init(self):
        return frozenset()

    def loaded(self, t, st, ip):
        if t == ("attr", SELF, "path"):
            for k, v in st.mon:
                if k == "path" and len(v) == 1:
                    return next(iter(v))
        return t

    def event(self, ev, st, ip):
        if ev.kind == "store_attr" and SELF in (ev.base or ()):
            if ev.attr == "path":
                return frozenset(x for x in st.mon if x[0] != "path") | {("path", ev.value)}
            self.stored.append((ev.attr, ev.value))
        if ev.kind in ("call", "newrec") and ev.tag != "inlined":
            if ev.func and ev.func[0] == "cls" and ev.func[1] in self.classes:
                self.made.append((ev, st))
            elif ev.callee is not None and ev.callee.name == "load_config":
                self.loads.append((ev, st))
            elif ev.name == "prepare" and ev.recv is not None:
                self.calls.append((ev, st))
                return frozenset(x for x in st.mon if x[0] != "left")
        if ev.kind == "iter":
            return frozenset(x for x in st.mon if x[0] not in ("left", "over")) | {("left", ev.value), ("over", ev.value)}
        if ev.kind == "loop_back":
            for k, v in st.mon:
                if k == "left" and v == ev.value:
                    self.left.append((ev, st, v))
            return frozenset(x for x in st.mon if x[0] != "left")
        return NotImplemented


def source(t):
    """Where an element comes from: the base of elem / val / values() / items()"""
    while True:
        if t[0] in ("elem", "val", "key"):
            t = t[1]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("values", "items") and not t[2]:
            t = t[1][1]
        elif t[0] == "call" and t[1] in (("ext", "list"), ("ext", "tuple"), ("ext", "enumerate"), ("ext", "iter")) and t[2]:
            t = t[2][0]
        elif t[0] == "sub" and t[2][0] in ("elem", "index", "key"):
            t = t[1]
        else:
            return t


def child(r):
    """The field whose members are asked for datasets"""
    if r[0] in ("elem", "val"):
        r = source(r)
    elif r[0] == "sub":
        r = r[1]
    elif r[0] == "call" and r[1][0] == "attr" and r[1][2] == "get":
        r = r[1][1]
    else:
        return None
    return r if r[0] == "attr" and r[1] == SELF else None


def some(cx, f, msg, ev, st, over):
    """Looping over a filtered or keyed copy"""
    for t in over:
        for x in subterms(t):
            if x[0] == "obj" and x in st.heap:
                shape, items = st.heap[x]
                if isinstance(shape, tuple) and shape[0] == "filter" or x[1] == "dict" and any(
                        isinstance(k, tuple) and k[0] == "k" and k[1][0] not in ("key", "index") for k, _ in items):
                    cx.bad("C21.all", f, ev.node, msg)


def children(p, cx, L, asked):
    """Everything which is asked for datasets has been prepared, relative to the own file"""
    fields = {c for c in (child(r) for r in asked) if c is not None}
    if not fields:
        return 0
    ran = []
    for n in SETUP:
        f = L.c.find_method(n)
        if f is None or f.is_abstract or f.cls is None:
            continue
        m = Setup(set())
        Interp(p, m, no_inline=("load_config", "prepare")).run(f, L.c)
        ran.append((f, m))
    n = 0
    for F in sorted(fields):
        found = None
        for f, m in ran:
            same = {F} | {t for a, v in m.stored if a == F[2] for t in v if t[0] == "param"}
            for ev, st in m.calls:
                s = source(ev.recv) if isinstance(ev.recv, tuple) else None
                if s in same:
                    for k, v in st.mon:
                        if k == "over":
                            some(cx, f, f"{L.c.name}.{f.name} prepares only some of its {F[2]}", ev, st, v)
                    found = found or (f, m, same)
                    n += 1
                    cx.fn(f)
                    cx.check("C21.path", f, ev.node, bool(ev.args) and any(rooted(t) for t in ev.args[0]) or
                             any(rooted(t) for v in (ev.kwargs or {}).values() for t in v),
                             f"{L.c.name}.{f.name} does not prepare its {F[2]} relative to its own folder")
                elif s is not None and s[0] == "obj" and s in st.heap:
                    shape = st.heap[s][0]
                    src = [x for x in shape if isinstance(x, tuple)] if isinstance(shape, tuple) else []
                    if any(y in same for x in src for y in subterms(x)):
                        found = found or (f, m, same)
                        n += 1
                        cx.check("C21.all", f, ev.node, shape[0] != "filter" and s[1] != "dict",
                                 f"{L.c.name}.{f.name} prepares only some of its {F[2]}")
        if found is None:
            ann = next((b.annots[F[2]] for b in L.c.mro() if F[2] in b.annots), None)
            if ann is None and not ran:
                continue
            names = {x.id for x in ast.walk(ann) if isinstance(x, ast.Name)} if isinstance(ann, ast.AST) else set()
            if not any(c.name in names and c.find_method("prepare") for c in p.classes()):
                continue              # made ready by whoever constructs it
            f = ran[0][0] if ran else L.methods[0]
            cx.bad("C21.all", f, f.node, f"{L.c.name} never prepares its {F[2]}")
            continue
        f, m, same = found
        for ev, st, v in m.left:
            if any(source(("elem", t)) in same for t in v):
                cx.bad("C21.all", f, ev.node, f"{L.c.name}.{f.name} does not prepare some of its {F[2]}")
        cx.ok("C21.all", f, f.node)
    return n


def config_file(cx, f, what, ev, st, ip):
    """A metadataset in a file gets the folder of that file"""
    args = list(ev.args or ())
    names = ev.callee.params()[0]
    kw = dict(ev.kwargs or {})
    path = args[0] if args else kw.get(names[0])
    d = kw.get("default_kwargs")
    if d is None and "default_kwargs" in names and len(args) > list(names).index("default_kwargs"):
        d = args[list(names).index("default_kwargs")]
    given = None
    for t in d or ():
        if t[0] == "obj" and t in st.heap:
            for k, v in st.heap[t][1]:
                if k == ROOT:
                    given = v
        elif t[0] == "call" and t[1] == ("ext", "dict"):
            given = next((frozenset([v]) for k, v in t[3] if k == ROOT), given)
    if path is None or given is None:
        return 0
    # a configuration which is no file has no folder
    if all(t[0] == "param" for t in path):
        return 0
    own = {("attr", t, "parent") for t in path}
    cx.fn(f)
    cx.check("C21.path", f, ev.node, given <= own or all(
        any(y in own for y in subterms(x)) for x in given),
        f"{what} does not look up the datasets of a metadataset file relative to that file")
    return 1


def own_path(p, cx, c, classes):
    f = c.find_method("prepare")
    if f is None or f.is_abstract:
        return 0
    if not any("path" in b.annots for b in c.mro()):
        return 0
    m = Setup(classes)
    ip = Interp(p, m, no_inline=("load_config",))
    ip.run(f, c)
    n = 0
    for ev, st in m.made + m.loads:
        kw = dict(ev.value) if ev.kind == "newrec" else dict(ev.kwargs or {})
        v = kw.get("path")
        if v is None and ev.args and ev.kind == "call":
            v = ev.args[0]
        if v is None:
            continue
        n += 1
        for t in v:
            cx.fn(f)
            cx.check("C21.path", f, ev.node, joins(t) is True,
                     f"{c.name}.{f.name} does not look up its path relative to the file which names it")
    for ev, st in m.loads:
        n += config_file(cx, f, f"{c.name}.{f.name}", ev, st, ip)
    return n


def order(p, cx, c, f):
    """The lists of joined datasets keep the configured order"""
    n = 0

    class Made(Monitor):
        def __init__(self):
            self.made = []

        def event(self, ev, st, ip):
            if ev.kind in ("call", "newrec") and ev.tag != "inlined":
                kw = dict(ev.value) if ev.kind == "newrec" else dict(ev.kwargs or {})
                for k in ("datasets", "inner_datasets"):
                    if k in kw:
                        self.made.append((ev, st, kw[k]))
            return NotImplemented
    m = Made()
    Interp(p, m, no_inline=("load_config", "get_dataset", "prepare")).run(f, c)
    for ev, st, v in m.made:
        seen, work = set(), list(v)
        while work:
            for x in subterms(work.pop()):
                if x in seen:
                    continue
                seen.add(x)
                if x[0] == "obj" and x in st.heap:
                    shape, items = st.heap[x]
                    if isinstance(shape, tuple):
                        work += [y for y in shape if isinstance(y, tuple)]
        n += 1
        cx.fn(f)
        bad = [x for x in seen if x[0] == "call" and x[1][0] == "ext" and x[1][1].split("builtins.")[-1] in ORDERS
               or x[0] == "slice" and "-1" in repr(x[2])]
        cx.check("C21.order", f, ev.node, not bad, f"{c.name}.{f.name} joins the datasets in another order than the configured one")
    return n


def check(p, cx, ls, asked, byname):
    n = 0
    done = set()
    for c in p.classes():
        f = c.find_method("prepare")
        if f is None or "metadataset" not in c.qualname and not any(L.c is c for L in ls):
            continue
        if c.qualname in done:
            continue
        done.add(c.qualname)
        n += own_path(p, cx, c, set(byname))
    for L in ls:
        n += children(p, cx, L, asked.get(L.c.qualname, ()))
        for name in ("prepare", "get_dataset"):
            f = L.c.find_method(name)
            if f is not None and not f.is_abstract:
                n += order(p, cx, L.c, f)
    for f in p.all_functions():
        if f.cls is None and f.outer is None and f.name == "load_dataset":
            m = Setup(set())
            ip = Interp(p, m, no_inline=("load_config",))
            ip.run(f)
            for ev, st in m.loads:
                n += config_file(cx, f, f.qualname, ev, st, ip)
    if n < 10:
        raise AnalysisBroken("how metadatasets find their datasets is not understood")
    return n
