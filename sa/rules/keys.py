"""Rules about restore keys (C06) and about what restore_sample computes (C07)."""
import ast

from ..flow import Collector, Interp, Monitor, MUTATORS, NONE, TOP, V, fmt, is_attr, subterms
from ..model import AnalysisBroken, walk_own

KEY = "__restore_key__"
INDEX_CLASS = "SampleIndex"


def alts(t):
    """Alternatives of a (possibly 'any') term."""
    if isinstance(t, tuple) and t and t[0] == "any":
        for x in t[1]:
            yield from alts(x)
    else:
        yield t


def strip(t):
    """list()/tuple()/iter() are transparent."""
    while (t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("list", "tuple", "iter") and len(t[2]) == 1):
        t = t[2][0]
    return t


def meth(t, ip):
    """(receiver, method name, args, kwargs) of a method call term"""
    if t[0] != "call":
        return None
    f = t[1]
    if f[0] == "bm":
        return f[1], ip.funcs[f[2]][0].name, t[2], dict(t[3])
    if f[0] == "attr":
        return f[1], f[2], t[2], dict(t[3])
    return None


def self_attr(t):
    return t[2] if is_attr(t, ("self",)) else None


def is_type_name(t):
    return (t[0] == "attr" and t[2] in ("__name__", "__qualname__") and
            (t[1][0] == "call" and t[1][1] == ("ext", "type") or t[1][0] == "attr" and t[1][2] == "__class__"
             or t[1][0] == "cls"))


def ctx_attr(t, ip):
    """Attribute of the sample index whose number the term is, with the number given to ctx (or None)."""
    if t[0] == "enter":
        m = meth(t[1], ip)
        if m and m[1] == "ctx" and self_attr(m[0]):
            return self_attr(m[0]), (list(m[2]) + list(m[3].values()) or [None])[0]
    it = None
    if t[0] == "sub" and t[2] == ("const", 0):
        it = iter_ctx(t[1], ip)
    if it:
        return it[0], it[2]
    m = meth(t, ip)
    if m and m[1] == "get_next" and self_attr(m[0]):
        return self_attr(m[0]), None
    return None


def iter_ctx(t, ip):
    """element of an iter_ctx() call -> (attr, iterated term, number)"""
    if t[0] == "elem" or t[0] == "call" and t[1] == ("ext", "next") and t[2]:
        c = strip(t[1] if t[0] == "elem" else t[2][0])
        m = meth(c, ip)
        if m and m[1] == "iter_ctx" and self_attr(m[0]):
            a = list(m[2])
            return self_attr(m[0]), a[0] if a else m[3].get("it"), a[1] if len(a) > 1 else m[3].get("sample_idx")
    return None


def numeric(t):
    if t[0] == "num" or t[0] == "const" and isinstance(t[1], int) and not isinstance(t[1], bool):
        return True
    return t[0] == "index"


class Pos:
    """Positions of the key a reader gets as parameter: ('at', k), ('rest', k), ('each', k)."""

    def __init__(self, param):
        self.param = ("param", param)

    def of(self, t):
        t = strip(t)
        if t == self.param:
            return ("rest", 0)
        if t[0] == "slice":
            b = self.of(t[1])
            if b and b[0] == "rest" and t[2].count(":") == 2:
                lo, hi, step = t[2].split(":")
                try:
                    return ("stride", b[1] + int(lo or 0), int(step or 1)) if not hi.strip() else None
                except ValueError:
                    return None
            if b and b[0] == "rest":
                lo, _, hi = t[2].partition(":")
                if hi.strip() not in ("", "None"):
                    try:
                        int(lo or 0)
                        return ("head", b[1] + int(lo or 0))
                    except ValueError:
                        return None
                try:
                    return ("rest", b[1] + int(lo or 0))
                except ValueError:
                    return None
            return None
        if t[0] == "sub" and t[2][0] == "const" and isinstance(t[2][1], int):
            b = self.of(t[1])
            if b and b[0] in ("rest", "head") and t[2][1] >= 0:
                return ("at", b[1] + t[2][1])
            return None
        if t[0] == "elem":
            b = self.of(t[1])
            if b and b[0] == "rest":
                return ("each", b[1])
            if b and b[0] == "stride":
                return ("every", b[1], b[2])
        return None

    def all(self, t):
        return {self.of(x) for x in alts(t)}


def comp_role(t, ip, st, acts, pos=None):
    """Role of one fixed component of a key."""
    if t in getattr(ip.mon, "members", ()):
        return ("member", ip.mon.members[t])
    if is_type_name(t) or t[0] == "const" and isinstance(t[1], str):
        return ("name",)
    if pos is not None:
        p = pos.of(t)
        if p and p[0] == "at":
            return ("param", p[1])
    c = ctx_attr(t, ip)
    if c:
        return ("sidx", c[0])
    if t in acts:
        return ("act",)
    m = meth(t, ip)
    if m and m[1] in ("global_worker_id", "rank_worker_id"):
        return ("worker",) if m[1] == "global_worker_id" else ("local worker",)
    if t[0] == "index" and t[1][0] == "attr" and t[1][1] == ("self",):
        return ("member", t[1][2])
    if t[0] == "sub" and t[1][0] == "elem":
        # element of a list of (index, ...) tuples built over the members
        pass
    if numeric(t):
        return ("nth",)
    return None


def rest_kind(t, st, ip, pos=None):
    """What the starred tail of a key is: the inner sample's key, or a list of keys."""
    t = strip(t)
    if pos is not None:
        p = pos.of(t)
        if p and p[0] == "rest":
            return ("param", p[1])
    if t[0] == "attr" and t[2] == KEY or t[0] == "sub" and t[2] == ("const", KEY):
        return ("inner",)
    if t[0] == "obj" and t in st.heap:
        for k, v in st.heap[t][1]:
            for x in v:
                if key_like(x):
                    continue
                if k == "*" and x == NONE or x == TOP:
                    continue
                return ("bad", fmt(x, ip))
        return ("keys",)
    if t[0] == "sub" and t[2] == ("const", 1):
        m = meth(t[1], ip)
        if m and m[1] in ("flush", "restore_samples"):
            return ("keys",)
        if t[1][0] == "call":
            return ("keys",)
    m = meth(t, ip)
    if m and m[1] == "restore_key":
        return ("keys",)
    if t[0] == "slice":
        # (all of) a copy; everything else leaves out or reorders keys
        return ("keys",) if t[2] in (":", "0:", "::") else ("bad", fmt(t, ip))
    if t[0] in ("attr", "sub"):
        return ("keys",)
    return None


def key_like(x):
    return (x[0] == "attr" and x[2] == KEY or x[0] == "sub" and x[2] == ("const", KEY) or x == NONE)


def expand_star(x):
    """Components of a starred element (list of alternative component lists)."""
    for y in alts(x):
        if y[0] == "tuple":
            yield from expand(y[1])
        else:
            yield [("star", y)]


def expand(items):
    res = [[]]
    for x in items:
        if x[0] == "any" and any(y[0] == "star" for y in x[1]):
            parts = [p for y in x[1] for p in (expand_star(y[1]) if y[0] == "star" else [[y]])]
        elif x[0] == "star":
            parts = list(expand_star(x[1]))
        else:
            parts = [[x]]
        res = [r + p for r in res for p in parts]
        if len(res) > 64:
            res = res[:64]
    return res


def layouts(value, st, ip, acts, pos=None):
    """{(roles..., tail kind)} of a stored key."""
    out = set()
    for v in value:
        for t in alts(v):
            t = strip(t)
            if t[0] == "binop" and t[1] == "Add":
                items = []
                for side in (t[2], t[3]):
                    for s in [strip(side)]:
                        items += list(s[1]) if s[0] == "tuple" else [("star", s)]
                t = ("tuple", tuple(items))
            if t[0] != "tuple":
                out.add((("?", fmt(t, ip)),))
                continue
            for comps in expand(t[1]):
                row = []
                for c in comps:
                    if c[0] == "star":
                        rk = rest_kind(c[1], st, ip, pos)
                        row.append(rk if rk else ("?", fmt(c[1], ip)))
                        continue
                    rs = {comp_role(x, ip, st, acts, pos) or ("?", fmt(x, ip)) for x in alts(c)}
                    row.append(next(iter(rs)) if len(rs) == 1 else ("?", fmt(c, ip)))
                out.add(tuple(row))
    return out


class KeyMonitor(Monitor):
    """mon: (terms that carry a new key, sample-index contexts, counter advanced since the activation,
    assert_can_restore passed)"""

    def __init__(self, user):
        self.stores = []
        self.yields = []
        self.calls = []
        self.acts = set()
        self.datasets = user
        self.branches = []
        self.members = {}       # index term -> attribute holding the list it selects from

    def init(self):
        return (frozenset(), (), False, False)

    def loaded(self, t, st, ip):
        if st.mon[2] and t in self.acts:
            return ("stale", t)
        return t

    def event(self, ev, st, ip):
        keyed, ctx, dirty, guard = st.mon
        if ev.kind == "store_attr" and ev.attr == KEY or ev.kind == "store_sub" and ev.index and ("const", KEY) in ev.index:
            self.stores.append((ev.value, st, ev))
            return (keyed | frozenset(ev.base), ctx, dirty, guard)
        if ev.kind == "store_attr" and any(("attr", b, ev.attr) in self.acts for b in ev.base) or \
                ev.kind == "store_sub" and any(("sub", b, i) in self.acts for b in ev.base for i in ev.index):
            return (keyed, ctx, True, guard)
        if ev.kind == "call":
            nm = ev.name
            if nm == "worker_activate":
                for v in list(ev.args[:1]) + [x for k, x in (ev.kwargs or {}).items() if k in ("sample_index",)]:
                    self.acts |= {t[1] if t[0] == "stale" else t for t in v}
                dirty = False
            if nm == "assert_can_restore":
                guard = True
            if ev.tag != "inlined":
                self.calls.append((ev, st, ctx))
            if ev.callee is not None and writes_key(ev.callee) and ev.args:
                # whether the sample can carry a key is up to its type
                return (keyed | frozenset(ev.args[0]), ctx, dirty, guard)
            return (keyed, ctx, dirty, guard)
        elif ev.kind == "with_enter":
            for t in ev.value:
                m = meth(t, ip)
                if m and m[1] == "ctx" and self_attr(m[0]):
                    a = (list(m[2]) + list(m[3].values()) or [None])[0]
                    return (keyed, ctx + ((self_attr(m[0]), a),), dirty, guard)
        elif ev.kind == "with_exit":
            for t in ev.value:
                m = meth(t, ip)
                if m and m[1] == "ctx" and self_attr(m[0]) and ctx:
                    return (keyed, ctx[:-1], dirty, guard)
        elif ev.kind in ("yield",):
            self.yields.append((ev, st, keyed))
            return (frozenset(), ctx, dirty, guard)
        elif ev.kind == "branch":
            self.branches.append(ev.cond)
        elif ev.kind == "load_sub" and self.datasets:
            for b in ev.base:
                if self_attr(strip(b)) in self.datasets:
                    for i in ev.index or ():
                        self.members[i] = self_attr(strip(b))
        return NotImplemented


def writes_key(fi):
    """Function which stores a restore key on its first parameter."""
    ps = fi.params()[0]
    if not ps:
        return False
    for n in walk_own(fi.node):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            if n.value.id == ps[0] and (isinstance(n, ast.Attribute) and n.attr == KEY or isinstance(n, ast.Subscript)
                                        and isinstance(n.slice, ast.Constant) and n.slice.value == KEY):
                return True
    return False


def restorers(p):
    """Dataset / loader classes which define how a sample is restored from its key."""
    base = p.cls("SavableDataset")
    out = []
    for c in p.classes():
        f = c.methods.get("restore_sample")
        if f is None or f.is_abstract:
            continue
        it = c.find_method("__iter__")
        if it is None or it.is_abstract:
            continue
        out.append(c)
    return out


def run(p, c, name):
    f = c.find_method(name)
    mon = KeyMonitor(dataset_attrs(p, c))
    ip = Interp(p, mon, inline_classes=())
    o = ip.run(f, c)
    return f, mon, ip, o


def param_of(f):
    ps = [a for a in f.params()[0] if a != "self"]
    if not ps:
        raise AnalysisBroken(f"{f.qualname} takes no key")
    return ps[0]


def reader(f, mon, ip, pos):
    """-> roles {position: set}, tails {(kind, k)}, [(restore call receiver, tail)]"""
    roles, tails = {}, set()

    def add(k, r):
        roles.setdefault(k, set()).add(r)

    def uses(t, role):
        for x in alts(t):
            q = pos.of(x)
            if q and q[0] == "at":
                add(q[1], role)

    inner = []
    for ev, st, ctx in mon.calls:
        r = ev.recv
        nm = ev.name
        if nm in ("ctx", "iter_ctx") and r is not None and self_attr(r):
            i = 0 if nm == "ctx" else 1
            a = ev.arg(i, "sample_idx")
            for t in a or ():
                uses(t, ("sidx", self_attr(r)))
                for x in subterms(t):
                    if x != t:
                        q = pos.of(x)
                        if q and q[0] == "at":
                            if x[0] == "sub":
                                add(q[1], ("arith", self_attr(r)))
        if nm == "worker_activate":
            for t in ev.arg(0, "sample_index") or ():
                uses(t, ("act",))
            for t in ev.arg(None, "override_global_rank") or ev.arg(1) or ():
                uses(t, ("worker",))
        if nm in ("restore_sample", "restore_samples", "_restore_sample") and r is not None:
            for t in (ev.args[0] if ev.args else ()):
                for x in alts(t):
                    q = pos.of(x)
                    inner.append((r, q, ev, x))
                    if q and q[0] in ("rest", "each"):
                        tails.add((("inner",) if q[0] == "rest" and nm != "restore_samples" else ("keys",), q[1]))
        for v in [V(r) if r else ()] + list(ev.args) + list((ev.kwargs or {}).values()):
            for t in v:
                for x in subterms(t):
                    if x[0] == "sub" and self_attr(strip(x[1])):
                        uses(x[2], ("member", self_attr(strip(x[1]))))
    for v in mon.branches:
        for t in v or ():
            for x in subterms(t):
                if x[0] == "cmp" and x[1] in ("Eq", "NotEq", "Is", "Lt", "GtE", "Gt", "LtE"):
                    for a, b in ((x[2], x[3]), (x[3], x[2])):
                        if x[1] in ("Eq", "NotEq") and is_type_name(b):
                            uses(a, ("name",))
                        elif numeric(b):
                            uses(a, ("nth",))
                if x[0] == "sub" and self_attr(strip(x[1])):
                    uses(x[2], ("member", self_attr(strip(x[1]))))
    for k in list(roles):
        if any(r[0] == "arith" for r in roles[k]) and len(roles[k]) == 1:
            roles[k] = {("nth",)}
        else:
            roles[k] = {r for r in roles[k] if r[0] != "arith"} or {("nth",)}
    return roles, tails, inner


def render(l):
    return "(" + ", ".join(" ".join(str(y) for y in x) for x in l) + ")"


def models(p):
    out = []
    for c in restorers(p):
        fi, mi, ipi, oi = run(p, c, "__iter__")
        fr, mr, ipr, orr = run(p, c, "restore_sample")
        out.append((c, (fi, mi, ipi, oi), (fr, mr, ipr, orr)))
    return out


def c06(p, cx):
    cx.rule("layout", "restore_sample reads the components of the key that __iter__ writes, in the same positions")
    cx.rule("tail", "the rest of the key reaches the restore_sample of the wrapped dataset that produced the sample")
    cx.rule("again", "a restored sample carries the key it was restored from")
    cx.rule("keyed", "every emitted sample carries the key of this emission")
    cx.rule("part", "the key of one of several results contains its number among them, and restoring hands out the result of that number")
    cx.rule("together", "the samples collected for a function and the keys collected for its result are added and dropped together")
    n = 0
    for c, (fi, mi, ipi, oi), (fr, mr, ipr, orr) in models(p):
        where_i, where_r = fi.loc(), fr.loc()
        cx.fn(fi)
        cx.fn(fr)
        W = set()
        for v, st, ev in mi.stores:
            W |= layouts(v, st, ipi, mi.acts)
        pos = Pos(param_of(fr))
        roles, tails, inner = reader(fr, mr, ipr, pos)
        if not W:
            # the key of the inner sample is handed on as it is
            if not inner:
                continue      # leaf dataset
            n += 1
            for r, q, ev, x in inner:
                cx.check(q == ("rest", 0), "layout", f"{c.name}", ev.where(),
                         f"__iter__ adds nothing to the key, restore_sample passes on {fmt(x, ipr)}")
            cx.check(not mr.stores, "again", c.name, where_r, "restore_sample changes the key, __iter__ does not")
            continue
        n += 1
        for l in sorted(W, key=str):
            bad = [x for x in l if x[0] in ("?", "bad", "local worker")]
            cx.check(not bad, "layout", f"{c.name} writes", where_i,
                     f"key component {bad and bad[0]} is not one restore_sample could use")
            cx.check(l and l[0] == ("name",), "layout", f"{c.name} name", where_i, f"key {render(l)} lacks the class name")
            cx.check(l and l[-1] in (("inner",), ("keys",)) and not any(x in (("inner",), ("keys",)) for x in l[:-1]),
                     "layout", f"{c.name} tail", where_i, f"key {render(l)} does not end with the inner keys")
        R = set()
        for kind, k in tails:
            R.add(tuple(frozenset(roles.get(i, ())) for i in range(k)) + (kind,))
        for l in sorted(W, key=str):
            ok = False
            why = f"no path of restore_sample reads a key of the form {render(l)}"
            for r in R:
                if len(r) != len(l) or r[-1] != l[-1]:
                    continue
                miss = [i for i in range(len(l) - 1) if not fits(l[i], r[i], i)]
                if not miss:
                    ok = True
                    break
                why = (f"component {miss[0]} is written as {' '.join(l[miss[0]])} and read as "
                       f"{sorted(' '.join(x) for x in r[miss[0]]) or 'nothing'}")
            cx.check(ok, "layout", f"{c.name} {len(l)} components", where_r, why)
        for r in sorted(R, key=str):
            ok = any(len(r) == len(l) and r[-1] == l[-1] for l in W)
            cx.check(ok, "layout", f"{c.name} reads {len(r)} components", where_r,
                     f"restore_sample expects a key with {len(r) - 1} components before the {r[-1][0]} part, which is never written")
        cx.check(bool(tails), "tail", c.name, where_r, "restore_sample does not restore the inner sample")
        for r, q, ev, x in inner:
            cx.check(q is not None and q[0] in ("rest", "each"), "tail", c.name, ev.where(),
                     f"{fmt(x, ipr)} is not the remaining part of the key")
            if q and q[0] in ("rest", "each"):
                member = [l for l in W if any(y[0] == "member" for y in l)]
                if member:
                    got = {y[2] for y in subterms(r) if y[0] == "sub" and pos.of(y[2])}
                    cx.check(bool(got), "tail", c.name + " member", ev.where(),
                             "the member named by the key is not the one asked to restore")
        parts(p, cx, c, mi, ipi, pos)
        skipped(p, cx, c, W, fr, pos)
        collected(p, cx, c, fi)
        leftover(p, cx, c, fi)
        # rebuilt key
        RB = set()
        for v, st, ev in mr.stores:
            for l in layouts(v, st, ipr, mr.acts, pos):
                RB.add((l, ev.where()))
        cx.check(bool(RB), "again", c.name, where_r, "a restored sample does not get its key back")
        done = set()
        for wh in sorted({w for _, w in RB}):
            ls = sorted((l for l, w in RB if w == wh), key=str)
            hit = {w for w in W for l in ls if same_key(w, l)}
            done |= hit
            cx.check(bool(hit), "again", f"{c.name} {len(ls[0])} components", wh,
                     f"the restored sample gets key {' or '.join(map(render, ls))}, "
                     f"__iter__ writes {' or '.join(render(w) for w in sorted(W, key=str))}")
        for w in sorted(W - done, key=str):
            cx.bad("again", f"{c.name} {render(w)}", where_r, f"no restored sample gets the key {render(w)} it was restored from")
        for ev, st, keyed in mi.yields:
            ok = all(t in keyed or strip(t) in keyed or carried(t, keyed) for t in ev.value)
            cx.check(ok, "keyed", f"{c.name} yields", ev.where(),
                     f"a path emits {fmt(ev.value, ipi)[:80]} without a new key")
    cx.floor("datasets restoring samples", n, 10)
    leaf(p, cx)
    joined(p, cx)
    passed_on(p, cx)


def is_part(t, ip):
    """Is the sample one of several a user's generator gives?"""
    for x in subterms(t):
        if x[0] == "elem":
            for y in subterms(x[1]):
                m = meth(y, ip)
                if m and m[1] == "iter_ctx":
                    return True
    return False


def parts(p, cx, c, mi, ip, pos):
    several = any(is_part(b, ip) for v, st, ev in mi.stores for b in ev.base)
    if not several:
        return
    nths = set()
    for v, st, ev in mi.stores:
        if not ev.base:
            continue
        part = all(is_part(b, ip) for b in ev.base)
        if not part and any(is_part(b, ip) for b in ev.base):
            continue
        for l in layouts(v, st, ip, mi.acts):
            has = ("nth",) in l
            if has:
                nths.add(l.index(("nth",)))
            cx.check(has == part, "part", f"{c.name} {'part' if part else 'whole'}", ev.where(),
                     f"the key {render(l)} of {'one of several results lacks' if part else 'an only result has'} a number among them")
    fr = c.find_method("restore_sample")
    mon = Chosen(pos)
    ipc = Interp(p, mon, inline_classes=())
    o = ipc.run(fr, c)
    for st, v, node in o.ret:
        if not v or not all(is_part(t, ipc) for t in v):
            continue
        ok = False
        for t, k in st.mon:
            if (t[1], k) not in (("Eq", True), ("NotEq", False), ("Is", True)):
                continue
            d = {}
            for s, x in ((1, t[2]), (-1, t[3])):
                spread(x, s, d)
            d = {x: n for x, n in d.items() if n}
            at = [x for x in d if isinstance(x, tuple) and pos.of(x) and pos.of(x)[0] == "at" and pos.of(x)[1] in nths]
            ok |= len(d) == 2 and len(at) == 1 and "1" not in d and set(d.values()) == {1, -1}
        cx.check(ok, "part", f"{c.name} restored", fr.loc(node) if node is not None else fr.loc(),
                 "the result handed out is not the one with the number in the key")


class Skips(Monitor):
    """Loops over a range in which the next result is taken (and dropped)"""

    def __init__(self):
        self.found = []

    def event(self, ev, st, ip):
        if ev.kind in ("iter", "next") and isinstance(ev.node, ast.For) and any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next" for n in ast.walk(ev.node)):
            for t in ev.value or ():
                if t[0] == "call" and t[1] == ("ext", "range"):
                    self.found.append((t[2], ev))
        return NotImplemented


def skipped(p, cx, c, W, fr, pos):
    """Restoring drops as many results as the number in the key says"""
    nths = {i for l in W for i, x in enumerate(l) if x == ("nth",)}
    if not nths:
        return
    mon = Skips()
    Interp(p, mon, inline_classes=()).run(fr, c)
    for args, ev in mon.found:
        d = {}
        spread(args[-1] if len(args) < 2 else args[1], 1, d)
        if len(args) > 1:
            spread(args[0], -1, d)
        d = {x: n for x, n in d.items() if n}
        ok = len(args) < 3 and len(d) == 1 and all(isinstance(x, tuple) and n == 1 and pos.of(x) and pos.of(x)[0] == "at" and
                                                   pos.of(x)[1] in nths for x, n in d.items())
        cx.check(ok, "part", f"{c.name} skipped", ev.where(), "the number of results skipped is not the number in the key")


class Chosen(Monitor):
    """mon = comparisons with components of the key made for the result at hand"""

    def __init__(self, pos):
        self.pos = pos

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind in ("next", "iter"):
            return frozenset()
        if ev.kind == "branch":
            r = set(st.mon)
            for t in ev.cond or ():
                k = ev.taken
                while t[0] == "not":
                    t, k = t[1], not k
                if t[0] == "cmp" and any(self.pos.of(x) for x in subterms(t)):
                    r.add((t, k))
            return frozenset(r)
        return NotImplemented


class Leftover(Monitor):
    """mon = the inner samples of a call which failed may still be in the list of keys"""

    def __init__(self, c, name, fns):
        self.c, self.name, self.fns = c, name, fns
        self.bad = {}
        self.seen = 0

    def init(self):
        return False

    def raises(self, ev, st, ip):
        v = [ev.func] if ev.kind == "call" and ev.tag != "inlined" else ev.value or () if ev.kind == "next" else ()
        if any(x[0] == "attr" and x[1] == ("self",) and x[2] in self.fns and "handler" not in x[2] for t in v if t for x in subterms(t)):
            return ("SkipSample", "ValueError")
        return ()

    def event(self, ev, st, ip):
        if ev.kind == "catch":
            return True
        named = ev.kind == "call" and ev.func and ev.func[0] == "attr" and isinstance(ev.node, ast.Call) and \
            isinstance(ev.node.func, ast.Attribute) and isinstance(ev.node.func.value, ast.Name) and ev.node.func.value.id == self.name
        if named and ev.func[2] == "clear" or ev.kind == "store_name" and ev.attr == self.name:
            self.seen += 1
            return False
        if ev.kind == "del_sub" and isinstance(ev.node, ast.Delete) and any(
                isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == self.name and
                isinstance(x.slice, ast.Slice) and not x.slice.lower and not x.slice.upper for x in ev.node.targets):
            return False
        if ev.kind == "call" and st.mon and ev.func and ev.func[0] == "attr" and ev.func[1] == ("self",) and ev.func[2] in self.fns:
            self.bad.setdefault("left", ev)
        return NotImplemented


def leftover(p, cx, c, f):
    """Keys collected by a generator which feeds a user's function: dropped if the function fails"""
    fns = set(user_fn_attrs(c))
    inner = [g for g in ast.walk(f.node) if isinstance(g, ast.FunctionDef) and g is not f.node and
             any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(g))]
    names = {n.func.value.id for g in inner for n in ast.walk(g) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
             n.func.attr == "append" and isinstance(n.func.value, ast.Name) and len(n.args) == 1 and "restore_key" in ast.unparse(n.args[0])}
    for name in sorted(names):
        mon = Leftover(c, name, fns)
        mon.names = {name}
        Interp(p, mon).run(f, c)
        for ev in mon.bad.values():
            cx.bad("together", f"{c.name} {name} failed", ev.where(),
                   f"after the function failed, it goes on with the keys of the samples it failed for still in {name}")
        if not mon.bad:
            cx.ok("together", f"{c.name} {name} failed", f.loc())


def spread(t, s, out):
    if t[0] == "binop" and t[1] in ("Add", "Sub"):
        spread(t[2], s, out)
        spread(t[3], s if t[1] == "Add" else -s, out)
    elif t[0] == "const" and type(t[1]) is int:
        out["1"] = out.get("1", 0) + s * t[1]
    else:
        out[t] = out.get(t, 0) + s


class Collected(Monitor):
    """mon = (samples - keys added since both lists were new, samples list new?, keys list new?, which one was dropped)"""

    def __init__(self, B, K):
        self.B, self.K = B, K
        self.bad = {}
        self.names = {B, K}
        self.seen = 0

    def init(self):
        return (0, True, True, None)

    def event(self, ev, st, ip):
        d, b, k, half = st.mon
        if ev.kind == "call" and ev.func and ev.func[0] == "attr" and isinstance(ev.node, ast.Call) and \
                isinstance(ev.node.func, ast.Attribute) and isinstance(ev.node.func.value, ast.Name):
            n, m = ev.node.func.value.id, ev.func[2]
            if n in (self.B, self.K) and m in ("append", "insert"):
                if half is not None:
                    self.bad.setdefault(f"{n} goes on with only {half} emptied", ev)
                self.seen += 1
                d += 1 if n == self.B else -1
                if abs(d) > 1:
                    self.bad.setdefault(f"the additions to {self.B} and {self.K} do not match", ev)
                    d = 0
                return (d, b and n != self.B, k and n != self.K, half)
            if n in (self.B, self.K) and m == "clear":
                return self.drop(n, d, b, k, half)
        if ev.kind in ("yield", "yield_from", "next") and d and (ev.kind != "next"):
            self.bad.setdefault(f"something is handed out with {self.B} and {self.K} of different lengths", ev)
            return (0, b, k, half)
        if ev.kind == "store_name" and ev.attr in (self.B, self.K):
            new = all(t[0] == "obj" and t in st.heap and not st.heap[t][1] for t in ev.value) and bool(ev.value)
            if new:
                return self.drop(ev.attr, d, b, k, half)
            return (d, b and ev.attr != self.B, k and ev.attr != self.K, half)
        return NotImplemented

    def drop(self, n, d, b, k, half):
        if n == self.B:
            if b and half is None:
                return (d, b, k, half)
            b, other = True, k
        else:
            if k and half is None:
                return (d, b, k, half)
            k, other = True, b
        return (0, True, True, None) if other else (0, b, k, n)


def collected(p, cx, c, f):
    """Local lists of samples and of the keys read from them, filled side by side"""
    pairs = set()
    loops = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))]
    for lp in loops:
        adds = {}
        for n in ast.walk(lp):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and \
                    isinstance(n.func.value, ast.Name) and len(n.args) == 1:
                adds.setdefault(n.func.value.id, []).append(n.args[0])
        for K, ks in adds.items():
            for a in ks:
                if isinstance(a, ast.Call) and "restore_key" in ast.unparse(a.func) and len(a.args) == 1:
                    for B, bs in adds.items():
                        if B != K and any(ast.unparse(x) == ast.unparse(a.args[0]) for x in bs):
                            pairs.add((B, K))
    for B, K in sorted(pairs):
        mon = Collected(B, K)
        Interp(p, mon).run(f, c)
        for what, ev in mon.bad.items():
            cx.bad("together", f"{c.name} {B}/{K}", ev.where(), what)
        if not mon.bad and mon.seen:
            cx.ok("together", f"{c.name} {B}/{K}", f.loc())


class LeafMonitor(Monitor):
    """mon: (key built, progress made after it, facts of excluded samples are not counted)"""

    def __init__(self):
        self.keys = []
        self.states = []

    def init(self):
        return (False, (), False)

    def event(self, ev, st, ip):
        built, bumps, out = st.mon
        if ev.kind == "branch":
            for t in ev.cond:
                taken = ev.taken
                while t[0] == "not":
                    t, taken = t[1], not taken
                for pol in ("In", "NotIn"):
                    if t[0] == "cmp" and t[1] == pol and excluded_fact((("cmp", "In") + t[2:], "true")):
                        now = taken == (pol == "In")
                        return (built, bumps, now) if now != out else NotImplemented
            return NotImplemented
        if out and (ev.kind in ("catch", "next", "exhausted") or ev.kind == "call" and ev.func == ("ext", "next")):
            return (built, bumps, False)
        kv = key_value(ev, st)
        if kv is not None:
            self.keys.append((ev, st, kv))
            return (True, (), out)
        if ev.kind == "store_attr" and ev.attr == "offset":
            by = None
            if ev.op == "Add" and ev.index:
                by = ip.pick(ev.index)
            elif ev.op is None:
                for t in ev.value:
                    if t[0] == "binop" and t[1] == "Add" and is_attr(t[2], None, "offset") and t[2][1] in ev.base:
                        by = t[3]
            if by is None or out:
                return NotImplemented
            return (built, (bumps + (by,))[:3], out)
        return NotImplemented


def excluded_fact(f):
    t, pol = f
    return (pol == "true" and t[0] == "cmp" and t[1] == "In" and any(is_attr(x) and "exclude" in x[2] for x in subterms(t)))


def key_value(ev, st):
    """The restore key given to a newly built sample."""
    if ev.kind == "call" and ev.tag != "inlined" and KEY in (ev.kwargs or {}):
        return ev.kwargs[KEY]
    if ev.kind == "newrec" and KEY in (ev.kwargs or {}):
        return ev.kwargs[KEY]
    if ev.kind == "newobj" and ev.result[1] == "dict":
        d = dict(st.heap[ev.result][1])
        if KEY in d:
            return d[KEY]
    if ev.kind == "store_attr" and ev.attr == KEY or ev.kind == "store_sub" and ev.index and ("const", KEY) in ev.index:
        return ev.value
    return None


def leaf(p, cx):
    """The key of a sample read from a shard, and its way back."""
    cx.rule("shard key", "a sample read from a shard carries the shard's name and the sample's number in that shard")
    cx.rule("shard restore", "the shard reader restoring a sample is set up for the name and number found in the key")
    n = 0
    ids = set()
    for c in p.classes():
        for f in c.methods.values():
            if not any(isinstance(x, ast.Constant) and x.value == KEY or isinstance(x, ast.keyword) and x.arg == KEY
                       for x in walk_own(f.node)):
                continue
            mon = LeafMonitor()
            ip = Interp(p, mon)
            try:
                o = ip.run(f, c)
            except AnalysisBroken:
                continue
            for ev, st, kv in mon.keys:
                for t in kv:
                    if t[0] != "tuple" or not t[1] or t[1][0][0] != "const" or not isinstance(t[1][0][1], str):
                        continue
                    n += 1
                    cx.fn(f)
                    ids.add(t[1][0][1])
                    cx.check(len(t[1]) == 3, "shard key", f"{f.qualname} parts", ev.where(), f"key {fmt(t, ip)}")
                    if len(t[1]) != 3:
                        continue
                    name, num = t[1][1], t[1][2]
                    leaves = sorted({fmt(x, ip) for x in arith(num)})
                    shard = name[1] if is_attr(name, None, "name") else None
                    cx.check(shard is not None and is_attr(shard, None, "shard"), "shard key", f"{f.qualname} name", ev.where(),
                             f"the key names {fmt(name, ip)}")
                    if shard is None:
                        continue
                    own = ("attr", shard[1], "offset") if is_attr(shard) else None
                    want = sorted({fmt(("attr", shard, "offset"), ip), fmt(own, ip) if own else "?"})
                    add = all(x[1] == "Add" for x in subterms(num) if x[0] == "binop")
                    cx.check(leaves == want and add, "shard key", f"{f.qualname} number", ev.where(),
                             f"the key numbers the sample {fmt(num, ip)}, not {' + '.join(want)}")
            if any(t[0] == "tuple" and t[1] and t[1][0][0] == "const" for _, _, kv in mon.keys for t in kv):
                for st, v, node in o.ret:
                    if st.mon[0]:
                        cx.check(st.mon[1] == (("const", 1),), "shard key", f"{f.qualname} counts", f.loc(),
                                 "the sample number is not advanced by exactly one for each sample read")
    cx.floor("shard keys", n, 1)
    m = 0
    for c in restorers(p):
        fr = c.find_method("restore_sample")
        col = Collector({"newrec", "branch"})
        ip = Interp(p, col)
        ip.run(fr, c)
        pos = Pos(param_of(fr))
        recs = [(ev, st) for ev, st in col.out if ev.kind == "newrec" and ev.func[1].split(".")[-1] in ("ShardInfo", "ShardState")]
        if not recs:
            continue
        m += 1
        cx.fn(fr)
        consts = {y[1] for ev, st in col.out if ev.kind == "branch" for t in ev.cond for x in subterms(t)
                  if x[0] == "cmp" and x[1] in ("Eq", "NotEq") for y in x[2:] if y[0] == "const" and isinstance(y[1], str)
                  for z in x[2:] if (pos.of(z) or ("",))[:2] == ("at", 0)}
        cx.check(not consts or consts == ids, "shard restore", f"{c.name} id", fr.loc(),
                 f"expects the key to start with {sorted(consts)}, it starts with {sorted(ids)}")
        for ev, st in recs:
            d = dict(ev.value)
            cls = ev.func[1].split(".")[-1]
            if cls == "ShardInfo":
                got = {}
                for k in ("name", "offset"):
                    got[k] = {pos.of(x) for t in d.get(k, ()) for x in subterms(t)} - {None}
                    got[k] = {x for x in got[k] if x[0] in ("at", "every")}
                cx.check(bool(got["offset"]) or not got["name"], "shard restore", f"{c.name} number", ev.where(),
                         "the number of the key is not used")
                for k, start in (("name", 1), ("offset", 2)):
                    for x in got[k]:
                        cx.check(x[1] % 2 == start % 2 and (x[0] == "at" or x[2] == 2), "shard restore", f"{c.name} {k}", ev.where(),
                                 f"the shard's {k} is taken from component {x[1]} of the key")
                single_sample(p, cx, c, ev, st, ip, pos, d, col)
            else:
                for k in ("offset", "byte_offset"):
                    cx.check(d.get(k) == V(("const", 0)), "shard restore", f"{c.name} state {k}", ev.where(),
                             f"starts at {fmt(d.get(k, NONE), ip)} of the single sample shard")
    cx.floor("readers restoring from shards", m, 1)


def single_sample(p, cx, c, ev, st, ip, pos, d, col):
    """The part of a shard which is opened is the one sample of the key (none where the key has no number), in the shard's file"""
    def at(t):
        x = pos.of(t)
        return x is not None and x[0] in ("at", "every") and x[1] % 2 == 0

    def plain(t):
        if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("max", "int"):
            return all(plain(x) for x in t[2]) and (t[1][1] == "int" or ("const", 0) in t[2])
        if t[0] == "any":
            return all(plain(x) for x in t[1])
        return at(t) or t == ("const", 0)
    off = d.get("offset", NONE)
    if any(at(x) for t in off for x in subterms(t)):
        cx.check(all(plain(t) for t in off), "shard restore", f"{c.name} first sample", ev.where(),
                 f"the part of the shard begins at {fmt(off, ip)}, not at the number of the key")
    for k in ("name", "offset"):
        mixed = [x for t in d.get(k, NONE) for x in subterms(t) if x[0] == "call" and x[1][0] == "ext" and x[1][1] in ("sorted", "reversed", "set")]
        cx.check(not mixed, "shard restore", f"{c.name} {k} order", ev.where(), "the components of the key are brought into another order")
    cnt = [x for t in d.get("count", NONE) for x in (t[1] if t[0] == "any" else (t,))]
    nums = {t[1] for t in cnt if t[0] == "const"}
    if all(t[0] == "const" for t in cnt):
        cx.check(nums in ({1}, {0, 1}), "shard restore", f"{c.name} one sample", ev.where(), f"opens a part of {sorted(map(str, nums))} samples")
    sign = {("GtE", 0), ("Lt", 0), ("Gt", -1), ("LtE", -1), ("Eq", -1), ("NotEq", -1)}
    flip = {"GtE": "LtE", "LtE": "GtE", "Gt": "Lt", "Lt": "Gt"}
    conds = [x for e2, _ in col.out if e2.kind == "branch" for t in e2.cond for x in subterms(t)] + [x for t in cnt for x in subterms(t)]
    for x in conds:
        if x[0] == "cmp" and x[2][0] != "const" and at(x[2]) and x[3][0] in ("const", "unop"):
            op, k = x[1], number(x[3])
        elif x[0] == "cmp" and x[3][0] != "const" and at(x[3]) and x[2][0] in ("const", "unop"):
            op, k = flip.get(x[1], x[1]), number(x[2])
        else:
            continue
        if k is not None:
            cx.check((op, k) in sign, "shard restore", f"{c.name} no number", ev.where(),
                     "the condition for a part without number is not whether its number is negative")
    for t in d.get("path", NONE):
        for x in subterms(t):
            a = self_attr(x[1]) if x[0] == "sub" else None
            if a is None:
                continue
            whole_groups(p, cx, c, a)


def number(t):
    if t[0] == "const" and isinstance(t[1], int):
        return t[1]
    if t[0] == "unop" and t[1] == "USub" and t[2][0] == "const" and isinstance(t[2][1], int):
        return -t[2][1]
    return None


def whole_groups(p, cx, c, a):
    """The table of the files of joined shards lists every one of them in order"""
    for f in c.methods.values():
        if f.name == "__init__" or not any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store) for n in walk_own(f.node)):
            continue
        col = Collector({"store_attr"})
        ip = Interp(p, col)
        ip.run(f, c)
        for ev, st in col.out:
            for v in ev.value if ev.attr == a else ():
                for key, items in (st.heap[v][1] if v in st.heap and v[1] == "dict" else ()):
                    of = {x[1] for x in subterms(key[1]) if x[0] == "sub" and x[2] == ("const", 0)} if isinstance(key, tuple) else set()
                    for y in items:
                        sh = st.heap[y][0] if y in st.heap else None
                        if of and sh and sh[0] in ("map", "filter"):
                            cx.check(sh[0] == "map" and sh[1] in of, "shard restore", f"{c.name}.{a}", ev.where(),
                                     "the files of joined shards are not all listed under the name of the first")


def joined(p, cx):
    """Keys of several samples combined into one."""
    cx.rule("joined key", "the key of a joined sample is the key of its first part followed by shard and number of every other part")
    n = 0
    for c in p.classes():
        for f in c.methods.values():
            if f.is_abstract or not f.all_params() or f.name in ("restore_sample",):
                continue
            src = ast.unparse(f.node)
            if KEY not in src or "samples" not in {a.arg for a in f.all_params()} and not any(
                    p.type_of_annotation(a.annotation, f.module) and p.type_of_annotation(a.annotation, f.module)[0] in ("list", "tuple")
                    for a in f.all_params() if a.annotation is not None):
                continue
            col = Collector({"call", "aug_name", "store_attr", "store_sub", "newobj"})
            ip = Interp(p, col)
            try:
                ip.run(f, c)
            except AnalysisBroken:
                continue
            lists = set()
            for ev, st in col.out:
                kv = key_value(ev, st)
                for t in kv or ():
                    t = strip(t)
                    if t[0] == "obj" and t[1] == "list":
                        lists.add(t)
            if not lists:
                continue
            n += 1
            cx.fn(f)
            adds = []
            for ev, st in col.out:
                if ev.kind == "call" and ev.func[0] == "attr" and ev.func[1] in lists and ev.args:
                    adds.append((ev, ev.func[2], ev.args[-1]))
                elif ev.kind == "aug_name" and set(ev.base) & lists:
                    adds.append((ev, "extend", ev.value))
            seq = []
            for ev, how, v in adds:
                for t in v:
                    if how == "append":
                        if t[0] == "const" and (not seq or seq[-1] != t):
                            seq.append(t)
                        continue
                    for x in alts(strip(t)):
                        if x[0] == "slice" and key_like(x[1]):
                            lo, _, hi = x[2].partition(":")
                            cx.check(lo == "1" and hi in ("3", ""), "joined key", f"{f.qualname} further part", ev.where(),
                                     f"components [{x[2]}] of a further part's key are added")
                        elif key_like(x):
                            cx.bad("joined key", f"{f.qualname} further part", ev.where(), "the whole key of a further part is added")
            kinds = [type(t[1]).__name__ for t in seq]
            cx.check(all(k == ("str", "int")[i % 2] for i, k in enumerate(kinds)) and len(kinds) % 2 == 0,
                     "joined key", f"{f.qualname} missing part", f.loc(),
                     f"a missing part adds {[t[1] for t in seq]} instead of a shard name and a number")
            cx.ok("joined key", f.qualname, f.loc())
    if not n:
        cx.notes.append("no function building the key of a joined sample in a list was found")


def passed_on(p, cx):
    """Samples built from a sample keep its key."""
    cx.rule("passed on", "a sample built from another one gets that sample's key")
    n = 0
    for f in p.all_functions():
        if not any(isinstance(x, ast.Constant) and x.value == KEY or isinstance(x, ast.keyword) and x.arg == KEY
                   for x in walk_all(f.node)):
            continue
        if f.outer is not None or f.module.name.split(".")[-2] == "tools":
            continue
        for g, key in key_args(f):
            n += 1
            cx.fn(f)
            ok = isinstance(key, ast.Tuple) or isinstance(key, (ast.Name, ast.Call)) or \
                isinstance(key, ast.Attribute) and key.attr == KEY or \
                isinstance(key, ast.Subscript) and isinstance(key.slice, ast.Constant) and key.slice.value == KEY
            cx.check(ok, "passed on", f.qualname, f.loc(key), f"gets {ast.unparse(key)} as its key")
    cx.floor("sample constructions", n, 1)


def walk_all(node):
    return ast.walk(node)


def key_args(f):
    for x in ast.walk(f.node):
        if isinstance(x, ast.Dict):
            seen = None
            for i, (k, v) in enumerate(zip(x.keys, x.values)):
                if isinstance(k, ast.Constant) and k.value == KEY:
                    seen = v
                elif k is None and seen is not None:
                    # a later ** may replace the key
                    seen = v
            if seen is not None:
                yield x, seen
        elif isinstance(x, ast.Call):
            for k in x.keywords:
                if k.arg == KEY:
                    yield x, k.value


def same_key(w, l):
    if len(w) != len(l):
        return False
    for i, (a, b) in enumerate(zip(w, l)):
        if a == b or b == ("param", i) and a[0] != "inner":
            continue
        return False
    return True


def carried(t, keyed):
    if t[0] == "tuple":
        return any(x in keyed or carried(x, keyed) for x in t[1])
    return t[0] == "any" and all(x in keyed or carried(x, keyed) for x in alts(t))


def fits(a, r, i):
    if a in r:
        others = {x for x in r if x != a}
        # extra uses as plain numbers are harmless
        return all(x[0] in ("nth",) for x in others) or a[0] in ("sidx",) and all(x[0] in ("nth",) for x in others)
    if a == ("name",):
        return not r          # name unused: nothing to disagree about
    return False


# ---------------------------------------------------------------- C07
def producer(t, ip):
    """User function calls the value comes from: (fn attr, call term, [(index attr, number)] of iter_ctx around)"""
    out = []
    for x in alts(t):
        it = iter_ctx(x, ip)
        if it:
            for fn, call, ctxs in producer(it[1], ip) if it[1] else ():
                out.append((fn, call, ctxs + ((it[0], it[2]),)))
            continue
        if x[0] in ("sub", "elem", "val", "slice"):
            out += producer(x[1], ip)
            continue
        if x[0] == "tuple":
            for y in x[1]:
                out += producer(y, ip)
            continue
        if x[0] == "call":
            if x[1] == ("ext", "next") and x[2]:
                out += producer(x[2][0], ip)
                continue
            s = strip(x)
            if s != x:
                out += producer(s, ip)
                continue
            if x[1][0] == "attr" and x[1][1] == ("self",):
                out.append((x[1][2], x, ()))
    return out


def user_fn_attrs(c):
    """Attributes holding a function given to the constructor."""
    f = c.find_method("__init__")
    out = set()
    if f is None:
        return out
    for cc in c.mro():
        g = cc.methods.get("__init__")
        if g is None:
            continue
        ps = {a.arg: a.annotation for a in g.all_params()}
        for n in walk_own(g.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in ps:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        ann = ps[n.value.id]
                        if ann is not None and "Callable" in ast.unparse(ann):
                            out.add(t.attr)
    return out


def c07(p, cx):
    cx.rule("function", "restore_sample applies the functions of __iter__ to the restored inner samples")
    cx.rule("number", "restore_sample runs them under the sample number found in the key, for the same counter as __iter__")
    cx.rule("order", "several restored samples are given to the function in the order of their keys, none left out")
    cx.rule("guard", "restore_sample refuses when a function is not declared stateless")
    cx.rule("claim", "can_restore_sample and assert_can_restore require the same declarations and those of the inner datasets")
    cx.rule("worker", "the loader restores a sample as the worker and for the number found in the key, and always leaves that mode")
    n = 0
    for c, (fi, mi, ipi, oi), (fr, mr, ipr, orr) in models(p):
        ufn = user_fn_attrs(c)
        pos = Pos(param_of(fr))
        roles, tails, inner = reader(fr, mr, ipr, pos)
        W = set()
        for ev, st, keyed in mi.yields:
            for t in ev.value:
                W |= {(fn, tuple(a for a, _ in cs)) for fn, call, cs in producer(t, ipi) if fn in ufn}
        R = set()
        for st, v, node in orr.ret:
            for t in v:
                R |= {(fn, tuple(a for a, _ in cs)) for fn, call, cs in producer(t, ipr) if fn in ufn}
        wf, rf = {f for f, _ in W}, {f for f, _ in R}
        if not wf and not rf:
            continue
        n += 1
        cx.fn(fi)
        cx.fn(fr)
        cx.check(wf == rf, "function", c.name, fr.loc(),
                 f"__iter__ emits the results of {sorted(wf)}, restore_sample those of {sorted(rf)}")
        for fn in sorted(wf & rf):
            wctx, rctx = contexts(mi, ipi, fn), contexts(mr, ipr, fn)
            wa = {a for a, _, _ in wctx}
            ra = {a for a, _, _ in rctx}
            cx.check(None not in wa, "number", f"{c.name}.{fn} emitted", fi.loc(),
                     "called without a sample number")
            cx.check(ra == wa, "number", f"{c.name}.{fn} restored", fr.loc(),
                     f"runs under the number of {names(ra)}, in __iter__ under {names(wa)}")
            steps = advancing(mi, ipi, fn)
            for a, num, ev in rctx:
                if a is None:
                    continue
                ok = num is not None and all((step_ok(x, pos, ipr, ev) if steps else number_ok(x, pos, ipr))
                                             for x in alts(num))
                cx.check(ok, "number", f"{c.name}.{fn} number", ev.where(),
                         f"restored under number {fmt(num, ipr) if num is not None else 'of the running counter'}")
            for ev, st, ctx in mr.calls:
                if ev.func == ("attr", ("self",), fn):
                    cx.check(st.mon[3], "guard", f"{c.name}.{fn}", ev.where(),
                             "called although nothing asserted that it is stateless")
                    for v in ev.args:
                        for t in v:
                            cx.check(restored(t, st, pos, ipr), "function", f"{c.name}.{fn} input", ev.where(),
                                     f"applied to {fmt(t, ipr)[:100]} instead of the restored inner samples")
        for mm, ip in ((mi, ipi), (mr, ipr)):
            for ev, st, ctx in mm.calls:
                if ev.func and ev.func[0] == "attr" and ev.func[1] == ("self",) and ev.func[2] in wf | rf:
                    for v in ev.args:
                        for t in v:
                            why = disordered(t, st, ip)
                            if why is not False:
                                cx.check(why is None, "order", f"{c.name}.{ev.func[2]}", ev.where(), why)
        flags(p, cx, c)
        resumed(cx, c, fi, mi, ipi, wf)
    cx.floor("datasets applying user functions", n, 5)
    forwards(p, cx)
    loader_restore(p, cx)
    given_number(p, cx)


class Given(Monitor):
    """Is a fresh number taken only where none was given?"""

    def __init__(self):
        self.fresh, self.pushed = [], []

    def init(self):
        return False

    def event(self, ev, st, ip):
        if ev.kind == "call":
            if ev.name == "get_next":
                self.fresh.append((ev, st))
                return True
            if ev.name == "worker_push_sample_index":
                self.pushed.append((ev, st))
        return NotImplemented


def given_number(p, cx):
    c = p.cls("SampleIndex")
    f = c.find_method("ctx")
    if f is None:
        raise AnalysisBroken("SampleIndex.ctx not found")
    ps = [a.arg for a in f.all_params()][1:]
    if not ps:
        raise AnalysisBroken("SampleIndex.ctx takes no number")
    prm = ("param", ps[0])
    mon = Given()
    Interp(p, mon, no_inline={"get_next"}).run(f, c)
    cx.fn(f)
    cx.floor("numbers set by SampleIndex.ctx", len(mon.pushed), 1)
    for ev, st in mon.fresh:
        cx.check((prm, "none") in st.facts, "number", "SampleIndex.ctx fresh", ev.loc(),
                 "a fresh number is taken although one (possibly 0) was given")
    for ev, st in mon.pushed:
        if not st.mon:
            cx.check(bool(ev.args) and all(x == prm for t in ev.args[0] for x in alts(t)), "number", "SampleIndex.ctx given",
                     ev.loc(), "another number is set than the one given")


def resumed(cx, c, fi, mi, ip, fns):
    """Numbers under which the functions run while iterating."""
    for ev, st, ctx in mi.calls:
        if ev.func and ev.func[0] == "attr" and ev.func[1] == ("self",) and ev.func[2] in fns:
            fn = ev.func[2]
            again = bool(ev.args) and all(from_saved(t, st, ip) for v in ev.args for t in v)
            num = ctx[-1][1] if ctx else None
            if again:
                ok = num is not None and all(last_number(x, ctx[-1][0], ip) for x in alts(num))
                cx.check(ok, "number", f"{c.name}.{fn} resumed", ev.where(),
                         "a generator taken up from the state does not run under the number it was started with")
            elif ctx:
                cx.check(num is None or all(ctx_attr(x, ip) for x in alts(num)), "number", f"{c.name}.{fn} fresh", ev.where(),
                         f"a new sample is processed under number {fmt(num, ip) if num else ''}")
    for ev, st, ctx in mi.calls:
        r = ev.recv
        if ev.name != "iter_ctx" or r is None or not self_attr(r) or not ev.args:
            continue
        num = ev.arg(1, "sample_idx")
        for t in ev.args[0]:
            for x in alts(t):
                x = strip(x)
                if not (x[0] == "call" and x[1][0] == "attr" and x[1][1] == ("self",) and x[1][2] in fns):
                    continue
                started = [cc for e2, s2, cc in mi.calls if e2.result and x in e2.result and cc]
                if not started:
                    continue      # the whole iteration is one generator
                ok = num is not None and all((ctx_attr(y, ip) or (None,))[0] == self_attr(r) for z in num for y in alts(z))
                cx.check(ok, "number", f"{c.name}.{x[1][2]} generator", ev.where(),
                         "the generator is continued under another number than it was started with")


def from_saved(t, st, ip, d=0):
    """Input rebuilt from keys kept in the state."""
    if d > 6:
        return False
    t = strip(t)
    if t[0] == "any":
        return all(from_saved(x, st, ip, d + 1) for x in t[1])
    if t[0] == "obj" and t in st.heap:
        items = st.heap[t][1]
        return bool(items) and all(from_saved(x, st, ip, d + 1) for k, v in items for x in v)
    m = meth(t, ip)
    return bool(m and m[1] == "restore_sample")


def disordered(t, st, ip, d=0):
    """What is wrong with the order of a list of restored samples? None if nothing, False if it is not one"""
    if d > 6:
        return False
    t = strip(t)
    if t[0] == "any":
        rs = [disordered(x, st, ip, d + 1) for x in t[1]]
        rs = [r for r in rs if r is not False]
        return next((r for r in rs if r), None) if rs else False
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("reversed", "sorted", "set", "filter", "frozenset") and t[2]:
        inner = [disordered(x, st, ip, d + 1) for a in t[2] for x in (a if isinstance(a, frozenset) else alts(a))]
        return f"the restored samples are passed through {t[1][1]}" if any(r is not False for r in inner) else False
    if t[0] == "obj" and t in st.heap:
        sh, items = st.heap[t]
        calls = [x for k, v in items for x in v for m in [meth(x, ip)] if m and m[1] == "restore_sample"]
        if not calls:
            return False
        if isinstance(sh, tuple) and sh[0] == "filter":
            return "some of the keys are left out"
        srcs = [z for y in (sh[1:] if isinstance(sh, tuple) else ()) if isinstance(y, tuple) for z in alts(y)]
        for x in calls:
            for a in x[2]:
                for z in srcs + [y[1] for y in alts(a) if y[0] == "elem"]:
                    while z[0] == "call" and z[1] in (("ext", "list"), ("ext", "tuple"), ("ext", "iter")) and z[2]:
                        z = z[2][0]
                    if z[0] == "call" and z[1][0] == "ext" and z[1][1] in ("reversed", "sorted", "set", "frozenset", "filter"):
                        return f"the keys are passed through {z[1][1]}"
                    if z[0] == "slice" and (z[2].count(":") == 2 or self_attr(strip(z[1])) or strip(z[1])[0] == "sub"):
                        return "only some of the keys are used"
        return None
    return False


def last_number(t, attr, ip):
    c = ctx_attr(t, ip)
    if c and c[1] is not None:
        return all(last_number(x, attr, ip) for x in alts(c[1]))
    if t[0] == "binop":
        return t[1] == "Sub" and t[3] == ("const", 1) and any(is_attr(x, ("self",), attr) for x in subterms(t[2])) or \
            t[1] == "Add" and t[3] == ("const", -1)
    # a number kept in the state
    return not any(is_attr(x, ("self",), attr) for x in subterms(t))


def names(s):
    return sorted(str(x) for x in s) or "nothing"


def contexts(mon, ip, fn):
    """{(index attr, number term, event)} under which self.fn (or its generator) runs"""
    out = set()
    gens = set()
    for ev, st, ctx in mon.calls:
        if ev.func == ("attr", ("self",), fn):
            gens.add(next(iter(ev.result)))
            if ctx:
                out.add((ctx[-1][0], ctx[-1][1], ev))
    for ev, st, ctx in mon.calls:
        r = ev.recv
        if ev.name == "iter_ctx" and r is not None and self_attr(r) and ev.args:
            if any(y in gens for t in ev.args[0] for x in alts(t) for y in [strip(x)]):
                a = list(ev.args) + list((ev.kwargs or {}).values())
                num = None
                if len(a) > 1:
                    num = next(iter(a[1])) if len(a[1]) == 1 else ("any", tuple(a[1]))
                out.add((self_attr(r), num, ev))
        if ev.func == ("ext", "next") and ev.args and ctx:
            if any(strip(x) in gens for t in ev.args[0] for x in alts(t)):
                out.add((ctx[-1][0], ctx[-1][1], ev))
    if not out:
        return {(None, None, None)} if gens else set()
    return out


def number_ok(t, pos, ip):
    """The sample number of the key."""
    q = pos.of(t)
    if q and q[0] == "at":
        return True
    c = ctx_attr(t, ip)
    return bool(c and c[1] is not None) and all(number_ok(x, pos, ip) for x in alts(c[1]))


def advancing(mon, ip, fn):
    """Does each step of the function's generator take a number of its own?"""
    gens = {y for ev, st, ctx in mon.calls if ev.func == ("attr", ("self",), fn) for y in ev.result or ()}
    for ev, st, ctx in mon.calls:
        if ev.name == "iter_ctx" and ev.recv is not None and self_attr(ev.recv) and ev.args and \
                any(strip(x) in gens for t in ev.args[0] for x in alts(t)):
            num = ev.arg(1, "sample_idx")
            if num is None or num == frozenset({("const", None)}):
                return True
    return False


def linear(t, pos, ip, sign=1, out=None):
    """{leaf: coefficient} of sums and differences"""
    out = {} if out is None else out
    c = ctx_attr(t, ip)
    if c and c[1] is not None and len(list(alts(c[1]))) == 1:
        return linear(next(iter(alts(c[1]))), pos, ip, sign, out)
    if t[0] == "binop" and t[1] in ("Add", "Sub"):
        linear(t[2], pos, ip, sign, out)
        linear(t[3], pos, ip, sign if t[1] == "Add" else -sign, out)
        return out
    if t[0] == "const" and isinstance(t[1], int):
        out["1"] = out.get("1", 0) + sign * t[1]
        return out
    q = pos.of(t)
    k = ("key", q[1]) if q and q[0] == "at" else t
    out[k] = out.get(k, 0) + sign
    return out


def step_ok(t, pos, ip, ev):
    """Step k of the generator runs under (number of the restored sample) - (its position) + k."""
    lin = {k: v for k, v in linear(t, pos, ip).items() if v}
    keys = {k: v for k, v in lin.items() if isinstance(k, tuple) and k[0] == "key"}
    rest = {k: v for k, v in lin.items() if k not in keys}
    loop = in_loop(ev)
    if not rest:
        if len(keys) == 1 and list(keys.values()) == [1]:
            return not loop
        return False
    if sorted(keys.values()) not in ([-1, 1], [1]):
        return False
    var = [k for k in rest if k != "1"]
    if not var:
        return False
    if len(var) > 1:
        return True
    v = var[0]
    if v[0] in ("elem", "index") and v[1][0] == "call" and v[1][1] == ("ext", "range"):
        r = v[1][2]
        lo = ("const", 0) if len(r) == 1 else r[0]
        if len(r) > 2:
            return True
        want = {("key", k[1]): c for k, c in keys.items()}
        base = linear(lo, pos, ip)
        # value at the first step must be S - I
        tot = dict(want)
        tot["1"] = rest.get("1", 0)
        for k, c in base.items():
            tot[k] = tot.get(k, 0) + c
        tot = {k: c for k, c in tot.items() if c}
        return rest[v] == 1 and sorted(tot.values()) == [-1, 1] and all(k != "1" for k in tot)
    return True


def in_loop(ev):
    n = ev.node if ev is not None else None
    return n is not None and any(isinstance(x, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp)) and
                                 x is not n and any(y is n for y in ast.walk(x)) for x in ast.walk(ev.fn.node))


def arith(t):
    if t[0] == "binop":
        yield from arith(t[2])
        yield from arith(t[3])
    else:
        yield t


def restored(t, st, pos, ip, d=0):
    """Inner samples restored from the remaining key, in key order."""
    if d > 6:
        return False
    t = strip(t)
    if t[0] == "any":
        return all(restored(x, st, pos, ip, d + 1) for x in t[1])
    if t[0] == "obj" and t in st.heap:
        items = st.heap[t][1]
        return bool(items) and all(restored(x, st, pos, ip, d + 1) for k, v in items for x in v)
    if t[0] == "gen":
        return True
    m = meth(t, ip)
    if m and m[1] in ("restore_sample", "restore_samples", "_restore_sample"):
        return True
    if t[0] == "sub" and t[1][0] == "call":
        return restored(t[1], st, pos, ip, d + 1)
    return False


def flags(p, cx, c):
    """Truth flags asserted / returned."""
    can, must = c.find_method("can_restore_sample"), c.find_method("assert_can_restore")
    a = truth_parts(p, c, can, False)
    b = truth_parts(p, c, must, True)
    cx.fn(can)
    cx.fn(must)
    cx.check(bool(a[0]), "claim", f"{c.name}.can_restore_sample", can.loc(),
             "claims to restore samples without requiring a stateless function")
    cx.check(a[0] == b[0], "claim", f"{c.name} flags", must.loc(),
             f"assert_can_restore requires {sorted(b[0])}, can_restore_sample {sorted(a[0])}")


def truth_parts(p, c, f, asserted):
    """({self attributes that must be true}, {attributes of inner datasets asked})"""
    attrs, inner = set(), set()
    col = Collector({"call", "branch", "load_attr"})
    ip = Interp(p, col)
    o = ip.run(f, c)
    terms = []
    for ev, st in col.out:
        if ev.kind == "branch":
            terms += list(ev.cond)
        elif ev.kind == "call" and ev.name in ("can_restore_sample", "assert_can_restore") and ev.recv is not None:
            inner |= {x[2] for x in subterms(ev.recv) if is_attr(x, ("self",))}
    for st, v, node in o.ret:
        terms += list(v)
        for t, pol in st.facts:
            terms.append(t)
    ds = dataset_attrs(p, c)
    for t in terms:
        for x in subterms(t):
            if is_attr(x, ("self",)) and x[2] not in ds and x[2] != "worker_config":
                attrs.add(x[2])
    return attrs, inner & ds


def dataset_attrs(p, c):
    """Attributes holding (lists of) inner datasets"""
    base = p.cls("SavableDataset")
    out = set()
    for cc in c.mro():
        for a in list(cc.annots):
            ty = p.attr_type(c, a)
            while ty and ty[0] in ("list", "dict", "tuple"):
                if ty[0] == "tuple":
                    ty = next((x for x in ty[1] if x and x[0] == "cls"), None) if isinstance(ty[1], tuple) else ty[1]
                    if ty and ty[0] == "list":
                        continue
                else:
                    ty = ty[1]
            if ty and ty[0] == "cls" and ty[1].issubclass(base):
                out.add(a)
    return out


def forwards(p, cx):
    """Every wrapper asks its inner datasets."""
    base = p.cls("SavableDataset")
    n = 0
    for c in p.subclasses(base):
        ds = dataset_attrs(p, c)
        it = c.find_method("__iter__")
        if not ds or it is None or it.is_abstract:
            continue
        for name in ("can_restore_sample", "assert_can_restore"):
            f = c.find_method(name)
            if f is None or f.cls is base:
                continue
            n += 1
            cx.fn(f)
            attrs, inner = truth_parts(p, c, f, False)
            cx.check(bool(inner), "claim", f"{c.name}.{name} inner", f.loc(),
                     "does not ask the inner dataset whether its samples can be restored")
    cx.floor("wrappers claiming to restore samples", n, 15)


def loader_restore(p, cx):
    """Classes whose restore_sample activates the worker named in the key."""
    n = 0
    for c in restorers(p):
        f = c.find_method("restore_sample")
        mon = ActMonitor()
        ip = Interp(p, mon)
        o = ip.run(f, c)
        if not mon.acts:
            continue
        n += 1
        cx.fn(f)
        for ev in mon.outside:
            cx.bad("worker", f"{c.name} restore outside", ev.where(), "restores the inner sample before the worker of the key is active")
        for st, v, node in o.ret:
            cx.check(st.mon == 0, "worker", f"{c.name} leaves on return", f.loc(), "the worker stays active after restoring a sample")
        for st, tag, ev in o.exc:
            if isinstance(tag, str) and st.mon:
                cx.bad("worker", f"{c.name} leaves on error", f.loc(), "the worker stays active when restoring the inner sample fails")
        cx.ok("worker", c.name, f.loc())
    cx.floor("loader wrappers restoring samples", n, 2)


class ActMonitor(Monitor):
    def __init__(self):
        self.acts = 0
        self.outside = []

    def init(self):
        return 0

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.name == "worker_activate":
            self.acts += 1
            return st.mon + 1
        if ev.kind == "call" and ev.name == "worker_deactivate":
            return max(st.mon - 1, 0)
        if ev.kind == "call" and ev.name == "restore_sample" and ev.tag != "inlined" and not st.mon:
            self.outside.append(ev)
        return NotImplemented

    def raises(self, ev, st, ip):
        if ev.kind == "call" and ev.name == "restore_sample" and ev.tag != "inlined":
            return ("Exception?",)
        return ()
