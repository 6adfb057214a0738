"""C24: a pipeline claims to restore samples only where each user function was declared repeatable."""
import ast

from ..flow import Interp, Monitor, Out
from ..model import AnalysisBroken
from . import keys, order

SELF = ("self",)
MARK = "__stateless__"
ASK = {"can_restore_sample", "assert_can_restore"}


def is_self(t, a=None):
    return t[0] == "attr" and t[1] == SELF and (a is None or t[2] == a)


class Known(Monitor):
    """mon = what is known to be true here:
       ("flag", attr), ("asked", attribute holding one inner dataset), ("all", attribute holding several),
       ("got", attr, node) / ("bad", attr, node): this round of the loop has (not) asked its dataset"""

    def __init__(self, ask=ASK):
        self.ask = ask
        self.ip = None

    def init(self):
        return frozenset()

    def asked(self, t, ip):
        """(attribute, is it an element of it?) of the inner dataset asked by the call"""
        if t[0] != "call" or t[1][0] not in ("bm", "attr"):
            return None
        f = t[1]
        name = f[2] if f[0] == "attr" else getattr(ip.func_of(f), "name", None)
        if name not in self.ask:
            return None
        return self.holder(f[1])

    @staticmethod
    def holder(r):
        one = True
        while r[0] in ("sub", "elem", "val", "index"):
            one = False
            r = r[1]
        return (r[2], one) if is_self(r) else None

    def true(self, t, st, ip):
        """What follows from the term being true"""
        t = keys.strip(t)
        if t[0] == "call" and t[1] == ("ext", "bool") and len(t[2]) == 1:
            return self.true(t[2][0], st, ip)
        if t[0] == "cmp" and t[1] in ("Is", "Eq") and ("const", True) in t[2:]:
            return self.true(t[3] if t[2] == ("const", True) else t[2], st, ip)
        if is_self(t):
            return {("flag", t[2])}
        if t[0] == "any":
            out = [self.true(x, st, ip) for x in t[1]]
            return set.intersection(*out) if out else set()
        a = self.asked(t, ip)
        if a is not None:
            return {("asked" if a[1] else "got", a[0])}
        if t[0] == "call" and t[1] == ("ext", "all") and len(t[2]) == 1:
            seq = t[2][0]
            if seq[0] == "obj" and seq in st.heap:
                return self.all_of(st.heap[seq], st, ip)
            if seq[0] == "tuple":
                return set().union(*[self.true(x, st, ip) for x in seq[1]])
        if t[0] == "not":
            return self.false(t[1], st, ip)
        return set()

    def false(self, t, st, ip):
        """What follows from the term being false"""
        t = keys.strip(t)
        if t[0] == "not":
            return self.true(t[1], st, ip)
        if t[0] == "call" and t[1] == ("ext", "any") and len(t[2]) == 1 and t[2][0] in st.heap:
            return self.all_of(st.heap[t[2][0]], st, ip, self.false)
        return set()

    def all_of(self, obj, st, ip, rel=None):
        shape, items = obj
        if shape in ("lit", "built") and all(isinstance(k, int) for k, _ in items):
            return set().union(*[self.one_of(vs, st, ip, rel) for _, vs in items]) if items else set()
        if not (isinstance(shape, tuple) and shape[0] == "map" and len(shape) == 2):
            return set()
        src = shape[1]
        while src in st.heap:
            sh = st.heap[src][0]
            if not (isinstance(sh, tuple) and sh[0] == "map" and len(sh) == 2):
                return set()
            src = sh[1]
        hs = self.sources(src)
        out = set()
        for k, vs in items:
            for fact in self.one_of(vs, st, ip, rel):
                if fact[0] == "got" and fact[1] in hs:
                    out.add(("all", fact[1]))
        return out

    def one_of(self, vs, st, ip, rel=None):
        out = [(rel or self.true)(x, st, ip) for x in vs]
        return set.intersection(*out) if out else set()

    def event(self, ev, st, ip):
        self.ip = ip
        m = st.mon
        if ev.kind == "branch":
            cond = ev.cond or ()
            if ev.taken:
                return m | self.one_of(cond, st, ip) if cond else m
            return (m | self.one_of(cond, st, ip, self.false)) | ({("no", next(iter(cond)))} if len(cond) == 1 else set())
        if ev.kind == "assert":
            return m
        if ev.kind == "call" and ev.name == "assert_can_restore" and ev.tag != "inlined" and ev.name in self.ask and ev.recv is not None:
            h = self.holder(ev.recv)
            return m | {("asked" if h[1] else "got", h[0])} if h else m
        if ev.kind == "next":
            return frozenset(x for x in m if x[0] != "got")
        if ev.kind == "loop_back":
            for a in self.iterated(ev):
                if ("got", a) not in m:
                    m = m | {("missed", a)}
            return m
        if ev.kind == "exhausted":
            loop = isinstance(ev.node, (ast.For, ast.AsyncFor))
            for a in self.iterated(ev):
                if ("missed", a) not in m if loop else ("got", a) in m:
                    m = m | {("all", a)}
            return m
        return NotImplemented

    def iterated(self, ev):
        vs = ev.value if ev.value is not None else ev.base if ev.base is not None else ()
        return set().union(*[self.sources(t) for t in vs])

    def sources(self, t):
        """Attributes whose elements are all visited by iterating over the value"""
        h = self.holder(t)
        if h is not None:
            return {h[0]}
        if t[0] == "call" and t[1][0] == "ext":
            f, a = t[1][1], t[2]
            if f in ("enumerate", "list", "tuple", "reversed", "iter", "sorted") and a:
                return self.sources(a[0])
            if f == "range" and len(a) == 1 and a[0][0] == "call" and a[0][1] == ("ext", "len") and a[0][2]:
                return self.sources(a[0][2][0])
        return set()


class Truth(Interp):
    """Follows what a claim being true depends on"""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.bool_branches = True

    def s_Return(self, n, st):
        if n.value is None or len(self.stack) > 1 and self.fn.name not in ASK:
            return super().s_Return(n, st)
        out = Out()
        T, F = self.cond(n.value, st)
        for ss, val in ((T, True), (F, False)):
            for s in ss:
                out.ret.append((s, frozenset({("const", val)}), n))
        return out


def containers(p, c):
    """Attributes with inner datasets: {attr: many?}, without those built by the class itself"""
    base, sample_buffer = p.cls("SavableDataset"), p.cls("SavableSampleBuffer")
    out = {}
    for a in keys.dataset_attrs(p, c):
        t = p.attr_type(c, a)
        if t[0] == "cls" and t[1].issubclass(sample_buffer):
            continue
        out[a] = t[0] != "cls"
    return out


class Calls(Monitor):
    def __init__(self, attrs):
        self.attrs = attrs
        self.hits = set()

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.func is not None and is_self(ev.func) and ev.func[2] in self.attrs:
            self.hits.add(ev.func[2])
        return NotImplemented


def flag_params(c):
    f = c.find_method("__init__")
    if f is None:
        return f, []
    return f, [a.arg for a in f.all_params() if "stateless" in a.arg]


class Stores(Monitor):
    def __init__(self):
        self.out = {}

    def event(self, ev, st, ip):
        if ev.kind == "store_attr" and ev.base == frozenset({SELF}):
            self.out.setdefault(ev.attr, []).append((ev.value, ev))
        return NotImplemented


def stored(p, c, f):
    m = Stores()
    Interp(p, m).run(f, c)
    return m.out


def check(p, cx):
    cx.rule("claim", "can_restore_sample is true only if the declarations of all functions applied again by restore_sample "
                     "hold and all inner datasets can restore")
    cx.rule("assert", "assert_can_restore returns only under the same conditions")
    cx.rule("guard", "restore_sample applies a user function only after its declaration was asserted")
    cx.rule("declared", "the declaration kept by a wrapper is the one given to its constructor, and absent unless given")
    cx.rule("wired", "whoever builds a wrapper around a user's function passes the declaration made on that very function")
    cx.rule("mark", "only stateless() declares functions, and it declares exactly what it returns")
    base = p.cls("SavableDataset")
    n = nfn = 0
    flagged = {}
    for c in p.subclasses(base) + [x for x in p.classes() if not x.issubclass(base) and x.find_method("restore_sample")
                                   and x.find_method("can_restore_sample")]:
        can, must, rest = (c.find_method(x) for x in ("can_restore_sample", "assert_can_restore", "restore_sample"))
        if can is None or rest is None or rest.cls is base:
            continue
        user = keys.user_fn_attrs(c)
        m = Calls(user)
        Interp(p, m).run(rest, c)
        again = m.hits
        need = {}
        init, ps = flag_params(c)
        if again:
            nfn += 1
            st = stored(p, c, init)
            attrs = {a for a, vs in st.items() if all(v == frozenset({("param", q)}) for v, _ in vs for q in ps if ("param", q) in v)
                     and all(any(v == frozenset({("param", q)}) for q in ps) for v, _ in vs)}
            for q in ps:
                d = default_of(init, q)
                cx.check(isinstance(d, ast.Constant) and d.value is False, "declared", f"{c.name} default of {q}", init.loc(),
                         "the wrapper treats functions as repeatable unless told otherwise")
            cx.check(len(attrs) >= len(again), "declared", f"{c.name} declarations", init.loc(),
                     f"{sorted(again)} are applied again by restore_sample, but only the declarations {sorted(attrs)} are kept as given")
            for a in attrs:
                others = other_stores(p, c, a, init)
                cx.check(not others, "declared", f"{c.name}.{a} unchanged", others[0] if others else init.loc(),
                         "the declaration is changed after construction")
            need = {("flag", a): f"the function {'/'.join(sorted(again))} was declared repeatable ({a})" for a in attrs}
            if ps:
                flagged[c] = (init, ps, again, {a: next(q for v, _ in st[a] for q in ps if ("param", q) in v) for a in attrs})
        ds = containers(p, c)
        if not ds and not c.issubclass(base):
            ds = {a: False for a in ("dataset",) if p.attr_type(c, a)}
        for a, many in ds.items():
            need[("all" if many else "asked", a)] = f"the inner dataset{'s' if many else ''} ({a}) can restore"
        if not need:
            if again:
                cx.bad("claim", c.name, can.loc(), "claims samples can be restored without knowing whether its function is repeatable")
            continue
        n += 1
        for rule, f, ask in (("claim", can, {"can_restore_sample"}), ("assert", must, ASK)):
            if f is None:
                continue
            cx.fn(f)
            mon = Known(ask)
            ip = (Truth if rule == "claim" else Interp)(p, mon)
            ip.bool_branches = True
            o = ip.run(f, c)
            ends = []
            if rule == "claim":
                for s, v, node in o.ret:
                    for t in v:
                        if t[0] == "const" and not t[1] or ("no", t) in s.mon:
                            continue
                        ends.append((s.mon | mon.true(t, s, ip), node))
            else:
                ends = [(s.mon, node) for s, _, node in o.ret] + [(s.mon, f.node) for s in o.normal or ()]
            for k, what in sorted(need.items()):
                miss = [node for know, node in ends if k not in know and not (k[0] == "asked" and ("all", k[1]) in know)]
                cx.check(not miss, rule, f"{c.name}.{f.name} {k[1]}", f.loc(miss[0]) if miss and miss[0] is not None else f.loc(),
                         f"{'returns true' if rule == 'claim' else 'returns'} without requiring that {what}")
        if again:
            mon = Guard(again)
            ip = Interp(p, mon)
            ip.bool_branches = True
            ip.run(rest, c)
            cx.fn(rest)
            for k, what in sorted(need.items()):
                if k[0] != "flag":
                    continue
                miss = [ev for ev, know in mon.calls if k not in know]
                cx.check(not miss, "guard", f"{c.name}.restore_sample {k[1]}", miss[0].where() if miss else rest.loc(),
                         f"applies the function without asserting that {what}")
    cx.floor("datasets claiming to restore samples", n, 15)
    cx.floor("of these applying user functions", nfn, 5)
    wired(p, cx, flagged)
    mark(p, cx)


class Guard(Known):
    def __init__(self, fns):
        super().__init__()
        self.fns = fns
        self.calls = []

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.func is not None and is_self(ev.func) and ev.func[2] in self.fns:
            self.calls.append((ev, st.mon))
        return super().event(ev, st, ip)


def default_of(fi, name):
    a = fi.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == name:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


def other_stores(p, c, attr, init):
    """Assignments to the attribute in other methods of the class or elsewhere"""
    out = []
    for f in p.all_functions():
        if f is init or (f.cls is not None and f.name == "__init__" and not f.cls.issubclass(c)):
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.append(f.loc(x))
    return out


# ---------------------------------------------------------------------------------------------------------------
class Built(Monitor):
    def __init__(self, classes):
        self.classes = classes
        self.sites = []

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.func is not None and ev.func[0] == "cls" and ev.func[1] in self.classes:
            self.sites.append((ev, st, ip))
        return NotImplemented


def wired(p, cx, flagged):
    """The declaration passed to a wrapper belongs to the function passed."""
    encoder = p.cls("TaskEncoder")
    by = {c.qualname: c for c in flagged}
    names = {c.name for c in flagged}
    n = 0
    own, nodes = {}, []
    top = [f for f in p.all_functions() if f.outer is None]
    for fi in top:
        xs = [x for x in ast.walk(fi.node) if isinstance(x, ast.Call) and
              (isinstance(x.func, ast.Name) and (x.func.id in names or getattr(fi.module.resolve_name(x.func.id), "qualname", None) in by)
               or isinstance(x.func, ast.Attribute) and x.func.attr in names)]
        if xs:
            own[fi] = xs
            nodes += [(fi, x) for x in xs]
    helpers = {f.name for f in own}
    roots = list(own) + [f for f in top if f not in own and any(
        isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr in helpers or
                                     isinstance(x.func, ast.Name) and x.func.id in helpers) for x in ast.walk(f.node))]
    sites = {}
    for fi in roots:
        m = Built(by)
        Interp(p, m).run(fi, fi.cls)
        for ev, st, ip in m.sites:
            sites.setdefault(id(ev.node), []).append((fi, ev, ip))
    for fi, x in nodes:
        evs = sites.get(id(x), [])
        if not evs:
            cx.notes.append(f"construction not reached: {fi.loc(x)}")
            continue
        cx.fn(fi)
        called = [y for y in evs if y[0] is not fi]
        for root, ev, ip in evs:
            c = by[ev.func[1]]
            init, ps, again, attr_of = flagged[c]
            bound = bind(init, ev)
            where = ev.where()
            if bound is None:
                cx.bad("wired", f"{fi.qualname} builds {c.name}", where, "arguments that cannot be told apart")
                continue
            if called and root is fi and any(t[0] == "param" for q in ps for t in bound.get(q, ())):
                continue      # decided where the helper is called
            n += 1
            fns = set()
            for a in again:
                for q in param_stored(p, c, init, a):
                    fns |= set(bound.get(q, ()))
            for q in ps:
                for t in bound.get(q, ()):
                    why = declares(t, fns, fi, ip, encoder)
                    cx.check(why is None, "wired", f"{fi.qualname} builds {c.name} with {label(fns, ip)}", where, why or "")
                if q not in bound:
                    cx.ok("wired", f"{fi.qualname} builds {c.name} with {label(fns, ip)}", where)
    cx.floor("wrappers built around user functions", n, 6)


def label(fns, ip):
    out = []
    for t in sorted(fns, key=str):
        f = ip.func_of(t) if t[0] in ("bm", "func") else None
        out.append(f.name if f is not None else t[2] if t[0] == "attr" and isinstance(t[2], str) else t[0])
    return "/".join(out) or "nothing"


def param_stored(p, c, init, attr):
    """Constructor parameters kept in the attribute"""
    return {t[1] for v, _ in stored(p, c, init).get(attr, ()) for t in v if t[0] == "param"}


def bind(init, ev):
    if ev.argsplat:
        return None
    a = init.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][1:]
    if len(ev.args or ()) > len(pos):
        return None
    out = dict(zip(pos, ev.args or ()))
    out.update(ev.kwargs or {})
    return out


def declares(t, fns, fi, ip, encoder):
    """None if the value is true only where the function was declared repeatable, or what is wrong"""
    t = keys.strip(t)
    if t == ("const", False):
        return None
    if t[0] == "any":
        return next((w for x in t[1] for w in [declares(x, fns, fi, ip, encoder)] if w), None)
    if t[0] == "call" and t[1] == ("ext", "bool") and len(t[2]) == 1:
        return declares(t[2][0], fns, fi, ip, encoder)
    if t == ("const", True):
        cls = fi.cls
        if cls is not None and not cls.issubclass(encoder) and fns and all(internal(x, cls, ip) for x in fns):
            return None
        return "declares the function to be repeatable without asking it"
    src = asks(t)
    if src is None:
        return "the declaration passed is not read from the function"
    if src[1] != ("const", False):
        return "functions without a declaration count as repeatable"
    if len(fns) == 1 and src[0] in fns:
        return None
    f = ip.func_of(src[0]) if src[0][0] in ("bm", "func") else None
    return f"passes the declaration of {f.name if f is not None else 'something else'} for the function {label(fns, ip)}"


def asks(t):
    """(function, default) of getattr(function, "__stateless__", default)"""
    if t[0] == "call" and t[1] == ("ext", "getattr") and len(t[2]) == 3 and t[2][1] == ("const", MARK):
        return t[2][0], t[2][2]
    if t[0] == "attr" and t[2] == MARK:
        return t[1], ("const", False)
    return None


def internal(t, cls, ip):
    """A function of the class itself (no function of the task encoder)"""
    if t[0] == "bm" and t[1] == SELF or is_self(t):
        return True
    return False


# ---------------------------------------------------------------------------------------------------------------
class Marks(Monitor):
    """mon = functions declared repeatable"""

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.func == ("ext", "setattr") and len(ev.args) == 3 and ev.args[1] == frozenset({("const", MARK)}):
            return st.mon | {(ev.args[0], ev.args[2])}
        if ev.kind == "store_attr" and ev.attr == MARK:
            return st.mon | {(ev.base, ev.value)}
        return NotImplemented


def mark(p, cx):
    dec = [f for f in p.all_functions() if f.name == "stateless" and f.cls is None and f.outer is None]
    if len(dec) != 1:
        raise AnalysisBroken("stateless() not found")
    f = dec[0]
    cx.fn(f)
    for g in p.all_functions():
        out = outermost(g)
        for x in ast.walk(g.node):
            at = None
            if isinstance(x, ast.Attribute) and x.attr == MARK and isinstance(x.ctx, ast.Store):
                at = x
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 \
                    and isinstance(x.args[1], ast.Constant) and x.args[1].value == MARK:
                at = x
            if at is not None and g.outer is None:
                cx.check(reaches(p, f, g), "mark", f"declared in {out.qualname}", g.loc(at), "declares a function although the user did not")
    ps = [a.arg for a in f.all_params()]
    m = Marks()
    ip = Interp(p, m)
    o = ip.run(f)
    n = 0
    for st, v, node in o.ret:
        if any(t == ("param", ps[0]) and w == "none" for t, w in st.facts):
            # used with options: C11 decides what happens to these
            continue
        n += len(v)
        what = "/".join(sorted(kind(t, ip) for t in v))
        got = {x for x, val in st.mon if val == frozenset({("const", True)})}
        cx.check(v in got, "mark", f"returned {what}", f.loc(node), "the function returned does not carry the declaration")
        cx.check(got <= {v}, "mark", f"only returned {what}", f.loc(node), "a function other than the one returned is declared repeatable")
        cx.check(len(got) == len(st.mon), "mark", f"value {what}", f.loc(node), "the declaration is not True")
    cx.floor("functions returned by stateless()", n, 2)


def kind(t, ip):
    g = ip.func_of(t)
    return g.name if g is not None else "function given" if t[0] == "param" else t[0]


def outermost(f):
    while f.outer is not None:
        f = f.outer
    return f


def reaches(p, f, g):
    """Is g stateless() or a helper called by nobody else?"""
    if g is f:
        return True
    users = {outermost(h) for h in p.all_functions() for x in ast.walk(h.node)
             if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == g.name and h.module is g.module}
    return g.cls is None and users <= {f, g} and bool(users)
