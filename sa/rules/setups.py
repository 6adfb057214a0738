"""C28: datasets of different worker setups cannot be combined."""
import ast

from ..flow import Interp, Monitor, V, subterms
from ..model import AnalysisBroken, ClassInfo
from .keys import alts

SELF = ("self",)
FIELDS = ("rank", "world_size", "num_workers")
WC = "worker_config"


def dataset_params(p, f):
    """Constructor parameters holding datasets"""
    base = p.cls("SavableDataset", must=True)
    out = []
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []):
        if x.annotation is None:
            continue
        names = [n for n in ast.walk(x.annotation) if isinstance(n, (ast.Name, ast.Attribute))]
        for n in ast.walk(x.annotation):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                try:
                    names += [m for m in ast.walk(ast.parse(n.value, mode="eval")) if isinstance(m, (ast.Name, ast.Attribute))]
                except SyntaxError:
                    pass
        called = any(isinstance(n, ast.Name) and n.id in ("Callable", "Type") for n in names)
        for n in names:
            r = f.module.resolve_expr(n)
            if isinstance(r, ClassInfo) and r.issubclass(base) and not called:
                out.append("*" + x.arg if a.vararg is x else x.arg)
                break
    return out


class Checked(Monitor):
    """mon = (what is known to have the setup of the wrapper: terms of datasets and of collections of them,
    loops under way: (node id, iterable, all elements so far, this one), attributes stored so far)"""

    def __init__(self, p, own):
        self.p = p
        self.own = own            # terms denoting the wrapper's setup
        self.base = p.cls("SavableDataset", must=True)
        self.made = []
        self.setup = []

    def init(self):
        return (frozenset(), (), ())

    def inline(self, fi, recv, ip, stack):
        if fi.name in ("should_log", "worker_log", "__len__") or fi.cls is not None and fi.cls.name == "WorkerConfig":
            return False
        return NotImplemented

    def same(self, t):
        return t in self.own or t == ("attr", SELF, WC)

    def datasets(self, t, taken, st):
        """Datasets whose setup is that of the wrapper if the condition is true / false"""
        if t[0] == "not":
            return self.datasets(t[1], not taken, st)
        if t[0] == "call" and t[1] == ("ext", "all") and len(t[2]) == 1 and taken:
            out = set()
            for es, its in self.generated(t[2][0], st):
                out |= {("all", i) for e in es for d in self.datasets(e, True, st) for i in its}
            return out
        if t[0] == "call" and t[1] == ("ext", "any") and len(t[2]) == 1 and not taken:
            out = set()
            for es, its in self.generated(t[2][0], st):
                out |= {("all", i) for e in es for d in self.datasets(e, False, st) for i in its}
            return out
        if t[0] == "cmp" and (t[1] in ("Eq",) and taken or t[1] in ("NotEq",) and not taken):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if self.same(a) and b[0] == "attr" and b[2] == WC and b[1] != SELF:
                    return {b[1]}
        return set()

    @staticmethod
    def generated(t, st):
        """(element terms, iterables) of a comprehension"""
        h = st.heap.get(t)
        if h is not None and isinstance(h[0], tuple) and h[0][0] == "map":
            return [({x for _, vs in h[1] for x in vs}, set(h[0][1:]))]
        return []

    def loaded(self, t, st, ip):
        if t[0] == "attr" and t[1] == SELF:
            return dict(st.mon[2]).get(t[2], t)
        return t

    def event(self, ev, st, ip):
        known, loops, own = st.mon
        k = ev.kind
        if k in ("branch", "assert"):
            new = set()
            for t in ev.cond or ():
                new |= self.datasets(t, ev.taken if k == "branch" else True, st)
            if new:
                loops = tuple((n, it, ok, here or any(self.element(d, it, st) for d in new)) for n, it, ok, here in loops)
                return (known | new, loops, own)
        elif k == "store_attr" and SELF in ev.base:
            if ev.attr == WC:
                self.setup.append((ev, ev.value))
            rest = tuple(x for x in own if x[0] != ev.attr)
            if len(ev.value) == 1:
                rest = tuple(sorted(rest + ((ev.attr, next(iter(ev.value))),), key=str))
            return (known, loops, rest)
        elif k == "call" and ev.tag != "inlined" and ev.func and ev.func[0] == "cls":
            c = ip.cls_of(ev.func)
            if c is not None and c.find_method("__init__") is not None:
                new = self.delegated(c, ev, st)
                if new:
                    return (known | new, loops, own)
        elif k == "loop_enter" and isinstance(ev.node, ast.For):
            its = tuple(ev.value or ())
            return (known, loops + ((id(ev.node), its, True, True),), own)
        elif k == "next" and isinstance(ev.node, ast.For) and loops and loops[-1][0] == id(ev.node):
            n, it, ok, here = loops[-1]
            its = tuple(ev.value or ()) or it
            return st.copy(mon=(known, loops[:-1] + ((n, its, ok, False),), own), facts=self.forget(st, its))
        elif k == "loop_back" and loops and loops[-1][0] == id(ev.node):
            n, it, ok, here = loops[-1]
            return (known, loops[:-1] + ((n, it, ok and here, True),), own)
        elif k == "exhausted" and loops and loops[-1][0] == id(ev.node):
            n, it, ok, here = loops[-1]
            it = tuple(ev.value or ()) or it
            return (known | {("all", x) for x in it} if ok else known, loops[:-1] + ((n, it, False, True),), own)
        elif k == "loop_exit" and loops and loops[-1][0] == id(ev.node):
            return (known, loops[:-1], own)
        return NotImplemented

    def forget(self, st, its):
        """The next element is another one"""
        mine, todo = set(), list(its)
        while todo:
            it = todo.pop()
            mine |= {x for _, vs in (st.heap.get(it) or (0, ()))[1] for x in vs} | {("elem", it), ("index", it)}
            if it[0] == "unzip":
                todo.append(it[1])
            if it[0] == "call":
                todo += passed(it)
        return frozenset(x for x in st.facts if not any(t in mine for t in subterms(x[0])))

    def element(self, d, its, st):
        for it in its:
            if d == ("elem", it):
                return True
            if it[0] == "unzip" and self.element(d, (it[1],), st):
                return True
            if it[0] == "call" and self.element(d, tuple(passed(it)), st):
                return True
            if d[0] in ("sub", "elem", "index", "val") and self.element(d[1], (it,), st):
                return True
            h = st.heap.get(it)
            if h is not None and any(d in vs for _, vs in h[1]):
                return True
            if it[0] in ("tuple", "any") and d in it[1]:
                return True
            if it[0] == "any" and any(self.element(d, (x,), st) for x in it[1]):
                return True
        return False

    def delegated(self, c, ev, st):
        """Datasets given to another wrapper of the same setup"""
        f = c.find_method("__init__")
        if not c.issubclass(self.base):
            self.made.append((c, ev, st))
            return set()
        w = (ev.kwargs or {}).get(WC)
        names = [a.arg for a in f.all_params()][1:]
        if w is None and WC in names and names.index(WC) < len(ev.args or ()):
            w = ev.args[names.index(WC)]
        if w is None or not all(self.same(t) for t in w):
            return set()
        out = set()
        vals = list(ev.args or ()) + [v for k, v in (ev.kwargs or {}).items() if k != WC]
        for v in vals:
            for t in v:
                if t[0] == "star":
                    out.add(("all", t[1]))
                else:
                    out.add(t)
        return out


def passed(t):
    """Collections whose elements are those of a call's result"""
    if t[1] in (("ext", "list"), ("ext", "tuple"), ("ext", "iter"), ("ext", "sorted"), ("ext", "reversed"),
                ("ext", "zip"), ("ext", "enumerate"), ("ext", "set")):
        return t[2]
    if t[1] in (("ext", "map"), ("ext", "filter")):
        return t[2][1:]
    if t[1][0] == "attr" and t[1][2] in ("values", "items", "copy") and not t[2]:
        return (t[1][1],)
    return ()


def roots(t, st, seen=()):
    """Parameters the datasets come from, with the way to them: (param, depth of containers left)"""
    if t in seen:
        return set()
    seen = seen + (t,)
    if t[0] == "param":
        return {t[1]}
    if t[0] in ("elem", "sub", "index", "val", "key", "star", "slice", "copied", "unzip"):
        return roots(t[1], st, seen)
    if t[0] == "any":
        return {r for x in t[1] for r in roots(x, st, seen)}
    if t[0] == "call":
        return {r for x in passed(t) for r in roots(x, st, seen)}
    if t[0] == "tuple":
        return {r for x in t[1] for r in roots(x, st, seen)}
    h = st.heap.get(t)
    if h is not None:
        out = {r for _, vs in h[1] for x in vs for r in roots(x, st, seen)}
        if isinstance(h[0], tuple):
            out |= {r for x in h[0][1:] if isinstance(x, tuple) for r in roots(x, st, seen)} if h[0][0] == "map" else set()
        return out
    return set()


def whole(t, st, seen=()):
    """Parameters of which the term denotes all (not only a part of the collection)"""
    if t in seen:
        return set()
    seen = seen + (t,)
    if t[0] in ("all", "star", "copied", "unzip"):
        return whole(t[1], st, seen)
    if t[0] == "param":
        return {t[1]}
    if t[0] == "call" and t[1] == ("ext", "filter"):
        return set()
    if t[0] == "call":
        return {r for x in passed(t) for r in whole(x, st, seen)}
    if t[0] == "sub" and t[1][0] == "call" and t[1][1] == ("ext", "zip") and t[1][2] and t[1][2][0][0] == "star":
        return whole(t[1][2][0], st, seen)
    if t[0] in ("tuple", "any"):
        return {r for x in t[1] for r in whole(x, st, seen)}
    h = st.heap.get(t)
    if h is None:
        return set()
    shape, elems = h
    if isinstance(shape, tuple):
        return {r for x in shape[1:] if isinstance(x, tuple) for r in whole(x, st, seen)} if shape[0] == "map" else set()
    if shape == "lit":
        return {r for _, vs in elems for x in vs for r in whole(x, st, seen)}
    return {r for _, vs in elems for x in vs for r in roots(x, st)}


def check(p, cx):
    cx.rule("C28.refused", "a wrapper only accepts datasets with its own worker setup")
    cx.rule("C28.setup", "a dataset keeps the worker setup it was built with")
    cx.rule("C28.equal", "two worker setups are equal only if rank, world size and number of workers are")
    cx.rule("C28.derived", "what does not check is only built with the setup of its dataset")
    equal(p, cx)
    base = p.cls("SavableDataset", must=True)
    unchecked, n = [], 0
    made = []
    for c in sorted(p.classes(), key=lambda c: c.qualname):
        f = c.methods.get("__init__")
        if f is None:
            continue
        sub = c.issubclass(base)
        params = dataset_params(p, f)
        names = [a.arg for a in f.all_params()]
        if not sub and not params:
            continue
        if not sub and WC not in names and not any(stores_setup(f)):
            continue
        n += 1
        cx.fn(f)
        own = {("param", WC)} if WC in names else {("attr", ("param", q.lstrip("*")), WC) for q in params}
        mon = Checked(p, own)
        ip = Interp(p, mon)
        ip.isinst = dataset_isinst(p, f, base)
        o = ip.run(f, c)
        made += mon.made
        if not o.ret:
            raise AnalysisBroken(f"{c.name}.__init__ never returns")
        if mon.setup:
            cx.check(all(set(v) <= own for _, v in mon.setup), "C28.setup", c.name, f.loc(),
                     f"{c.name} keeps another worker setup than the one it is built with")
        elif sub:
            cx.bad("C28.setup", c.name, f.loc(), f"{c.name} does not keep the worker setup it is built with")
        for q in params:
            if own == {("attr", ("param", q), WC)}:
                cx.ok("C28.refused", f"{c.name}.{q}: its setup is taken over", f.loc())
                continue
            ok = True
            for st, *_ in o.ret:
                known = {r for t in st.mon[0] for r in whole(t, st)}
                ok &= q in known
            if ok:
                cx.ok("C28.refused", f"{c.name}.{q}", f.loc())
            elif sub:
                cx.bad("C28.refused", f"{c.name}.{q}", f.loc(),
                       f"{c.name} does not refuse a dataset ({q.lstrip('*')}) built for a different worker setup")
            else:
                unchecked.append((c, q, f))
    cx.floor("constructors taking datasets", n, 18)
    for c, q, f in unchecked:
        sites = [(ev, st) for k, ev, st in made if k is c]
        if not sites:
            cx.bad("C28.refused", f"{c.name}.{q}", f.loc(), f"{c.name} does not refuse a dataset built for a different worker setup")
        names = [a.arg for a in f.all_params()][1:]
        for ev, st in sites:
            d = ev.arg(names.index(q), q)
            w = ev.arg(names.index(WC), WC)
            ok = d is not None and w is not None and len(w) == 1
            for t in d or ():
                ws = {v for k, v in t[3] if k == WC} if t[0] == "call" and t[1][0] == "cls" else {("attr", t, WC)}
                ok &= len(ws) == 1 and (ws == set(w) or {("attr", t, WC)} == set(w))
            cx.check(ok, "C28.derived", f"{c.name} in {ev.fn.qualname}", ev.loc(),
                     f"{c.name} is built with another worker setup than its dataset")


def stores_setup(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            yield any(isinstance(t, ast.Attribute) and t.attr == WC for t in n.targets)


def dataset_isinst(p, f, base):
    """Parameters declared as datasets are datasets, *args and lists of them are not"""
    def hook(t, c, st, ip):
        k = ip.cls_of(c) if c[0] == "cls" else None
        if k is None or not (k is base or k.issubclass(base)):
            return None
        ty = ip.type_of(t)
        if ty is not None and ty[0] == "cls" and ty[1].issubclass(k):
            return True
        if t[0] == "call" and t[1][0] == "cls":
            x = ip.cls_of(t[1])
            return x is not None and x.issubclass(k)
        if t[0] in ("obj", "unzip", "tuple") or t[0] == "call" and passed(t) or t[0] == "param" and t[1].startswith("*"):
            return False
        return None
    return hook


FOLD = {("ext", n): f for n, f in (("max", max), ("min", min), ("bool", bool), ("int", int), ("abs", abs))}


class Eq(Monitor):
    def __init__(self, differ):
        self.differ = differ
        self.seen = set()

    def loaded(self, t, st, ip):
        if t[0] == "attr" and t[1] == SELF and t[2] in FIELDS:
            return ("const", 0)
        if t[0] == "attr" and t[1] == ("param", "other") and t[2] in FIELDS:
            return ("const", 1 if t[2] in self.differ else 0)
        return t

    def event(self, ev, st, ip):
        self.seen.add(ev.fn)
        if ev.kind == "branch" and self.differ:
            for t in ev.cond or ():
                if t[0] == "cmp" and t[1] in ("Is", "IsNot") and {t[2], t[3]} == {SELF, ("param", "other")}:
                    if ev.taken == (t[1] == "Is"):
                        return []
        return NotImplemented

    def result(self, ev, st, ip):
        if ev.func == ("ext", "isinstance"):
            return ("const", True)
        if ev.func in FOLD and ev.args and all(len(a) == 1 and next(iter(a))[0] == "const" for a in ev.args) and not ev.kwargs:
            try:
                return ("const", FOLD[ev.func](*[next(iter(a))[1] for a in ev.args]))
            except Exception:
                return None
        if ev.func == ("ext", "type"):
            return ("tok", "type")
        if ev.func in (("ext", "all"), ("ext", "any")) and ev.args and len(ev.args[0]) == 1:
            t = next(iter(ev.args[0]))
            es = list(t[1]) if t[0] == "tuple" else None
            h = st.heap.get(t)
            if h is not None and h[0] == "lit":
                es = [x for _, vs in h[1] for x in (vs if len(vs) == 1 else ())]
                if len(es) != len(h[1]):
                    es = None
            if es is not None and all(e[0] == "const" for e in es):
                return ("const", (all if ev.func[1] == "all" else any)(e[1] for e in es))
        return None


def equal(p, cx):
    c = p.cls("WorkerConfig", must=True)
    f = c.find_method("__eq__")
    if f is None:
        cx.bad("C28.equal", "WorkerConfig.__eq__", c.module.relpath, "worker setups are not compared by their values")
        return
    cx.fn(f)
    other = [a.arg for a in f.all_params()][1]
    for differ in ((),) + tuple((x,) for x in FIELDS):
        mon = Eq(differ)
        ip = Interp(p, mon)
        ip.folds = True
        o = ip.run(f, c, bind={other: V(("param", "other"))})
        got = set()
        for st, v, node in o.ret:
            for t in v:
                got.add(value(t, st))
        what = "same" if not differ else differ[0]
        want = not differ
        if ... in got or len(got) > 1:
            named = {n.attr if isinstance(n, ast.Attribute) else n.value for g in mon.seen for n in ast.walk(g.node)
                     if isinstance(n, ast.Attribute) or isinstance(n, ast.Constant) and isinstance(n.value, str)}
            cx.check(set(FIELDS) <= named, "C28.equal", what, f.loc(), f"worker setups with different {what} may count as equal")
            continue
        cx.check(got == {want}, "C28.equal", what, f.loc(),
                 "equal worker setups are told apart" if want else f"worker setups with different {what} count as equal")
    n = c.find_method("__ne__")
    cx.check(n is None, "C28.equal", "__ne__", f.loc(), "worker setups have an own way of being unequal")


def value(t, st):
    """Constant value of a condition, ... if unknown"""
    if t[0] == "const":
        return t[1]
    if t[0] == "not":
        v = value(t[1], st)
        return v if v is ... else not v
    if t[0] == "cmp" and t[1] in ("Eq", "NotEq"):
        a, b = value(t[2], st), value(t[3], st)
        if a is ... or b is ...:
            return ...
        return (a == b) == (t[1] == "Eq")
    if t[0] in ("tuple", "and", "or"):
        vs = [value(x, st) for x in t[1]]
        if t[0] == "and":
            return False if any(v is False for v in vs) else ... if ... in vs else all(vs)
        if t[0] == "or":
            return True if any(v is True for v in vs) else ... if ... in vs else any(vs)
        return ... if ... in vs else tuple(vs)
    h = st.heap.get(t)
    if h is not None and h[0] == "lit":
        vs = [value(next(iter(x)), st) if len(x) == 1 else ... for _, x in sorted(h[1], key=lambda kv: str(kv[0]))]
        return ... if ... in vs else tuple(vs)
    return ...
