"""C29: which cooker turns a crude sample into a typed one."""
import ast
import itertools

from ..flow import Interp, Monitor, V, subterms
from ..model import AnalysisBroken

SELF = ("self",)
SUB, SUBS = ("const", "__subflavor__"), ("const", "__subflavors__")


# ---- does a cooker match a sample ------------------------------------------
class Match(Monitor):
    """One case: subflavor condition (None, "eq", "ne", "unset"), subflavors condition (None, "empty", "ok", "missing", "differ"),
    custom condition (None, True, False). mon = (entry of the subflavors at hand: "ok" or "bad", a bad one has been seen)"""

    def __init__(self, sample, case):
        self.sample = sample
        self.sub, self.has, self.cond = case

    def init(self):
        return ("ok", False)

    def condition(self, t, name):
        return t == ("attr", SELF, name)

    def mine(self, t):
        return any(self.condition(x, "has_subflavors") for x in subterms(t))

    def ev(self, t, st):
        """Value of a term in this case, ... if unknown"""
        k = t[0]
        if k == "const":
            return t[1]
        if self.condition(t, "is_subflavor"):
            return None if self.sub is None else "a"
        if self.condition(t, "has_subflavors"):
            return None if self.has is None else {} if self.has == "empty" else {"k": "v"}
        if self.condition(t, "condition"):
            return None if self.cond is None else "function"
        if k == "not":
            v = self.ev(t[1], st)
            return v if v is ... else not v
        if k in ("key", "elem") and self.condition(t[1], "has_subflavors"):
            return "k" if t[0] == "key" or self.has is not None else ...
        if k == "val" and self.condition(t[1], "has_subflavors"):
            return "v"
        if k == "elem" and self.mine(t[1]):
            return "k"
        got = self.got(t)
        if got is not None:
            base, key, default = got
            if base == self.sample and key == SUB:
                return {"ne": "b", "unset": None}.get(self.sub, "a")
            if base == self.sample and key == SUBS:
                return self.entries(st)
            b, x = self.ev(base, st), self.ev(key, st)
            if isinstance(b, dict) and x is not ...:
                return b.get(x, default if default is None else self.ev(default, st))
            return ...
        if k == "call" and self.condition(t[1], "condition"):
            return self.cond if t[2] == (self.sample,) and not t[3] and self.cond is not None else ...
        if k == "call" and t[1] in (("ext", "bool"),) and len(t[2]) == 1:
            v = self.ev(t[2][0], st)
            return v if v is ... else bool(v)
        if k == "call" and t[1][0] == "attr" and t[1][2] in ("items", "keys") and not t[2]:
            b = self.ev(t[1][1], st)
            return (b.items() if t[1][2] == "items" else b.keys()) if isinstance(b, dict) else ...
        if k == "cmp":
            a, b = self.ev(t[2], st), self.ev(t[3], st)
            if a is ... or b is ...:
                return ...
            op = t[1]
            try:
                if op in ("Eq", "NotEq"):
                    return (a == b) == (op == "Eq")
                if op in ("Is", "IsNot"):
                    return ((a is b) == (op == "Is")) if a is None or b is None else ...
                if op in ("In", "NotIn"):
                    return (a in b) == (op == "In")
                if op == "LtE":
                    return a <= b
                if op == "GtE":
                    return a >= b
            except TypeError:
                pass
            return ...
        if k == "any":
            vs = {x if x is ... else bool(x) for x in (self.ev(y, st) for y in t[1])}
            return vs.pop() if len(vs) == 1 else ...
        if k == "tuple":
            vs = tuple(self.ev(x, st) for x in t[1])
            return ... if ... in vs else vs
        if k == "call" and t[1] == ("ext", "object"):
            return t
        return ...

    def entries(self, st):
        """The sample's subflavors as far as the entry at hand goes"""
        bad = st.mon[0] == "bad" or self.has in ("missing", "differ") and st.mon[0] == "all"
        if bad:
            return {"x": "v"} if self.has == "missing" else {"k": "w", "x": "v"}
        return {"k": "v", "x": "v"}

    @staticmethod
    def got(t):
        if t[0] == "sub":
            return t[1], t[2], None
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and t[2]:
            return t[1][1], t[2][0], t[2][1] if len(t[2]) > 1 else None
        return None

    def event(self, ev, st, ip):
        now, seen = st.mon
        k = ev.kind
        if k == "branch":
            vs = set()
            for t in ev.cond or (("top",),):
                v = self.whole(t, st)
                vs.add(v if v is ... else bool(v))
            if len(vs) == 1 and ... not in vs and next(iter(vs)) != ev.taken:
                return []
        elif k == "load_sub":
            # an entry the sample does not have
            for b in ev.base or ():
                if isinstance(self.ev(b, st), dict) and self.mine_key(ev, st):
                    return []
        elif k == "next" and any(self.mine(t) for t in ev.value or ()):
            if self.has in (None, "empty"):
                return []
            return [("ok", seen)] if self.has == "ok" else [("ok", seen), ("bad", True)]
        elif k == "exhausted" and any(self.mine(t) for t in ev.value or ()):
            if self.has is None or self.has in ("missing", "differ") and not seen:
                return []
            return (now, seen)
        return NotImplemented

    def mine_key(self, ev, st):
        if self.has != "missing" or st.mon[0] != "bad":
            return False
        idx = getattr(ev, "index", None) or ()
        return any(self.ev(i, st) == "k" for i in idx)

    def whole(self, t, st):
        """As ev, for conditions over all entries at once"""
        if t[0] == "not":
            v = self.whole(t[1], st)
            return v if v is ... else not v
        if t[0] == "cmp" and t[1] in ("LtE", "GtE"):
            return self.ev(t, st.copy(mon=("all", st.mon[1])))
        return self.ev(t, st)

    def result(self, ev, st, ip):
        if ev.func in (("ext", "all"), ("ext", "any")) and ev.args and len(ev.args[0]) == 1:
            t = next(iter(ev.args[0]))
            h = st.heap.get(t)
            if t[0] == "tuple":
                vals = [self.ev(x, st) for x in t[1]]
            elif h is not None:
                vals = [self.ev(x, st) for _, vs in h[1] for x in vs]
            else:
                return None
            if ... in vals:
                return None
            f = all if ev.func[1] == "all" else any
            return ("const", f(vals))
        return None


CASES = list(itertools.product((None, "eq", "ne", "unset"), (None, "empty", "ok", "missing", "differ"), (None, True, False)))


def text(case):
    s, h, c = case
    return "/".join((f"subflavor={s}", f"subflavors={h}", f"condition={c}"))


def match(p, cx):
    c = p.cls("Cooker", must=True)
    f = c.find_method("is_match")
    if f is None:
        raise AnalysisBroken("Cooker.is_match not found")
    cx.fn(f)
    sample = ("param", [a.arg for a in f.all_params()][1])
    n = 0
    for case in CASES:
        mon = Match(sample, case)
        ip = Interp(p, mon)
        ip.folds = ip.bool_branches = True
        o = ip.run(f, c)
        want = case[0] not in ("ne", "unset") and case[1] not in ("missing", "differ") and case[2] is not False
        got = set()
        for st, v, node in o.ret:
            for t in v:
                x = mon.whole(t, st)
                got.add(x if x is ... else bool(x))
        n += 1
        if got == {want}:
            cx.ok("C29.match", text(case), f.loc())
        elif not got:
            cx.bad("C29.match", text(case), f.loc(), f"matching fails for {text(case)}")
        else:
            cx.bad("C29.match", text(case), f.loc(),
                   "a cooker whose conditions all match is passed over" if want else
                   f"a cooker matches although a condition does not ({text(case)})")
    cx.floor("cases of conditions", n, 60)


# ---- the choice of the cooker ----------------------------------------------
class Choice(Monitor):
    """mon = (a matching cooker has been seen, the one at hand matches: None, "first", "later", False, remembered a later one)"""
    names = True

    def __init__(self, p, sample, case):
        self.p = p
        self.sample = sample
        self.case = case     # "typed", "some", "none"
        self.problems = {}
        self.cooked = set()

    def init(self):
        return (False, None, False)

    @staticmethod
    def plain(t):
        """Is it the sequence of cookers, in order?"""
        while t[0] == "call" and t[1] in (("ext", "list"), ("ext", "tuple"), ("ext", "iter"), ("ext", "enumerate")) and len(t[2]) == 1:
            t = t[2][0]
        return t == ("attr", SELF, "cookers")

    def cookers(self, t):
        return any(x == ("attr", SELF, "cookers") for x in subterms(t))

    def one(self, t, st):
        """Is the term one of the cookers?"""
        return t[0] != "call" and self.cookers(t) and t != ("attr", SELF, "cookers")

    def event(self, ev, st, ip):
        found, now, late = st.mon
        k = ev.kind
        if k == "next" and any(self.cookers(t) for t in ev.value or ()):
            if not all(self.plain(t) for t in ev.value):
                self.problems.setdefault("order", (ev, "the cookers are not tried in their order"))
            if found:
                return [(found, "later", late), (found, False, late)]
            if self.case == "some":
                return [(True, "first", late), (False, False, late)]
            return (found, False, late)
        if k == "exhausted" and any(self.cookers(t) for t in ev.value or ()):
            if self.case == "some" and not found:
                return []
            return (found, None, late)
        if k == "branch":
            vs = {truth(t, st, self.cookers, self.one) for t in ev.cond or ()}
            if len(vs) == 1 and None not in vs and vs.pop() != ev.taken:
                return []
        if k == "store_name" and now == "later" and found and any(self.one(t, st) for t in ev.value or ()) and not target(ev):
            return (found, now, True)
        if k == "call" and ev.name == "cook" and ev.func and ev.func[0] == "attr":
            if self.one(ev.func[1], st):
                if not found:
                    self.problems.setdefault("unmatched", (ev, "a cooker is used for a sample it does not match"))
                elif late or now == "later":
                    self.problems.setdefault("later", (ev, "a later matching cooker is used instead of the first one"))
                elif now is False:
                    # the current one does not match, unless it is the remembered first
                    pass
                if not ev.args or set(ev.args[0]) != {self.sample}:
                    self.problems.setdefault("sample", (ev, "the cooker does not get the crude sample as it is"))
        return NotImplemented

    def result(self, ev, st, ip):
        found, now, late = st.mon
        if ev.name == "is_match" and ev.func and any(self.one(t, st) for t in subterms(ev.func) if t != ev.func):
            if ev.args and set(ev.args[0]) == {self.sample}:
                return ("const", now in ("first", "later"))
        if ev.func == ("ext", "next") and ev.args:
            els = {x for t in ev.args[0] for _, vs in (st.heap.get(t) or (0, ()))[1] for x in vs}
            if any(st.heap.get(t) is not None for t in ev.args[0]):
                if els:
                    return next(iter(els)) if len(els) == 1 else None
                if len(ev.args) > 1 and len(ev.args[1]) == 1:
                    return next(iter(ev.args[1]))
        return None


def truth(t, st, about, one=None):
    """Truth of a collection made of the elements in question, or of such an element being None"""
    if t[0] == "not":
        v = truth(t[1], st, about, one)
        return None if v is None else not v
    if t[0] == "cmp" and t[1] in ("Is", "IsNot") and t[3] == ("const", None) and one is not None and one(t[2], st):
        return t[1] == "IsNot"
    if t[0] == "obj":
        h = st.heap.get(t)
        if h is not None:
            els = {x for _, vs in h[1] for x in vs}
            if not els or all(about(x) for x in els):
                return bool(els)
    return None


def target(ev):
    """A loop variable rather than an assignment"""
    import ast
    return not isinstance(ev.node, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and \
        not isinstance(getattr(ev, "stmt", None), (ast.Assign, ast.AnnAssign))


def choose(p, cx):
    c = p.cls("TaskEncoder", must=True)
    f = c.find_method("cook_crude_sample")
    if f is None:
        raise AnalysisBroken("TaskEncoder.cook_crude_sample not found")
    cx.fn(f)
    sample = ("param", [a.arg for a in f.all_params()][1])
    crude = p.cls("CrudeSample", must=True)
    for case in ("typed", "some", "none"):
        mon = Choice(p, sample, case)
        ip = Interp(p, mon)
        ip.folds = ip.bool_branches = True

        def isinst(t, k, st, ip, case=case):
            k = ip.cls_of(k) if k[0] == "cls" else None
            if k is None or t != sample:
                return None
            if k is crude:
                return case != "typed"
            if case == "typed":
                return k.name == "Sample" or None
            return True if crude.issubclass(k) else False if k.name == "Sample" else None
        ip.isinst = isinst
        o = ip.run(f, c)
        for what, (ev, msg) in mon.problems.items():
            cx.bad("C29.first", f"{case}: {what}", ev.loc(), msg)
        if case == "typed":
            got = {t for st, v, _ in o.ret for t in v}
            cx.check(got == {sample}, "C29.typed", "returned", f.loc(), "a sample which is typed already is not passed on as it is")
        elif case == "none":
            cx.check(not o.ret and not [s for s in o.normal], "C29.none", "refused", f.loc(),
                     "a crude sample which no cooker matches is not refused")
        else:
            ok = bool(o.ret)
            for st, v, _ in o.ret:
                for t in v:
                    ok &= t[0] == "call" and t[1][0] == "attr" and t[1][2] == "cook"
            ok &= not o.normal
            ok &= not o.exc or all(tag in ("any", "Exception", "Failure#") for _, tag, _ in o.exc)
            cx.check(ok, "C29.first", "cooked", f.loc(), "a crude sample is not turned into what its first matching cooker makes of it")


# ---- the pipeline -----------------------------------------------------------
class Pipeline(Monitor):
    """mon = (round of the loop over the datasets: 0 before, 1 a typed one, 2 a crude one, seen)"""

    def __init__(self, p, datasets):
        self.p = p
        self.datasets = datasets
        self.cook = []
        self.encode = []

    def init(self):
        return (0, False)

    def inline(self, fi, recv, ip, stack):
        if fi.name.startswith("build_") or fi.name in ("should_log", "worker_log", "build"):
            return False
        return NotImplemented

    def over(self, ev):
        return any(self.whole(t) for t in ev.value or ())

    def whole(self, t):
        while t[0] == "call" and t[1] in (("ext", "list"), ("ext", "tuple"), ("ext", "iter"), ("ext", "enumerate")) and t[2]:
            t = t[2][0]
        if t[0] == "call" and t[1] == ("ext", "range") and len(t[2]) == 1:
            return t[2][0] == ("call", ("ext", "len"), (self.datasets,), ())
        if t[0] == "call" and t[1] == ("ext", "zip"):
            return any(self.whole(x) for x in t[2])
        return t == self.datasets

    def event(self, ev, st, ip):
        now, seen = st.mon
        if ev.kind == "next" and self.over(ev):
            return [(1, seen), (2, seen)]
        if ev.kind == "loop_exit" or ev.kind == "loop_enter":
            return (0, seen)
        if ev.kind == "exhausted" and self.over(ev):
            if now != 2:
                return []
        if ev.kind == "branch":
            for t in ev.cond or ():
                if len(ev.cond) == 1:
                    v = truth(t, st, lambda x: any(y == self.datasets for y in subterms(x)))
                    if v is not None and v != ev.taken:
                        return []
                pos = True
                while t[0] == "not":
                    t, pos = t[1], not pos
                if t == ("attr", SELF, "cookers") and ev.taken == pos:
                    return []
                if t[0] == "call" and t[1] == ("ext", "len") and t[2] == (("attr", SELF, "cookers"),) and ev.taken == pos:
                    return []
                if t[0] == "cmp" and t[2] == ("call", ("ext", "len"), (("attr", SELF, "cookers"),), ()) and t[3][0] == "const":
                    v = {"Gt": 0 > t[3][1], "GtE": 0 >= t[3][1], "Eq": 0 == t[3][1], "NotEq": 0 != t[3][1],
                         "Lt": 0 < t[3][1], "LtE": 0 <= t[3][1]}.get(t[1])
                    if v is not None and (v == pos) != ev.taken:
                        return []
        return NotImplemented

    def result(self, ev, st, ip):
        if ev.func in (("ext", "any"), ("ext", "all")) and ev.args and len(ev.args[0]) == 1:
            t = next(iter(ev.args[0]))
            h = st.heap.get(t)
            if h is not None:
                vals = {x for _, vs in h[1] for x in vs}
                if all(v[0] == "const" for v in vals) and vals:
                    return ("const", (any if ev.func[1] == "any" else all)(v[1] for v in vals))
        if ev.func == ("ext", "bool") and ev.args and set(ev.args[0]) == {("attr", SELF, "cookers")}:
            return ("const", False)
        return None


class Flow(Monitor):
    def __init__(self):
        self.cook = []
        self.encode = []

    def inline(self, fi, recv, ip, stack):
        if fi.name.startswith("build_") or fi.name in ("should_log", "worker_log", "build"):
            return False
        return NotImplemented

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.name == "build_encode_sample":
            self.encode.append(ev)
        return NotImplemented


class Given(Monitor):
    """Building the cooking step with cookers registered"""

    def event(self, ev, st, ip):
        if ev.kind == "branch":
            for t in ev.cond or ():
                pos = True
                while t[0] == "not":
                    t, pos = t[1], not pos
                if t == ("attr", SELF, "cookers") and ev.taken != pos:
                    return []
        return NotImplemented


def pipelines(p, cx):
    te = p.cls("TaskEncoder", must=True)
    crude = p.cls("CrudeWebdataset", must=True)
    n = 0
    for c in sorted(p.subclasses(te, strict=False), key=lambda c: c.qualname):
        for name in ("build_train_datasets", "build_val_datasets"):
            f = c.methods.get(name)
            if f is None:
                continue
            n += 1
            cx.fn(f)
            datasets = ("param", "datasets")
            mon = Pipeline(p, datasets)
            ip = Interp(p, mon)
            ip.folds = True

            def isinst(t, k, st, ip):
                k = ip.cls_of(k) if k[0] == "cls" else None
                if k is not crude or not any(x == datasets for x in subterms(t)):
                    return None
                if any(x[0] == "sub" and x[1] == datasets and x[2][0] == "const" for x in subterms(t)):
                    return False       # a particular one, which need not be the crude one
                return st.mon[0] == 2
            ip.isinst = isinst
            o = ip.run(f, c)
            cx.check(not o.ret, "C29.refused", f"{c.name}.{name}", f.loc(),
                     f"{name} accepts crude data without any cooker registered")
            mon = Flow()
            ip = Interp(p, mon)
            ip.run(f, c)
            ok = bool(mon.encode)
            for ev in mon.encode:
                a = ev.arg(0, "dataset")
                ok &= bool(a) and all(t[0] == "call" and bound(t[1], ip) == "build_cook_crude_sample" for t in a)
            cx.check(ok, "C29.applied", f"{c.name}.{name}", f.loc(), f"{name} encodes samples which have not been cooked")
    cx.floor("pipelines", n, 2)
    f = te.find_method("build_cook_crude_sample")
    cx.fn(f)
    mon = Given()
    ip = Interp(p, mon)
    o = ip.run(f, te)
    ok = bool(o.ret) and not o.normal
    for st, v, _ in o.ret:
        for t in v:
            good = t[0] == "call" and t[1][0] == "cls" and ip.cls_of(t[1]) is not None and ip.cls_of(t[1]).name == "MapDataset"
            if good:
                names = [a.arg for a in ip.cls_of(t[1]).find_method("__init__").all_params()][1:]
                args = dict(zip(names, t[2]))
                args.update(t[3])
                good = args.get(names[0]) == ("param", "dataset") and names[1] in args and \
                    bound(args[names[1]], ip) == "cook_crude_sample"
            ok &= bool(good)
    cx.check(ok, "C29.applied", "build_cook_crude_sample", f.loc(), "crude samples are not cooked although there are cookers")


def bound(t, ip):
    """Name of the method a term denotes"""
    if t[0] == "attr":
        return t[2]
    fi = ip.func_of(t)
    return fi and fi.name


def check(p, cx):
    cx.rule("C29.match", "a cooker matches exactly the samples that meet all its conditions")
    cx.rule("C29.first", "the first matching cooker turns the crude sample into the typed one")
    cx.rule("C29.none", "a crude sample which no cooker matches raises an error")
    cx.rule("C29.typed", "typed samples pass unchanged")
    cx.rule("C29.refused", "building a pipeline on crude data without cookers is refused")
    cx.rule("C29.applied", "cooking happens before encoding whenever there are cookers")
    cx.rule("C29.basic", "the helper for the basic fields takes each of them from the crude sample, whatever its value")
    match(p, cx)
    choose(p, cx)
    pipelines(p, cx)
    basic(p, cx)


class Asks(Monitor):
    """Branches of a function, with what they ask for"""

    def __init__(self):
        self.conds = []

    def event(self, ev, st, ip):
        if ev.kind == "branch" and ev.cond:
            self.conds.append(ev)
        return NotImplemented


def basic(p, cx):
    """basic_sample_keys: every basic field the crude sample has, each under its own name, whatever it holds"""
    sample = p.cls("Sample")
    want = {x.target.id for x in sample.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)}
    fs = [f for f in p.all_functions() if f.name == "basic_sample_keys" and f.cls is None and f.outer is None]
    if len(fs) != 1 or len(want) < 3:
        raise AnalysisBroken("basic_sample_keys or the fields of Sample are gone")
    f = fs[0]
    cx.fn(f)
    P = ("param", f.node.args.args[0].arg)

    def value_of(t):
        """The key looked up, when t reads a value of the crude sample"""
        if t[0] == "sub" and t[1] == P:
            return t[2]
        if t[0] == "call" and t[1] == ("attr", P, "get") and t[2]:
            return t[2][0]
        if t[0] == "elem" and P in subterms(t) and any(x[0] == "attr" and x[1] == P and x[2] in ("values", "items") for x in subterms(t)):
            return t
        return None

    m = Asks()
    ip = Interp(p, m)
    o = ip.run(f, None)
    bad = {}
    for ev in m.conds:
        for c in ev.cond:
            inner = [c] if c[0] not in ("not", "and", "or") else [x for x in c[1:] if isinstance(x, tuple)]
            for t in inner:
                if value_of(t) is not None:
                    bad.setdefault("whatever it holds", (ev.node, "leaves out basic fields depending on their value"))
    seen = 0
    for st, v, node in o.ret:
        for t in v:
            if t == P or t not in st.heap:
                continue
            consts = set()
            open_ended = False
            for k, vs in st.heap[t][1]:
                key = k[1] if isinstance(k, tuple) and k[0] == "k" else ("const", k) if isinstance(k, str) else None
                if key is None:
                    open_ended = True
                    continue
                seen += 1
                for e in vs:
                    at = value_of(e)
                    if at is not None and at[0] != "elem" and at != key:
                        bad.setdefault("own name", (node, "puts the value of one field under the name of another"))
                    if e[0] == "const" and key[0] != "const":
                        bad.setdefault("its value", (node, f"replaces basic fields by {e[1]!r}"))
                if key[0] == "const":
                    consts.add(key[1])
                    continue
                open_ended = True
                for x in subterms(key):
                    if x[0] == "call" and x[1] == ("ext", "dataclasses.fields") and x[2] and x[2][0][0] == "cls":
                        if not x[2][0][1].endswith("." + sample.name):
                            bad.setdefault("the basic fields", (node, "does not take the fields of Sample"))
                    if x[0] == "slice":
                        bad.setdefault("each field", (node, "leaves out basic fields"))
                    if x[0] in ("any", "tuple", "list") and len(x) > 1 and isinstance(x[1], tuple) and x[1] and all(
                            isinstance(y, tuple) and y[0] == "const" for y in x[1]):
                        consts |= {y[1] for y in x[1]}
                        open_ended = False
            if consts and not open_ended and want - consts:
                bad.setdefault("each field", (node, f"leaves out {', '.join(sorted(want - consts))}"))
    for what, (node, why) in bad.items():
        cx.bad("C29.basic", f"basic_sample_keys: {what}", f.loc(node), f"basic_sample_keys {why}")
    if not bad:
        cx.ok("C29.basic", f"basic_sample_keys: {seen} key(s)", f.loc())
