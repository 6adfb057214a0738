"""C21: settings of (nested) metadatasets reach every underlying dataset.

Each loader class is analysed for every combination of a setting given by the caller (outer) and the loader's own value
(own); the value handed to the next level is compared with what the combination must give."""
import ast
import itertools

from . import metapaths
from ..flow import Interp, Monitor, V, VNONE, subterms
from ..model import AnalysisBroken, walk_own

SELF = ("self",)
METHODS = ("get_datasets", "get_dataset")
EPOCHS = ("shuffle_over_epochs_multiplier", "shuffle_over_epochs")
#: (setting, which of two given values counts)
MULT = "shuffle_over_epochs_multiplier"
#: settings which get_datasets() does not get from the caller
NOT_CALLED = ("split_config", "dataset_config", "join_method", "joiner")
CLOSER = {"split_part": "own", "subflavor": "outer", "split_config": "either", "dataset_config": "either"}
PASSED = ("training", "worker_config", "sample_type")
OWN_D, OUTER_D = ("obj", "dict", "own"), ("obj", "dict", "outer")
OWN = {"a": V(("tok", "own", "a")), "c": V(("tok", "own", "c"))}
OUTER = {"a": V(("tok", "outer", "a")), "b": V(("tok", "outer", "b"))}
EXTRA = ("tok", "outer", "extra argument")
KWARGS = ("obj", "dict", "kwargs")
HEAP = {OWN_D: ("lit", frozenset(OWN.items())), OUTER_D: ("lit", frozenset(OUTER.items())),
        KWARGS: ("lit", frozenset({"extra_argument": V(EXTRA)}.items()))}


def fields(c):
    out = set()
    for b in c.mro():
        out |= set(b.annots)
    return out


class Case:
    """own / outer: {setting: value set}"""

    def __init__(self, own, outer, label=""):
        self.own, self.outer, self.label = own, outer, label


def cases(own_names, outer_names):
    """One setting at a time; all others are given by the caller only."""
    base_outer = {}
    base_own = {}
    for n in outer_names:
        base_outer[n] = V(("tok", "outer", n))
    for n in EPOCHS:
        if n in outer_names:
            base_outer[n] = V(("const", 3))
    for n in own_names:
        if n in EPOCHS:
            base_own[n] = V(("const", 1))
        elif n in CLOSER or n == "subflavors":
            base_own[n] = VNONE
    if "subflavors" in outer_names:
        base_outer["subflavors"] = V(OUTER_D)
    yield None, Case(base_own, base_outer, "settings given by the caller")
    for n in [x for x in CLOSER if x in own_names or x in outer_names] + ["subflavors"]:
        if n not in own_names and n not in outer_names:
            continue
        for o, i in itertools.product((True, False), (True, False)):
            if o and n not in outer_names or i and n not in own_names:
                continue
            own, outer = dict(base_own), dict(base_outer)
            if n in outer_names:
                outer[n] = (V(OUTER_D) if n == "subflavors" else V(("tok", "outer", n))) if o else VNONE
            if n in own_names:
                own[n] = (V(OWN_D) if n == "subflavors" else V(("tok", "own", n))) if i else VNONE
            yield n, Case(own, outer, f"{n} " + ("given by the caller and" if o and i else "given by the caller, not" if o else
                                                 "only" if i else "given neither by the caller nor") + " by the loader itself")
    for n in EPOCHS:
        if n in outer_names and "shuffle_over_epochs_multiplier" not in own_names:
            yield n, Case(base_own, base_outer, "3 given by the caller")
        if n in outer_names and "shuffle_over_epochs_multiplier" in own_names:
            for o, i in ((3, 5), (1, 4), (-1, 2), (2, -1), (-1, -1)):
                own, outer = dict(base_own), dict(base_outer)
                outer[n] = V(("const", o))
                own["shuffle_over_epochs_multiplier"] = V(("const", i))
                yield n, Case(own, outer, f"{o} given by the caller, {i} by the loader itself")


class Loads(Monitor):
    """Replaces the loader's own settings, records the calls to the next level"""

    def __init__(self, own, sink, base=SELF):
        self.own, self.sink, self.base = own, sink, base
        self.calls = []
        self.stored = {}

    def init(self):
        return frozenset()

    def loaded(self, t, st, ip):
        if t[0] == "attr" and t[1] == self.base and t[2] in self.own:
            return next(iter(self.own[t[2]]))
        return t

    def event(self, ev, st, ip):
        if ev.kind in ("call", "newrec") and ev.tag != "inlined" and self.sink(ev, ip):
            self.calls.append((ev, st))
        if ev.kind == "store_attr" and self.base in ev.base and ev.attr in self.own:
            return st.mon | {(ev.attr, ev.value)}
        return NotImplemented


def named(ev, st, fi=None):
    """The arguments of a call by parameter name"""
    out = {}
    kw = dict(ev.kwargs)
    for t in kw.pop("**", ()):
        h = st.heap.get(t)
        if h is not None and h[0] in ("lit", "any"):
            for k, v in h[1]:
                if k == "**":
                    for x in v:
                        if x in st.heap:
                            out.update({a: b for a, b in st.heap[x][1] if isinstance(a, str)})
                elif isinstance(k, str):
                    out[k] = v
    out.update(kw)
    if fi is not None:
        names = [n for n in fi.params()[0] if n not in ("self", "cls")]
        for n, v in zip(names, ev.args):
            out.setdefault(n, v)
    return out


def dict_of(v, st):
    """Contents of a dict value: {key: values}, {} for None, None if unknown"""
    if v is None or v == VNONE:
        return {}
    if len(v) != 1:
        return None
    t = next(iter(v))
    if t[0] == "obj" and t in st.heap:
        d = dict(st.heap[t][1])
        if all(isinstance(k, str) and k not in ("*", "**") for k in d):
            return d
    return None


def reach(v, st, seen=None):
    seen = set() if seen is None else seen
    for t in v or ():
        for x in subterms(t):
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "obj" and x in st.heap:
                if isinstance(st.heap[x][0], tuple):
                    reach([y for y in st.heap[x][0] if isinstance(y, tuple)], st, seen)
                for k, vs in st.heap[x][1]:
                    if isinstance(k, tuple) and k and k[0] == "k":
                        reach([k[1]], st, seen)
                    reach(vs, st, seen)
    return seen


def show(v, st):
    if v is None:
        return "nothing"
    d = dict_of(v, st)
    if d:
        return "{" + ", ".join(f"{k}: {show(x, st)}" for k, x in sorted(d.items())) + "}"
    out = []
    for t in sorted(v, key=repr):
        out.append({"own": "the loader's own ", "outer": "the caller's "}[t[1]] + str(t[2]) if t[0] == "tok" and len(t) == 3 else
                   repr(t[1]) if t[0] == "const" else "something else")
    return " or ".join(out)


def combine(name, case, applies):
    """What has to be handed on: a list of accepted values (dicts for subflavors)"""
    o = case.outer.get(name)
    i = case.own.get("shuffle_over_epochs_multiplier" if name in EPOCHS else name) if applies else None
    if name in EPOCHS:
        if i is None:
            return [o]
        a, b = next(iter(o))[1], next(iter(i))[1]
        return [V(("const", -1 if -1 in (a, b) else a * b))]
    if name == "subflavors":
        d = {}
        if i is not None and i != VNONE:
            d.update(OWN)
        if o is not None and o != VNONE:
            d.update(OUTER)
        return [d]
    given = [x for x in (o, i) if x is not None and x != VNONE]
    if len(given) < 2:
        return given or [VNONE]
    return {"own": [i], "outer": [o], "either": [o, i]}[CLOSER[name]]


def same(name, v, want, st):
    if name != "subflavors":
        return any(v == w or w == VNONE and v is None for w in want)
    d = dict_of(v, st)
    if d is None:
        # not understood in detail: everything must at least be in it
        seen = reach(v, st)
        return all(x in seen or OWN_D in seen and x[1] == "own" or OUTER_D in seen and x[1] == "outer"
                   for w in want for vs in w.values() for x in vs)
    return d in want


class Loader:
    def __init__(self, p, c):
        self.p, self.c = p, c
        self.methods = [f for f in (c.find_method(n) for n in METHODS) if f is not None and not f.is_abstract]
        self.fields = fields(c)
        self.applied = {}
        self.refuses = True
        self.asked = set()            # receivers of the calls to the next level


def loaders(p):
    out = []
    for c in p.classes():
        ms = [c.find_method(n) for n in METHODS]
        if any(m is not None and not m.is_abstract for m in ms):
            out.append(Loader(p, c))
    return out


def is_factory(p, t):
    return t[0] == "cls" and t[1] in {c.qualname for c in p.subclasses(p.cls("BaseCoreDatasetFactory"), strict=False)}


def sinks(p, names):
    funcs = {f.key for f in p.all_functions() if f.name == "get_dataset_from_config"}

    def sink(ev, ip):
        if ev.callee is not None and ev.callee.key in funcs:
            return True
        if ev.func is not None and ev.func[0] == "cls":
            return is_factory(p, ev.func)
        return ev.name in METHODS
    return sink


def factory_params(p, t):
    c = next(c for c in p.subclasses(p.cls("BaseCoreDatasetFactory"), strict=False) if c.qualname == t[1])
    i = c.find_method("__init__")
    return i, {a.arg for a in i.all_params()} if i else set()


def run(p, f, c, case, sink):
    m = Loads(case.own, sink)
    ip = Interp(p, m, no_inline=("get_dataset_from_config",))
    ip.folds = True
    bind = dict(case.outer)
    if f.node.args.kwarg is not None:
        bind["**" + f.node.args.kwarg.arg] = V(KWARGS)
    o = ip.run(f, c, bind=bind, heap=HEAP)
    return m, o, ip


def forwarding(p, cx, L, made):
    for f in L.methods:
        outer_names = [a.arg for a in f.all_params() if a.arg != "self"]
        sink = sinks(p, outer_names)
        m0, o0, _ = run(p, f, L.c, next(cases(L.fields, outer_names))[1], sink)
        if not o0.ret:
            continue                  # refuses to be called
        L.refuses = False
        cx.fn(f)
        what = f"{L.c.name}.{f.name}"
        ok = cx.check("C21.forward", f, f.node, bool(m0.calls), f"{what} loads no dataset")
        if not ok:
            continue
        done = set()
        for name, case in cases(L.fields, outer_names):
            m, o, ip = run(p, f, L.c, case, sink)
            if name is not None and not m.calls and not o.ret:
                continue              # rejected
            if name is not None:
                cx.check("C21.forward", f, f.node, bool(m.calls), f"{what} loads no dataset with {case.label}")
            for ev, st in m.calls:
                if isinstance(ev.recv, tuple):
                    L.asked.add(ev.recv)
                check_call(p, cx, L, f, what, name, case, ev, st, ip, outer_names, done, made)
            for s, v, node in o.ret:
                for D, full, who in ((OUTER_D, OUTER, "the caller's"), (OWN_D, OWN, "its own")):
                    if dict(s.heap.get(D, (0, frozenset(full.items())))[1]) != full and (f, who) not in done:
                        done.add((f, who))
                        cx.bad("C21.leak", f, f.node, f"{what} changes {who} subflavors in place: the tags of one dataset "
                               "end up at others")
        cx.ok("C21.leak", f, f.node)


def check_call(p, cx, L, f, what, name, case, ev, st, ip, outer_names, done, made):
    callee = ev.callee
    takes = None
    if ev.func is not None and ev.func[0] == "cls":
        callee, takes = factory_params(p, ev.func)
    args = named(ev, st, callee)
    target = ev.name or (ev.func and ev.func[1]) or "the next level"

    def accepted(n):
        return takes is None or n in takes

    def report(n, good, text):
        key = (f, id(ev.node), n)
        if not good and key not in done:
            done.add(key)
            cx.bad("C21.forward", f, ev.node, text)
        elif good:
            cx.ok("C21.forward", f, ev.node)

    if name is None:
        for n in PASSED:
            if n in outer_names and accepted(n):
                report(n, args.get(n) == case.outer[n], f"{what} hands {show(args.get(n), st)} instead of the caller's {n} "
                       f"to {target}")
        if f.node.args.kwarg is not None:
            report("**", args.get("extra_argument") == V(EXTRA), f"{what} does not hand the additional arguments on to {target}")
        for n in outer_names:
            if n in CLOSER or n in PASSED or n in EPOCHS or n == "subflavors" or n == "split_part":
                continue
            if n not in ("path",) and accepted(n):
                report(n, args.get(n) == case.outer[n] or case.outer[n] <= reach(args.get(n), st), f"{what} hands "
                       f"{show(args.get(n), st)} instead of the caller's {n} to {target}")
        for n in ("join_method", "joiner"):
            if takes is not None and n in takes and n in L.fields:
                report(n, args.get(n) == V(("attr", SELF, n)), f"{what} does not hand its {n} to {target}")
        return
    dest = [n for n in EPOCHS if n in args] if name in EPOCHS else [name]
    if not accepted(name) and not (name in EPOCHS and any(accepted(n) for n in EPOCHS)):
        return
    v = args.get(dest[0]) if dest else None
    own_field = "shuffle_over_epochs_multiplier" if name in EPOCHS else name
    has = own_field in L.fields
    if not has:
        report(name, same(name, v, combine(name, case, False), st), f"{what} hands {show(v, st)} as {name} to {target} ({case.label})")
        return
    a = same(name, v, combine(name, case, True), st)
    b = same(name, v, combine(name, case, False), st)
    L.applied.setdefault((f, own_field), []).append((a, b, case, ev, st, v, target))


def decide(cx, L, made):
    """Does the loader apply its own settings (in all cases), or pass them to the loader it makes?"""
    for (f, n), res in sorted(L.applied.items(), key=lambda x: (x[0][0].qualname, x[0][1])):
        what = f"{L.c.name}.{f.name}"
        if n in NOT_CALLED and made:
            continue
        applies = all(r[0] for r in res)
        ignores = all(r[1] for r in res)
        cx.ok("C21.combine", f, f.node)
        if applies and not (n == MULT and made.get(n) == "applied"):
            continue
        if ignores and not made.get("*other"):
            if made.get(n) == "applied":
                continue              # the loader made by prepare() does it
            if n == MULT and not made:
                continue              # made by a reference, which multiplies already
        bad = [r for r in res if not r[0]] or res
        a, b, case, ev, st, v, target = bad[0]
        cx.bad("C21.combine", f, ev.node, f"{what} hands {show(v, st)} as {n} to {target} ({case.label})" +
               (": it is multiplied twice" if applies else ""))


def applies(L, n):
    """Does the loader itself take its own value of n into account?"""
    res = [r for (f, m), rs in L.applied.items() if m == n for r in rs]
    return bool(res) and all(r[0] for r in res)


class Prep(Monitor):
    def __init__(self, own, classes):
        self.own, self.classes = own, classes
        self.made = []
        self.other = []

    def loaded(self, t, st, ip):
        if t[0] == "attr" and t[1] == SELF and t[2] in self.own:
            return next(iter(self.own[t[2]]))
        return t

    def event(self, ev, st, ip):
        if ev.kind in ("call", "newrec") and ev.tag != "inlined":
            if ev.func and ev.func[0] == "cls" and ev.func[1] in self.classes:
                self.made.append((ev, st))
            elif ev.callee is not None and ev.callee.name == "load_config":
                self.other.append(ev)
        return NotImplemented


def prepares(p, cx, L, byname):
    """The settings handed to the loader constructed by prepare: {setting: "applied"|"given"}; "*other" if the next level
    may also be something else"""
    f = L.c.find_method("prepare")
    if f is None or f.is_abstract:
        return {}
    own = {n: V(("tok", "own", n)) for n in set(CLOSER) | {"subflavors", MULT, "join_method", "joiner"} if n in L.fields}
    if "subflavors" in own:
        own["subflavors"] = V(OWN_D)
    m = Prep(own, byname)
    ip = Interp(p, m, no_inline=("load_config",))
    ip.folds = True
    ip.run(f, L.c, heap=HEAP)
    out = {}
    if m.other:
        out["*other"] = True
    for ev, st in m.made:
        cx.fn(f)
        T = byname[ev.func[1]]
        args = dict(ev.value) if ev.kind == "newrec" else dict(ev.kwargs or {})
        seen = set()
        for n, tok in own.items():
            if n not in T.fields:
                continue
            v = args.get(n)
            good = v == tok or n == "subflavors" and v is not None and dict_of(v, st) == OWN
            if n == MULT and v == V(("const", 1)):
                v = None
            if v is not None and not good and v != VNONE:
                cx.bad("C21.prepare", f, ev.node, f"{L.c.name}.{f.name} gives {show(v, st)} as {n} to {T.c.name}")
                continue
            cx.ok("C21.prepare", f, ev.node)
            if good:
                seen.add(n)
            elif n in NOT_CALLED:
                cx.bad("C21.prepare", f, ev.node, f"{L.c.name}.{f.name} does not give its {n} to {T.c.name}")
            elif n != MULT and L.refuses:
                cx.bad("C21.prepare", f, ev.node, f"{L.c.name}.{f.name} does not give its {n} to {T.c.name}, nothing else does")
        for n in own:
            how = "applied" if n in seen and applies(T, n) else "given" if n in seen else None
            if out.get(n, how) != how:
                how = None
            out[n] = how
        if "datasets" in args:
            join_members(p, cx, L, f, ev, st, args["datasets"])
            for n in list(CLOSER) + ["subflavors"]:
                for X in (L, T):
                    d = X.c.class_attr(n) if n in T.fields and n in X.fields else None
                    d = d[0] if d else None
                    cx.check("C21.default", f, ev.node, d is None or isinstance(d, ast.Constant) and d.value is None,
                             f"{X.c.name} has a default for {n}, which replaces what its joined datasets set")
    return out


def join_members(p, cx, L, f, ev, st, v):
    """The joined loaders are all configured ones"""
    seen = reach(v, st)
    cut = [x for x in seen if x[0] == "obj" and x in st.heap and isinstance(st.heap[x][0], tuple) and st.heap[x][0][0] == "filter"]
    from_own = any(x[0] == "attr" and x[1] == SELF for x in seen) and any(x[0] == "call" for x in seen)
    cx.check("C21.prepare", f, ev.node, from_own and not cut and not any(x[0] == "slice" for x in seen),
             f"{L.c.name}.{f.name} does not hand all joined datasets to the loader")


class Weights(Monitor):
    pass


def monomial(t, st, d=0):
    """t as a product: ({factor: exponent}, constant) or None"""
    if t[0] == "const" and isinstance(t[1], (int, float)):
        return {}, t[1]
    if t[0] == "binop" and t[1] in ("Mult", "Div"):
        a, b = monomial(t[2], st), monomial(t[3], st)
        if a is None or b is None or t[1] == "Div" and b[1] == 0:
            return None
        s = 1 if t[1] == "Mult" else -1
        out = dict(a[0])
        for k, e in b[0].items():
            out[k] = out.get(k, 0) + s * e
        return {k: e for k, e in out.items() if e}, a[1] * b[1] if s == 1 else a[1] / b[1]
    if t[0] == "call" and t[1] == ("ext", "float") and len(t[2]) == 1:
        return monomial(t[2][0], st)
    return {t: 1}, 1


def is_sum(t, st):
    """Is t the sum of the weights of all elements of one collection?"""
    if t[0] == "call" and t[1] in (("ext", "sum"), ("ext", "math.fsum")) and t[2]:
        seen = reach([t[2][0]], st)
        cut = any(x[0] == "slice" or x[0] == "obj" and x in st.heap and isinstance(st.heap[x][0], tuple) and
                  st.heap[x][0][0] == "filter" for x in seen)
        return not cut and any(x[0] == "attr" and x[2] == "weight" for x in seen)
    if t[0] == "binop" and t[1] == "Add":
        return any(x[0] == "attr" and x[2] == "weight" for x in subterms(t))
    return False


def weights(p, cx, L):
    """The weights returned: the inner ones, times the normalised own ones if it is a blend"""
    f = L.c.find_method("get_datasets")
    if f is None or f.is_abstract:
        return
    m = Loads({}, sinks(p, ()))
    ip = Interp(p, m, no_inline=("get_dataset_from_config",))
    o = ip.run(f, L.c)
    what = f"{L.c.name}.{f.name}"
    for st, v, node in o.ret:
        for t in v:
            cx.ok("C21.weight", f, f.node)
            if t[0] == "call" and t[1][0] in ("attr", "bm") and inner_call(t, ip):
                if recv_elem(t):
                    cx.bad("C21.weight", f, node, f"{what} returns only one of its datasets")
                split_lookup(cx, L, f, t, node, ip)
                continue
            elems = set()
            if t[0] == "obj" and t in st.heap:
                shape, items = st.heap[t]
                if isinstance(shape, tuple) and shape[0] == "filter":
                    cx.bad("C21.weight", f, node, f"{what} leaves out some of the datasets")
                for _, vs in items:
                    for e in vs:
                        elems |= {e} if e[0] != "star" else {("elem", e[1])}
            if not elems:
                raise AnalysisBroken(f"what {f.qualname} returns is not understood")
            for e in elems:
                one_weight(cx, L, f, what, e, st, node, ip)


def inner_call(t, ip):
    n = ip.func_of(t[1]).name if t[1][0] == "bm" else t[1][2] if t[1][0] == "attr" else None
    return n in METHODS


def recv_elem(t):
    r = t[1][1]
    return r[0] in ("elem", "val") or r[0] == "sub" and r[2][0] == "const"


def split_lookup(cx, L, f, t, node, ip):
    """A loader with several splits uses the requested one"""
    r = t[1][1]
    if r[0] == "sub" or r[0] == "call" and r[1][0] == "attr" and r[1][2] == "get":
        key = r[2] if r[0] == "sub" else r[2][0] if r[2] else None
        cx.check("C21.split", f, node, key == ("param", "split_part"), f"{L.c.name}.{f.name} does not load the requested split")
        other = list(r[2][1:]) + [v for _, v in r[3]] if r[0] == "call" else []
        cx.check("C21.split", f, node, all(x == ("const", None) for x in other),
                 f"{L.c.name}.{f.name} loads another split if the requested one does not exist")


def one_weight(cx, L, f, what, e, st, node, ip):
    if e[0] == "elem" and e[1][0] == "call" and inner_call(e[1], ip):
        if recv_elem(e[1]):
            cx.bad("C21.weight", f, node, f"{what} ignores the weights of the blended datasets")
        return
    if e[0] != "tuple" or len(e[1]) != 2:
        raise AnalysisBroken(f"the datasets {f.qualname} returns are not understood")
    data, w = e[1]
    if w[0] == "any":
        # the sum was added up in a loop: what it is before the loop and after several rounds tells nothing
        told = [x for x in w[1] if not any(k == ("top",) or k[0] == "const" for k in (monomial(x, st) or ({},))[0]) and
                not (x[0] == "binop" and x[1] == "Div" and x[3] in (("const", 0), ("const", 0.0)))]
        if told and any(y[0] == "binop" and y[1] == "Add" for x in told for y in subterms(x)):
            for x in told:
                one_weight(cx, L, f, what, ("tuple", (data, x)), st, node, ip)
            return
    mono = monomial(w, st)
    calls = [x for x in subterms(data) if x[0] == "call" and inner_call(x, ip)] or \
        [x for x in subterms(data) if x[0] == "call"]
    call = calls[0] if calls else None
    if mono is None or call is None:
        raise AnalysisBroken(f"the weights {f.qualname} returns are not understood")
    many = inner_call(call, ip) and name_of(call, ip) == "get_datasets"
    want = {}
    facts = dict(mono[0])
    inner = [k for k in facts if k[0] == "sub" and k[2] == ("const", 1) and any(x == call for x in subterms(k))]
    good = mono[1] == 1
    if many:
        good = good and len(inner) == 1 and facts.pop(inner[0]) == 1
        if recv_elem(call):
            own = [k for k in facts if k[0] == "attr" and k[2] == "weight" and k[1] == call[1][1]]
            good = good and len(own) == 1 and facts.pop(own[0]) == 1
            total = list(facts.items())
            good = good and len(total) == 1 and total[0][1] == -1 and is_sum(total[0][0], st)
            facts = {}
    cx.check("C21.weight", f, node, good and not facts,
             f"{what} does not return " + ("the inner weight times the dataset's share of the weights of its level" if many and
                                          recv_elem(call) else "the inner weight" if many else "weight 1 for its dataset"))


def name_of(t, ip):
    return ip.func_of(t[1]).name if t[1][0] == "bm" else t[1][2]


class Conf(Monitor):
    """get_dataset_from_config: the loaded dataset's own subflavors are `own`"""

    def __init__(self, own):
        self.own = own
        self.data = []
        self.opened = set()

    def init(self):
        return frozenset()

    @staticmethod
    def fresh(t):
        return t[0] == "call" and any(x == ("attr", "raw_to_instance") or isinstance(x, tuple) and x and x[0] in ("func",)
                                      for x in (t[1],))

    def is_dataset(self, t, ip):
        fi = ip.func_of(t[1]) if t[0] == "call" else None
        return fi is not None and fi.name == "raw_to_instance"

    def loaded(self, t, st, ip):
        if t[0] == "attr" and t[2] == "subflavors" and self.is_dataset(t[1], ip):
            return next(iter(dict(st.mon).get("subflavors", self.own)))
        return t

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.callee is not None and ev.callee.name == "raw_to_instance" and ev.tag != "inlined":
            self.data.append((ev, st))
        if ev.kind == "call" and ev.name == "open" and ev.recv is not None:
            self.opened |= reach(ev.recv if isinstance(ev.recv, frozenset) else [ev.recv], st)
        if ev.kind == "store_attr" and ev.attr == "subflavors" and any(self.is_dataset(b, ip) for b in ev.base):
            return frozenset({("subflavors", ev.value)})
        return NotImplemented


def from_config(p, cx):
    fs = [f for f in p.all_functions() if f.name == "get_dataset_from_config" and f.cls is None]
    if not fs:
        raise AnalysisBroken("get_dataset_from_config() is gone")
    f = fs[0]
    cx.fn(f)
    for o, i in itertools.product((OUTER_D, None), (OWN_D, None)):
        m = Conf(V(i) if i else VNONE)
        bind = {a.arg: V(("tok", "outer", a.arg)) for a in f.all_params()}
        bind["subflavors"] = V(o) if o else VNONE
        bind["sample_type"] = VNONE
        bind["**" + f.node.args.kwarg.arg] = V(KWARGS)
        ip = Interp(p, m, no_inline=("raw_to_instance",))
        ip.folds = True
        out = ip.run(f, bind=bind, heap=HEAP)
        if not m.data or not out.ret:
            raise AnalysisBroken(f"how {f.qualname} loads the dataset is not understood")
        want = {**(OWN if i else {}), **(OUTER if o else {})}
        for st, v, node in out.ret:
            now = dict(st.mon).get("subflavors", V(i) if i else VNONE)
            cx.check("C21.config", f, node, same("subflavors", now, [want], st),
                     f"the subflavors are {show(now, st)} when " + ("both the caller and the dataset's configuration set them" if o and i
                     else "only the caller sets them" if o else "only the dataset's configuration sets them" if i else "none are set"))
            if dict(st.heap.get(OUTER_D, HEAP[OUTER_D])[1]) != OUTER:
                cx.bad("C21.leak", f, node, "the caller's subflavors are changed in place: the tags of one dataset end up at others")
        for ev, st in m.data:
            args = named(ev, st, ev.callee)
            data = args.get(next(iter(ev.callee.params()[0])))
            have = {}
            for t in data or ():
                if t[0] == "obj" and t in st.heap:
                    have = dict(st.heap[t][1])
            for n in bind:
                if n in ("path", "dataset_config", "subflavors", "sample_type") or n.startswith("**"):
                    continue
                cx.check("C21.config", f, ev.node, have.get(n) == bind[n],
                         f"the {n} of the caller does not reach the dataset's factory")
            cx.check("C21.config", f, ev.node, have.get("extra_argument") == V(EXTRA),
                     "additional arguments do not reach the dataset's factory")
            cx.check("C21.config", f, ev.node, have.get("path") is not None and ("tok", "outer", "path") in reach(have["path"], st),
                     "the path does not reach the dataset's factory")
        cx.check("C21.config", f, f.node, ("tok", "outer", "dataset_config") in m.opened,
                 "the requested dataset_config is not what is read")


class Calls(Monitor):
    def __init__(self, sink):
        self.sink = sink
        self.calls = []

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.tag != "inlined" and self.sink(ev):
            self.calls.append((ev, st))
        return NotImplemented


def entry_points(p, cx):
    """The public functions which load the datasets of a path and build the pipeline"""
    iface = p.cls("DatasetLoaderInterface").find_method("get_datasets")
    te = p.cls("TaskEncoder")
    n = 0
    for f in p.all_functions():
        if f.cls is not None or f.outer is not None:
            continue
        names = [a.arg for a in f.all_params()]
        if "task_encoder" not in names or f.node.args.kwarg is None:
            continue
        sink = lambda ev: ev.name in ("get_datasets",) or (ev.name or "").startswith("build_") and ev.name.endswith("_datasets") \
            or ev.callee is not None and ev.callee.name == "load_dataset"
        m = Calls(sink)
        ip = Interp(p, m, no_inline=("load_dataset",))
        ip.folds = True
        bind = {x: V(("tok", "outer", x)) for x in names if x != "task_encoder"}
        bind["**" + f.node.args.kwarg.arg] = V(KWARGS)
        out = ip.run(f, bind=bind, heap=HEAP)
        kinds = {}
        for ev, st in m.calls:
            kinds.setdefault("load" if ev.name == "load_dataset" or ev.callee is not None and ev.callee.name == "load_dataset" else
                             "get" if ev.name == "get_datasets" else "build", []).append((ev, st))
        if "get" not in kinds and "build" not in kinds:
            continue
        n += 1
        cx.fn(f)
        for k in ("load", "get", "build"):
            if k not in kinds:
                raise AnalysisBroken(f"{f.qualname} has no call to {k} its datasets")
        used = set()
        for k in ("load", "get", "build"):
            for ev, st in kinds[k]:
                target = iface if k == "get" else te.find_method(ev.name) if k == "build" else ev.callee
                args = named(ev, st, target)
                accepts = {a.arg for a in target.all_params()}
                for x in names:
                    if x == "task_encoder":
                        continue
                    if x in accepts or x in args and k != "load":
                        used.add(x)
                        cx.check("C21.entry", f, ev.node, args.get(x) == bind[x],
                                 f"{f.qualname} hands {show(args.get(x), st)} as {x} to {ev.name or target.name}")
                if k == "get":
                    cx.check("C21.entry", f, ev.node, args.get("extra_argument") == V(EXTRA),
                             f"{f.qualname} does not hand the additional arguments to the datasets")
                    train = any(e.name == "build_train_datasets" for e, _ in kinds["build"])
                    cx.check("C21.entry", f, ev.node, args.get("training") == V(("const", train)),
                             f"{f.qualname} loads the datasets with training={show(args.get('training'), st)}")
                    cx.check("C21.entry", f, ev.node, any(x[0] == "call" and ip.func_of(x[1]) is not None and
                             ip.func_of(x[1]).name == "load_dataset" for x in reach([ev.func], st)) ,
                             f"{f.qualname} does not use the datasets loaded from the path")
                if k == "build":
                    ds = args.get("datasets")
                    cx.check("C21.entry", f, ev.node, ds is not None and any(
                             x[0] == "call" and x[1][0] == "attr" and x[1][2] == "get_datasets" or x[0] == "call" and x[1][0] == "bm" and
                             ip.func_of(x[1]).name == "get_datasets" for x in reach(ds, st)),
                             f"{f.qualname} does not build the loaded datasets")
        for x in names:
            if x != "task_encoder":
                cx.check("C21.entry", f, f.node, x in used, f"{f.qualname} ignores its argument {x}")
    return n


class Blend(Monitor):
    def __init__(self):
        self.made = []
        self.picks = []
        self.subs = []

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.func and ev.func[0] == "cls" and ev.func[1].split(".")[-1].split(":")[-1] == "BlendDataset":
            self.made.append((ev, st))
        if ev.kind == "call" and ev.name == "choice_idx":
            self.picks.append((ev, st))
        if ev.kind == "load_sub":
            self.subs.append((ev, st))
        return NotImplemented


def filters(v, st):
    return any(x[0] == "obj" and x in st.heap and isinstance(st.heap[x][0], tuple) and st.heap[x][0][0] == "filter"
               for x in reach(v, st))


def blending(p, cx):
    """Each dataset is blended with its own weight"""
    n = 0
    for c in p.subclasses(p.cls("TaskEncoder"), strict=False):
        for f in c.methods.values():
            if not any(isinstance(x, ast.Name) and x.id == "BlendDataset" for x in ast.walk(f.node)):
                continue
            m = Blend()
            Interp(p, m).run(f, c)
            for ev, st in m.made:
                cx.fn(f)
                n += 1
                pairs = set()
                for v in ev.args:
                    for t in v:
                        src = t[1] if t[0] == "star" else t
                        if src[0] == "tuple":
                            pairs.add(src)
                        elif src[0] == "obj" and src in st.heap:
                            pairs |= {e for _, vs in st.heap[src][1] for e in vs}
                pairs = {e for e in pairs if e[0] == "tuple" and len(e[1]) == 2}
                if not pairs:
                    raise AnalysisBroken(f"the arguments of BlendDataset in {f.qualname} are not understood")
                for e in pairs:
                    d, w = e[1]
                    base = [x[1] for x in subterms(d) if x[0] == "sub" and x[2] == ("const", 0)]
                    cx.check("C21.blend", f, ev.node, w[0] == "sub" and w[2] == ("const", 1) and w[1] in base,
                             f"{f.qualname} does not blend each dataset with its own weight")
                cx.check("C21.blend", f, ev.node, not filters([x for v in ev.args for x in v], st),
                         f"{f.qualname} leaves out datasets when blending")
    b = p.cls("BlendDataset")
    f = b.find_method("__iter__")
    m = Blend()
    Interp(p, m).run(f, b)
    if not m.picks:
        raise AnalysisBroken(f"{f.qualname} no longer picks datasets by choice_idx")
    for ev, st in m.picks:
        n += 1
        cx.fn(f)
        vals = [t for v in list(ev.args) + list(ev.kwargs.values()) for t in v]
        res = ev.result or ()
        used = [(e, s) for e, s in m.subs if any(x in (e.index or ()) for x in res)]
        w = filters(vals, st)
        for e, s in used:
            lists = [{x for x in reach(v, s) if x[0] == "obj" and x[1] == "list"} for v in (e.base, vals)]
            cx.check("C21.blend", f, e.node, filters(e.base, s) == w or lists[0] & lists[1] or
                     any(x in s.heap and not isinstance(s.heap[x][0], tuple) for x in lists[0] | lists[1]),
                     f"{f.qualname}: the list indexed with the drawn number does not contain the same datasets as the weights")
        cx.check("C21.blend", f, ev.node, bool(used), f"{f.qualname} does not use the drawn index")
    return n


def tags(p, cx):
    """Samples get the subflavors the dataset has when they are loaded"""
    n = 0
    for c in p.subclasses(p.cls("BaseCoreDatasetFactory"), strict=False):
        for f in c.methods.values():
            for x in ast.walk(f.node):
                if not isinstance(x, ast.Dict):
                    continue
                for k, v in zip(x.keys, x.values):
                    if not (isinstance(k, ast.Constant) and k.value in ("__subflavor__", "__subflavors__")):
                        continue
                    attr = k.value.strip("_")
                    n += 1
                    cx.fn(f)
                    e = v.values[0] if isinstance(v, ast.BoolOp) else v
                    inner = any(isinstance(y, (ast.Lambda, ast.FunctionDef)) and any(z is x for z in ast.walk(y)) and y is not f.node
                                for y in ast.walk(f.node)) or f.name != "__init__"
                    own = isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and e.attr == attr
                    if isinstance(e, ast.Name):
                        # a captured local which is the attribute's object
                        own = any(isinstance(y, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in y.targets)
                                  and isinstance(y.value, ast.Name) and y.value.id == e.id for y in walk_own(f.node)) and attr == "subflavors"
                    cx.check("C21.tags", f, x, inner and own, f"{f.qualname} does not tag the samples with the current {attr} of the dataset")
    return n


class Report:
    """cx with constructs made of the function and the message"""

    def __init__(self, cx):
        self.cx = cx
        self.n = 0

    def ok(self, rule, f, node):
        self.n += 1
        self.cx.ok(rule, f.qualname, f.loc(node))

    def bad(self, rule, f, node, msg):
        self.cx.bad(rule, f"{f.qualname}: {msg}", f.loc(node), self.cx.rules[rule])

    def check(self, rule, f, node, cond, msg):
        self.ok(rule, f, node) if cond else self.bad(rule, f, node, msg)
        return bool(cond)

    def fn(self, f):
        self.cx.fn(f)


def check(p, cx):
    cx.rule("C21.forward", "every loader hands training, split, worker configuration, subflavors, multiplier and additional "
            "arguments to the next level unchanged")
    cx.rule("C21.combine", "where a loader has own settings, they are combined with the caller's: own split first, outer subflavor "
            "and outer tags first, multipliers multiplied once (-1 stays infinite)")
    cx.rule("C21.prepare", "settings not applied on the way are given to the loader which is constructed for the reference")
    cx.rule("C21.default", "a loader which overrides settings of its members does so only if they are set explicitly")
    cx.rule("C21.leak", "combining subflavors changes neither the caller's nor the loader's dict")
    cx.rule("C21.weight", "the weight of a dataset is the inner weight, times its share of the weights of the blend")
    cx.rule("C21.split", "a metadataset uses the requested split")
    cx.rule("C21.path", "relative paths are looked up in the folder of the metadataset file which names them")
    cx.rule("C21.all", "everything a metadataset loads datasets from has been prepared")
    cx.rule("C21.order", "joined datasets keep the configured order")
    cx.rule("C21.config", "what was given reaches the dataset's factory; outer subflavors override the configured ones")
    cx.rule("C21.entry", "the public functions hand each of their arguments to the loader or the pipeline")
    cx.rule("C21.blend", "every dataset is blended with its own weight")
    cx.rule("C21.tags", "samples carry the subflavors of their dataset")
    out = cx
    cx = Report(out)
    ls = loaders(p)
    byname = {L.c.qualname: L for L in ls}
    # loaders without prepare() first: the others construct them
    ls.sort(key=lambda L: L.c.find_method("prepare") is not None)
    for L in ls:
        forwarding(p, cx, L, {})
    for L in ls:
        made = prepares(p, cx, L, byname)
        decide(cx, L, made)
        if not L.refuses:
            weights(p, cx, L)
    out.floor("loader settings followed", cx.n, 60)
    metapaths.check(p, cx, ls, {L.c.qualname: L.asked for L in ls}, byname)
    from_config(p, cx)
    if entry_points(p, cx) < 3:
        raise AnalysisBroken("the functions building the train and val datasets are gone")
    blending(p, cx)
    tags(p, cx)
    out.notes.append(f"{len(ls)} loader classes")
