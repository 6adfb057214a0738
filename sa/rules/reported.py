"""C20: the reported configuration contains every setting that shapes the samples."""
from ..flow import Interp, Monitor, subterms
from ..model import AnalysisBroken
from . import keys as K
from . import errors as E

SELF = ("self",)
#: a change of these makes the run fail, but never produce other samples
WORKER = "worker_config"


def outer(t):
    """Subterms, without the arguments of objects built on the way"""
    if t[0] == "call" and t[1][0] == "cls":
        yield t
        return
    kids = set()
    for x in subterms(t):
        if x[0] == "call" and x[1][0] == "cls":
            kids |= set(subterms(x)) - {x}
    for x in subterms(t):
        if x not in kids:
            yield x


LOSSY = {"len", "bool", "any", "all", "min", "max", "isinstance", "callable", "id", "hash", "hasattr"}


def kept_terms(t):
    """Subterms, without what only a summary of is taken of"""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
            if t[0] == "call" and t[1][0] == "ext" and t[1][1] in LOSSY or t[0] == "cmp":
                return
        for x in t:
            if isinstance(x, tuple):
                yield from kept_terms(x)


def deep(v, st, env=None, seen=None, walk=subterms):
    """All subterms of the values, following the contents of objects and the attributes set before"""
    seen = set() if seen is None else seen
    out = set()
    for t in v or ():
        for x in walk(t):
            out.add(x)
            if x in seen:
                continue
            if x[0] == "obj" and x in st.heap:
                seen.add(x)
                shape, items = st.heap[x]
                if isinstance(shape, tuple):
                    out |= deep([y for y in shape if isinstance(y, tuple)], st, env, seen, walk)
                for k, vs in items:
                    if isinstance(k, tuple) and k and k[0] == "k":
                        out |= deep([k[1]], st, env, seen, walk)
                    out |= deep(vs, st, env, seen, walk)
            if env and x[0] == "attr" and x[1] == SELF and x[2] in env:
                seen.add(x)
                out |= deep(env[x[2]], st, None, seen, walk)
    return out


class Ctor(Monitor):
    """mon: what each attribute was set to last"""

    def __init__(self):
        self.built = []

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind == "store_attr" and SELF in ev.base:
            env = dict(st.mon)
            env[ev.attr] = frozenset(deep(ev.value, st, env))
            return frozenset(env.items())
        if ev.kind == "call" and ev.func and ev.func[0] == "cls":
            env = dict(st.mon)
            args = [frozenset(deep(v, st, env, None, outer)) for v in ev.args]
            kw = {k: frozenset(deep(v, st, env, None, outer)) for k, v in ev.kwargs.items()}
            self.built.append((ev.func[1], args, kw, ev))
        return NotImplemented


def final(p, c, init, bind=None):
    """What the attributes hold after the constructor: {attribute: terms}"""
    m = Ctor()
    o = Interp(p, m).run(init, c, bind=bind) if bind else Interp(p, m).run(init, c)
    env = {}
    for s in [s for s, _, _ in o.ret] + list(o.normal or ()):
        for a, v in s.mon:
            env[a] = env.get(a, frozenset()) | v
    return env, m


class Conf(Monitor):
    """mon: attributes known to hold one certain value on this path (nothing, or a constant), decisions on the way"""

    def __init__(self):
        self.branch = set()

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind == "branch":
            self.branch |= {x for t in ev.cond for x in subterms(t)}
            got = {a for t in ev.cond for a in one_value(t, ev.taken)} | \
                {(t, ev.taken) for t in ev.cond if any(x[0] == "attr" and x[1] == SELF for x in subterms(t))}
            return st.mon | got if got else NotImplemented
        return NotImplemented


def one_value(t, taken):
    """Attributes of self which hold one certain (or no) value if the condition is decided like this"""
    while True:
        if t[0] == "not" or t[0] == "unop" and t[1] == "Not":
            t, taken = t[-1], not taken
        elif t[0] == "call" and t[1] in (("ext", "bool"), ("ext", "len")) and len(t[2]) == 1:
            t = t[2][0]
        else:
            break
    if t[0] == "attr" and t[1] == SELF:
        return {t[2]} if not taken else set()
    if t[0] == "cmp":
        xs = [x[2][0] if x[0] == "call" and x[1] == ("ext", "len") and len(x[2]) == 1 else x for x in t[2:]]
        if xs[0][0] in ("const", "obj"):
            xs.reverse()
        if xs[0][0] == "attr" and xs[0][1] == SELF and xs[1][0] in ("const", "obj"):
            same = t[1] in ("Is", "Eq") and taken or t[1] in ("IsNot", "NotEq") and not taken or \
                t[1] in ("Gt", "GtE", "Lt", "LtE") and any(x[0] == "call" and x[1] == ("ext", "len") for x in t[2:])
            return {xs[0][2]} if same else set()
    return set()


class Config:
    """What config() of a class reports"""

    def __init__(self, p, c):
        self.f = c.find_method("config")
        m = Conf()
        ip = Interp(p, m)
        o = ip.run(self.f, c)
        self.terms = set()
        self.filtered = set()
        self.states = []
        paths = []
        for st, v, _ in o.ret:
            got = deep(v, st)
            self.terms |= got
            self.states.append(st)
            paths.append((st, {x[2] for x in got if x[0] == "attr" and x[1] == SELF}))
        if not o.ret or not self.terms:
            raise AnalysisBroken(f"what {self.f.qualname} returns is not understood")
        for st, v, _ in o.ret:
            for x in self.terms:
                if x[0] == "obj" and x in st.heap and isinstance(st.heap[x][0], tuple) and st.heap[x][0][0] == "filter":
                    self.filtered |= {y for t in st.heap[x][0][1:] for y in subterms(t)}
        self.attrs = {x[2] for x in self.terms if x[0] == "attr" and x[1] == SELF}
        # parts of an attribute only
        self.partial = {x[2] for x in self.filtered if x[0] == "attr" and x[1] == SELF} | \
            {x[1][2] for x in self.terms if (x[0] == "slice" or x[0] == "sub" and x[2][0] == "const" and isinstance(x[2][1], int)) and
             x[1][0] == "attr" and x[1][1] == SELF}
        whole = {x[2] for st, v, _ in o.ret for x in deep(v, st, walk=kept_terms) if x[0] == "attr" and x[1] == SELF}
        self.partial |= {a for a in self.attrs - whole if (p.attr_type(c, a) or ("",))[:2] != ("ext", "bool")}
        self.attrs -= self.partial
        # left out on some path although it may hold anything there -> attributes known to be nothing on these paths
        self.sometimes = {}
        for st, got in paths:
            none = {x[0][2] for x in st.facts if x[1] in ("none", "false") and x[0][0] == "attr" and x[0][1] == SELF}
            for a in self.attrs - got:
                if a not in st.mon | none:
                    self.sometimes[a] = self.sometimes.get(a, none) & none
        self.attrs -= set(self.sometimes)
        self.conds = {x[2] for x in m.branch if x[0] == "attr" and x[1] == SELF}
        self.nested = {}
        for call in self.terms:
            if call[0] != "call":
                continue
            recv = call[1][1] if call[1][0] == "attr" and call[1][2] == "config" or \
                call[1][0] == "bm" and ip.func_of(call[1]).name == "config" else None
            for x in subterms(recv) if recv else ():
                if x[0] == "attr" and x[1] == SELF:
                    cut = any(y[0] == "slice" for y in subterms(recv)) or x in self.filtered or \
                        any(y[0] == "sub" and y[1] == x and y[2][0] == "const" and isinstance(y[2][1], int)
                            for y in subterms(recv))
                    self.nested[x[2]] = self.nested.get(x[2], True) and not cut
        self.typed = any(x[0] == "attr" and x[2] in ("__qualname__", "__name__") and
                         any(y[0] == "call" and y[1] == ("ext", "type") or y[0] == "attr" and y[2] == "__class__"
                             for y in subterms(x[1])) for x in self.terms) or \
            any(x == ("const", c.name) for x in self.terms)


    def incomplete(self, p, c):
        """Elements of which only some parts are reported"""
        out = set()
        for a in self.attrs | self.partial:
            ty = p.attr_type(c, a)
            while ty and ty[0] == "list":
                ty = ty[1]
            A = ("attr", SELF, a)
            used = [x for x in self.terms if x[0] in ("sub", "attr") and any(y == A for y in subterms(x[1])) and
                    any(y[0] == "elem" for y in subterms(x[1]))]
            whole = any(x == A for t in self.terms if t[0] == "call" and t[1][0] == "ext" for x in t[2])
            if not used or whole:
                continue
            if ty and ty[0] == "tuple" and isinstance(ty[1], tuple) and len(ty[1]) > 1:
                got = {x[2][1] for x in used if x[0] == "sub" and x[2][0] == "const"}
                if got:
                    out |= {(a, f"part {i}") for i in range(len(ty[1])) if i not in got}
            got = {x[2] for x in used if x[0] == "attr"}
            if got & {"path", "offset", "count"}:
                out |= {(a, f) for f in ("path", "offset", "count") if f not in got}
        return out

    def unsorted(self, p, c):
        sets = {a for a in self.attrs if (p.attr_type(c, a) or ("",))[0] == "set" or is_set(c, a)}
        out = set()
        for st in self.states:
            for x in self.terms:
                if x[0] == "call" and x[1][0] == "ext" and x[1][1] in ("list", "tuple") and x[2]:
                    t = x[2][0]
                elif x[0] == "obj" and x[1] == "list" and x in st.heap and isinstance(st.heap[x][0], tuple) and len(st.heap[x][0]) > 1:
                    t = st.heap[x][0][1]
                else:
                    continue
                if t[0] == "attr" and t[1] == SELF and t[2] in sets:
                    out.add(t[2])
        return out


def is_set(c, a):
    import ast
    for b in c.mro():
        if a in b.annots:
            return ast.unparse(b.annots[a]).split("[")[0].split(".")[-1] in ("Set", "set", "FrozenSet", "frozenset", "AbstractSet")
    return False


class Passes(Monitor):
    """Does the class hand on exactly what it gets?  mon: an element is at hand"""

    def __init__(self, attrs):
        self.attrs = attrs
        self.ok = True
        self.yields = 0
        self.at = None

    def init(self):
        return (None, False)

    def source(self, v):
        return bool(v) and all(t[0] == "attr" and t[1] == SELF and t[2] in self.attrs or
                               t[0] == "call" and t[1] == ("ext", "iter") and self.source(t[2][:1])
                               for t in v)

    def event(self, ev, st, ip):
        at, end = st.mon
        if ev.kind == "next" and self.source(ev.value):
            if at is not None or end:
                self.ok = False
            return ("got", end)
        if ev.kind == "yield_from":
            self.yields += 1
            if not self.source(ev.value) or end:
                self.ok = False
            return (at, True)
        if ev.kind == "yield":
            self.yields += 1
            v = ev.value or ()
            if not v or not all(t[0] == "elem" and self.source([t[1]]) for t in v) or at is None:
                self.ok = False
            return (None, end)
        if ev.kind == "exhausted" and self.source(ev.value):
            if at is not None or end:
                self.ok = False
            return (at, True)
        return NotImplemented


def transparent(p, c):
    it = c.find_method("__iter__")
    ds = K.dataset_attrs(p, c)
    if it is None or not ds or it.is_abstract:
        return False
    m = Passes(set(ds))
    o = Interp(p, m).run(it, c)
    ends = [s for s, _, _ in o.ret] + list(o.normal or ())
    return bool(m.ok and m.yields and ends and all(s.mon == (None, True) for s in ends))


def concrete(c):
    names = {n for b in c.mro() for n in b.methods}
    return not any(c.find_method(n).is_abstract for n in names if c.find_method(n) is not None)


def has_config(c):
    f = c.find_method("config")
    return f is not None and not f.is_abstract


def is_loader(p, c):
    return any("DataLoader" in b for b in ext_bases(c))


def ext_bases(c):
    import ast
    return [ast.unparse(b) for x in c.mro() for b in x.node.bases]


class Facts:
    def __init__(self, p):
        self.p = p
        self.conf = {}
        self.env = {}
        self.cov = {}
        self.built = {}
        self.loaders = [c for c in p.classes() if has_config(c) and is_loader(p, c)]
        self.wrappers = set()
        for c in self.loaders:
            init = c.find_method("__init__")
            if init is not None:
                _, m = final(p, c, init)
                self.wrappers |= {b[0] for b in m.built}

    def config(self, c):
        if c not in self.conf:
            self.conf[c] = Config(self.p, c)
        return self.conf[c]

    def after(self, c, init):
        k = (c, init)
        if k not in self.env:
            self.env[k] = final(self.p, c, init)
        return self.env[k]

    def of(self, fullname):
        return next((c for c in self.p.classes() if c.qualname == fullname), None)

    def made(self, c):
        """Objects built by the other methods of the class: (class, parameter, terms)"""
        if c not in self.built:
            out = []
            for n in ("build",):
                f = c.find_method(n)
                if f is not None and not f.is_abstract:
                    m = Ctor()
                    Interp(self.p, m).run(f, c)
                    out += m.built
            self.built[c] = out
        return self.built[c]

    def covered(self, c, init, param, depth=0):
        """Is the parameter of this constructor of class c visible in what c reports?"""
        key = (c, init, param)
        if key in self.cov:
            return self.cov[key]
        self.cov[key] = False
        cf = self.config(c)
        env, m = self.after(c, init)
        P = ("param", param)
        targets = {a for a, v in env.items() if P in v}
        # left out only where what is built with it does not exist
        attrs = cf.attrs | {a for a, bs in cf.sometimes.items() if any(P in env.get(b, ()) for b in bs)}
        r = bool(targets & attrs or is_flag(init, param) and targets & cf.conds)
        kept = {a for a in targets if all(t == P or t[0] == "const" for t in env[a])}
        if kept and not depth and param != WORKER:
            r = bool(kept & (attrs | (cf.conds if is_flag(init, param) else set())))
        if not r and depth < 3 and (not kept or depth or param == WORKER):
            # handed to an object which reports it and is itself reported
            for name, args, kw, ev in m.built:
                r = r or self.passed(name, args, kw, lambda ts: P in ts, depth, "ctor")
            for name, args, kw, ev in self.made(c):
                r = r or self.passed(name, args, kw, lambda ts: any(x[0] == "attr" and x[1] == SELF and x[2] in targets
                                                                    for x in ts), depth, "build")
        if not r and is_flag(init, param):
            # the parameter decides what a reported attribute holds
            seen = {}
            for val in (True, False, None):
                e, _ = final(self.p, c, init, bind={param: frozenset({("const", val)})})
                for a in cf.attrs | cf.conds:
                    seen.setdefault(a, set()).add(e.get(a))
            r = any(len(v) > 1 for v in seen.values()) and not targets
        self.cov[key] = r
        return r

    def passed(self, name, args, kw, test, depth, how):
        k = self.of(name)
        if k is None or not has_config(k) or k.find_method("__init__") is None:
            return False
        init = k.find_method("__init__")
        ps, kwonly = init.params()
        ps = ps[1:] if ps and ps[0] == "self" else ps
        hit = [ps[i] for i, v in enumerate(args) if i < len(ps) and test(v)] + [n for n, v in kw.items() if test(v)]
        if any(test(v) for v in args[len(ps):]):
            va = init.node.args.vararg
            if va is not None:
                hit.append(va.arg)
        return any(self.covered(k, init, h, depth + 1) for h in hit)


def check(p, cx):
    cx.rule("C20.setting", "every constructor parameter of a dataset reaches a value its config() reports, unless the dataset hands "
            "on its samples unchanged or the parameter only handles errors")
    cx.rule("C20.nested", "config() contains the configuration of every inner dataset")
    cx.rule("C20.type", "config() names the type of the dataset")
    cx.rule("C20.factory", "what a factory builds reports the configuration of the factory")
    cx.rule("C20.parts", "of the weighted datasets all parts are reported, of the shards their path, offset and count")
    cx.rule("C20.order", "sets are reported in a fixed order")
    cx.rule("C20.worker", "everything the seed and number of a worker are derived from is reported")
    F = Facts(p)
    n = {"s": 0, "n": 0}
    done = set()
    for c in p.classes():
        if not has_config(c) or not concrete(c) or c.find_method("__init__") is None:
            continue
        iterates = c.find_method("__iter__") is not None
        builds = c.find_method("build") is not None
        if not iterates and not builds:
            continue
        loader = c in F.loaders or c.qualname in F.wrappers
        cf = F.config(c)
        cx.fn(cf.f)
        ds = set(K.dataset_attrs(p, c))
        env, _ = F.after(c, c.find_method("__init__"))
        if builds and not iterates:
            ds |= inner_factories(p, c)
        ds = {a for a in ds if a in env and not derived(a, ds, env)}
        if c in F.loaders:
            ds.add("dataset")      # kept by torch's DataLoader
        for a in sorted(ds):
            n["n"] += 1
            cx.check(cf.nested.get(a, False), "C20.nested", f"{c.name}.{a}", cf.f.loc(),
                     f"the configuration of {a} is {'only partly ' if a in cf.nested else 'not '}contained")
        for a, what in sorted(cf.incomplete(p, c)):
            cx.bad("C20.parts", f"{c.name}.{a}:{what}", cf.f.loc(), f"{what} of the elements of {a} is not reported")
        for a in sorted(cf.unsorted(p, c)):
            cx.bad("C20.order", f"{c.name}.{a}", cf.f.loc(), f"the elements of the set {a} are reported in arbitrary order")
        tr = transparent(p, c)
        if tr:
            cx.notes.append(f"{c.name} hands on its samples unchanged")
        if loader or tr:
            continue
        cx.check(cf.typed, "C20.type", c.name, cf.f.loc(), "the type of the dataset is not reported")
        handlers = set(E.handler_attrs(p, c))
        for b, init, params in chain(p, c):
            cx.fn(init)
            env, m = F.after(c, init)
            for a in params:
                targets = {x for x, v in env.items() if ("param", a.arg) in v}
                if targets and targets <= handlers or a.arg in HANDLERS:
                    continue
                if a.arg == WORKER and (ds or builds and not iterates and F.covered(c, init, a.arg)) or single_choice(a):
                    continue
                by = {how: {x for x, v in env.items() if any(named_part(y, a.arg, how) for t in v for y in subterms(t))}
                      for how in ("keys", "values")}
                if by["values"] and not any(("param", a.arg) in v and x in cf.attrs for x, v in env.items() if x not in ds):
                    cx.check(by["keys"] & cf.attrs, "C20.setting", f"{b.name}.{a.arg} names", init.loc(),
                             f"the names given to the parts of {a.arg} are not contained in the reported configuration")
                key = (b.name if b is not c else c.name, a.arg)
                n["s"] += 1
                ok = F.covered(c, init, a.arg) 
                if ok and key in done:
                    continue
                done.add(key)
                cx.check(ok, "C20.setting", f"{key[0]}.{key[1]}", init.loc(),
                         f"the setting {a.arg} is not contained in the reported configuration")
        if builds and not iterates:
            f = c.find_method("build")
            m = Refs(cf.f)
            Interp(p, m).run(f, c)
            cx.fn(f)
            cx.check(m.found, "C20.factory", c.name, f.loc(), "the configuration of the factory is not reported by what it builds")
    if n["s"] < 20 or n["n"] < 10:
        raise AnalysisBroken("the settings of the datasets are not found")
    worker(p, cx)


class Supers(Monitor):
    """Parameters given explicitly to the constructors of base classes"""

    def __init__(self):
        self.given = {}

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.tag == "inlined" and ev.name == "__init__" and ev.recv == SELF and ev.callee is not None:
            f = ev.callee
            ps = [a.arg for a in f.all_params()][1:]
            g = self.given.setdefault(f.node, (set(), []))
            g[0].update(ps[:len(ev.args)] if len(ev.args) <= len(ps) else ps)
            g[0].update(k for k in ev.kwargs if k != "**")
            g[1].append("**" in ev.kwargs)
        return NotImplemented


def chain(p, c):
    """(class, constructor, parameters a user can set) along the bases of a class"""
    first = c.find_method("__init__")
    m = Supers()
    Interp(p, m).run(first, c)
    out = []
    for b in c.mro():
        init = b.methods.get("__init__")
        if init is None:
            continue
        params = [a for a in init.all_params()[1:] if a is not init.node.args.kwarg]
        if init is not first:
            g = m.given.get(init.node)
            if g is None or not any(g[1]):
                continue
            params = [a for a in params if a.arg not in g[0]]
        out.append((b, init, params))
    return out


def named_part(t, param, how):
    """The keys / the values of a dictionary given as parameter"""
    P = ("param", param)
    return t[0] == "call" and t[1] == ("attr", P, how) or t == ({"keys": "key", "values": "val"}[how], P)


def is_flag(init, param):
    import ast
    a = next(a for a in init.all_params() if a.arg == param)
    return a.annotation is not None and ast.unparse(a.annotation) in ("bool", "Optional[bool]", "bool | None")


def single_choice(a):
    """Literal["x"]: there is nothing to tell apart"""
    import ast
    n = a.annotation
    if isinstance(n, ast.Subscript) and ast.unparse(n.value).split(".")[-1] == "Optional":
        n = n.slice
    return isinstance(n, ast.Subscript) and ast.unparse(n.value).split(".")[-1] == "Literal" and not isinstance(n.slice, ast.Tuple)


HANDLERS = ("handler", "error_handler")


def inner_factories(p, c):
    """Attributes holding (lists of) further factories"""
    makers = [x for x in p.classes() if x.find_method("build") is not None]
    out = set()
    for b in c.mro():
        for a in list(b.annots):
            ty = p.attr_type(c, a)
            while ty and ty[0] in ("list", "dict", "tuple"):
                ty = ty[1] if not isinstance(ty[1], tuple) or ty[1] and isinstance(ty[1][0], str) else ty[1][0]
            if ty and ty[0] == "cls" and ty[1] in makers:
                out.add(a)
    return out


def derived(a, attrs, env):
    """An object built around an inner dataset which is an attribute of its own"""
    ps = {t for t in env[a] if t[0] == "param"}
    return any(t[0] == "call" and t[1][0] == "cls" or t[0] == "obj" and t[1] != "list" for t in env[a]) and \
        any(b != a and b in env and {t for t in env[b] if t[0] == "param"} & ps and
            not any(t[0] == "call" and t[1][0] == "cls" for t in env[b]) for b in attrs)


class Refs(Monitor):
    """Is config (or its result) of the factory given to what is built?"""

    def __init__(self, f):
        self.f = f
        self.found = False

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.func and ev.func[0] == "cls":
            for v in list(ev.args) + list(ev.kwargs.values()):
                for x in deep(v, st):
                    if x[0] == "bm" and ip.func_of(x).name == "config" or x[0] == "attr" and x[1] == SELF and x[2] == "config" or \
                            x[0] == "func" and ip.func_of(x) is self.f:
                        self.found = True
        if ev.kind == "call" and ev.func and ev.func[0] in ("bm", "func") and ev.name == "config" and ev.tag != "inlined":
            self.found = self.found
        return NotImplemented


class Loads(Monitor):
    def __init__(self):
        self.read = set()

    def event(self, ev, st, ip):
        for v in [ev.value, ev.cond, ev.base] + list(ev.args or ()) + [frozenset({ev.recv}) if ev.recv else None]:
            if isinstance(v, frozenset):
                self.read |= {x[2] for t in v for x in subterms(t) if x[0] == "attr" and x[1] == SELF}
        if ev.kind == "load_attr" and SELF in ev.base:
            self.read.add(ev.attr)
        return NotImplemented


def worker(p, cx):
    c = p.cls("WorkerConfig", must=True)
    cf = Config(p, c)
    cx.fn(cf.f)
    fields = set(c.all_fields())
    n = 0
    read = set()
    for name in ("worker_seed", "global_worker_id", "rank_worker_id"):
        f = c.find_method(name)
        if f is None:
            raise AnalysisBroken(f"WorkerConfig.{name} is not found")
        cx.fn(f)
        m = Loads()
        o = Interp(p, m).run(f, c)
        read |= m.read
        for st, v, _ in o.ret:
            read |= {x[2] for x in deep(v, st) if x[0] == "attr" and x[1] == SELF}
    for a in sorted(read & fields):
        n += 1
        cx.check(a in cf.attrs, "C20.worker", f"WorkerConfig.{a}", cf.f.loc(), f"{a} is not contained in the reported configuration")
    for a in ("num_workers", "world_size"):
        if a in fields and a not in read:
            n += 1
            cx.check(a in cf.attrs, "C20.worker", f"WorkerConfig.{a}", cf.f.loc(), f"{a} is not contained in the reported configuration")
    if n < 3:
        raise AnalysisBroken("what the seed of a worker is derived from is not found")
