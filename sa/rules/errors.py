"""C08: what becomes of an error or a skip raised by user code, by simulating the
iteration of every dataset with one exception class at a time."""
import ast

from ..flow import Interp, Monitor, is_attr, subterms
from ..model import AnalysisBroken, BUILTIN_EXC, Global, walk_own
from .keys import alts, dataset_attrs, strip, user_fn_attrs

SKIP = ("SkipSample",)
ORDINARY = ("ValueError", "KeyError", "ZeroDivisionError", "OSError", "AttributeError", "SampleException")
SYSTEM = ("ImportError", "FatalSampleError", "MemoryError", "NameError", "RecursionError", "SyntaxError",
          "SystemError", "ReferenceError")
#: errors after which running on makes no sense; must be in the tuple of system errors
REQUIRED = set(SYSTEM) | {"StopIteration", "StopAsyncIteration"}


#: functions whose result never becomes part of a sample
NOT_PROCESSING = {("LogSampleDataset", "get_keys_fn")}


def maybe_generators(c):
    """User functions whose declared result may be a generator."""
    out = set()
    for cc in c.mro():
        g = cc.methods.get("__init__")
        if g is None:
            continue
        ps = {a.arg: a.annotation for a in g.all_params() if a.annotation is not None}
        for n in walk_own(g.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in ps:
                src = ast.unparse(ps[n.value.id])
                if "Generator" in src or "Iterator" in src or "Iterable" in src:
                    out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
    return out


def handler_attrs(p, c):
    """Attributes holding an error handler: Callable[[Exception, ...], ...]."""
    out = set()
    for cc in c.mro():
        g = cc.methods.get("__init__")
        anns = []
        if g is not None:
            ps = {a.arg: a.annotation for a in g.all_params()}
            for n in walk_own(g.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and ps.get(n.value.id) is not None:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            anns.append((t.attr, ps[n.value.id]))
        for n in cc.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                anns.append((n.target.id, n.annotation))
        for name, a in anns:
            if takes_exception(a):
                out.add(name)
    return out


def declared_shape(c):
    """{handler attribute: declared for a list of samples (True) or one (False)}"""
    out = {}
    for cc in reversed(c.mro()):
        for n in cc.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and takes_exception(n.annotation):
                for x in ast.walk(n.annotation):
                    if isinstance(x, ast.List) and len(x.elts) > 1:
                        a = x.elts[1]
                        if isinstance(a, ast.Subscript) and ast.unparse(a.value).split(".")[-1] in ("List", "list", "Sequence"):
                            out[n.target.id] = True
                        elif not any(isinstance(y, ast.Name) and y.id in ("Any", "Union", "List", "list", "Sequence") for y in ast.walk(a)):
                            out[n.target.id] = False
    return out


def takes_exception(a):
    for n in ast.walk(a):
        if isinstance(n, ast.Subscript) and ast.unparse(n.value).split(".")[-1] == "Callable" \
                and isinstance(n.slice, ast.Tuple) and n.slice.elts and isinstance(n.slice.elts[0], ast.List):
            l = n.slice.elts[0].elts
            if l and isinstance(l[0], ast.Name) and l[0].id in ("Exception", "BaseException"):
                return True
    return False


class ErrMonitor(Monitor):
    """mon = (phase, exhausted, inputs of the user function); phase: run/caught/handled/recovered/lost"""

    def __init__(self, fns, handlers, tag, kind, risky_method=None, gens=None):
        self.gens = fns if gens is None else gens
        self.fns, self.handlers, self.tag, self.kind = fns, handlers, tag, kind
        self.risky_method = risky_method
        self.streams = set()
        self.shape = {}          # handlers: are they declared for a list of samples?
        self.samples = True      # the handler is given the sample itself
        self.bad = {}
        self.sites = {}

    def init(self):
        return ("run", False, frozenset(), False)

    # -- sites
    def user_call(self, ev, ip):
        if ev.kind != "call" or ev.func is None:
            return None
        f = ev.func
        if is_attr(f, ("self",)) and f[2] in self.fns:
            return f[2]
        if self.risky_method is not None and self.risky_method(ev, ip):
            return ev.name
        if f == ("ext", "next") and ev.args:
            for t in ev.args[0]:
                u = self.user_gen(t)
                if u:
                    return u
        return None

    def user_gen(self, t):
        for x in alts(t):
            x = strip(x)
            if x[0] == "call" and is_attr(x[1], ("self",)) and x[1][2] in self.gens and x[1][2] in self.fns:
                return x[1][2]
        return None

    def site(self, ev, ip):
        u = self.user_call(ev, ip)
        if u is None and ev.kind == "next":
            for t in ev.value:
                u = u or self.user_gen(t)
        if u is None and ev.kind == "yield_from":
            for t in ev.value:
                u = u or self.user_gen(t)
        return u

    def source(self, v):
        """Is this the stream of inner samples (possibly through the user's own iteration of it)?"""
        for t in v:
            for x in alts(t):
                x = strip(x)
                if self.user_gen(x):
                    if any(strip(a)[0] == "gen" for b in x[2] for a in alts(b)):
                        return True
                elif any(is_attr(y, ("self",)) and y[2] in self.streams for y in subterms(x)):
                    return True
        return False

    def inputs(self, ev, ip):
        """What the user function about to run was given."""
        if ev.kind == "call" and ev.func is not None and is_attr(ev.func, ("self",)) and ev.func[2] in self.fns:
            r = set()
            for v in list(ev.args) + list((ev.kwargs or {}).values()):
                r |= v
            return frozenset(r)
        ts = ev.value if ev.kind in ("next", "yield_from") else \
            ev.args[0] if ev.kind == "call" and ev.func == ("ext", "next") and ev.args else ()
        for t in ts or ():
            for x in alts(t):
                x = strip(x)
                if self.user_gen(x):
                    r = {y for a in x[2] for y in alts(a)} | {y for _, a in x[3] for y in alts(a)}
                    return frozenset(r)
        return None

    @staticmethod
    def other_shape(given, many, st):
        """Is a single sample given where a list is declared, or the other way round?"""
        if many:
            return bool(given) and all(
                strip(t)[0] == "elem" or strip(t)[0] == "sub" and strip(t)[1][0] == "obj" and strip(t)[1][1] == "list" and
                strip(t)[2][0] in ("const", "unop", "index") for t in given)
        return bool(given) and all(strip(t)[0] == "obj" and strip(t)[1] == "list" for t in given)

    def related(self, given, src, st):
        """Does the value given to the handler contain (or come from) the input?"""
        def reach(ts):
            seen, todo = set(), list(ts)
            while todo:
                t = todo.pop()
                if t in seen or not isinstance(t, tuple):
                    continue
                seen.add(t)
                for x in subterms(t):
                    todo.append(x)
                    h = st.heap.get(x)
                    if h is not None:
                        for _, v in h[1]:
                            todo += list(v)
            return seen
        a, b = reach(given), reach(src)
        a = {t for t in a if t[0] not in ("const", "self", "ext")}
        if any(t in a for t in src) or any(t in b for t in given):
            return True
        # both come from the same loop variable / buffer (the dataset itself is no witness)
        ca = {t for t in a if t[0] in ("elem", "obj", "call", "enter", "gen", "sub", "slice", "func")}
        return bool(ca & b)

    def raises(self, ev, st, ip):
        if ev.kind == "call" and self.is_handler(ev):
            return ("HandlerError#",)
        u = self.site(ev, ip)
        if u is not None:
            self.sites.setdefault((u, id(ev.node)), ev)
            return (self.tag,)
        return ()

    def is_handler(self, ev):
        return ev.func is not None and is_attr(ev.func, ("self",)) and ev.func[2] in self.handlers

    def note(self, what, ev):
        self.bad.setdefault(what, ev)

    def event(self, ev, st, ip):
        phase, ex, src, erred = st.mon
        k = ev.kind
        if phase in ("run", "recovered"):
            new = self.inputs(ev, ip)
            if new is not None:
                src = new
        if k == "catch":
            if ev.tag == self.tag and (phase == "run" or phase == "recovered"):
                return ("caught", ex, src, True)
            if ev.tag == "HandlerError#":
                return ("lost", ex, src, erred)
            if ev.tag == "StopIteration":
                return (phase, True, src, erred)
            return NotImplemented
        if k == "call" and self.is_handler(ev):
            if phase in ("caught", "handled") and self.kind != "ordinary":
                self.note("is given to the error handler", ev)
            elif phase == "handled":
                self.note("is given to the error handler twice", ev)
            elif phase == "caught":
                a = ev.args[0] if ev.args else frozenset()
                for v in (ev.kwargs or {}).values():
                    a = a | v if not ev.args else a
                if not any(t == ("exc", self.tag) for t in a):
                    self.note("is not what the error handler is given", ev)
                if len(ev.args) + len(ev.kwargs or {}) < 2 or (len(ev.args) > 1 and ev.args[1] <= {("const", None)}):
                    self.note("is given to the error handler without the sample", ev)
                elif len(ev.args) > 1 and self.shape.get(ev.func[2]) is not None and self.other_shape(ev.args[1], self.shape[ev.func[2]], st):
                    self.note("is given to the error handler with " + ("a single sample instead of the list of samples"
                              if self.shape[ev.func[2]] else "a list instead of the sample"), ev)
                elif self.samples and src and len(a) == 1 and not any(strip(t)[0] == "gen" for t in src):
                    given = (list(ev.args) + list((ev.kwargs or {}).values()))[1]
                    if not self.related(given, src, st):
                        self.note("is given to the error handler with something else than its sample", ev)
                return ("handled", ex, src, erred)
            return NotImplemented
        prog = k in ("next", "exhausted", "loop_back", "yield", "yield_from") or self.user_call(ev, ip) is not None
        if prog:
            if k == "exhausted" and self.source(ev.value):
                ex = True
            if phase == "caught":
                if self.kind == "ordinary":
                    self.note("is dropped without being given to the error handler", ev)
                elif self.kind == "system":
                    self.note("is swallowed, iteration goes on", ev)
            elif phase == "lost":
                self.note("raised again by the error handler is swallowed", ev)
            if k in ("yield", "yield_from") and phase in ("caught", "handled"):
                self.note("is followed by handing out a sample which was not produced", ev)
            if phase in ("caught", "handled", "lost"):
                phase = "recovered"
            # a step towards the next sample ends the episode
            if phase == "recovered" and (k in ("next", "exhausted", "yield", "yield_from")
                                         or self.user_call(ev, ip) is not None):
                phase = "run"
            return (phase, ex, src, erred)
        return NotImplemented

    def inline(self, fi, recv, ip, stack):
        if fi.cls is not None and fi.cls.name == "SampleIndex" and (fi.is_contextmanager or fi.is_generator):
            return True
        return NotImplemented


def isinst(ip):
    def classes(t):
        if t[0] == "tuple":
            r = []
            for x in t[1]:
                y = classes(x)
                if y is None:
                    return None
                r += y
            return r
        if t[0] == "cls":
            return [t[1].split(".")[-1]]
        if t[0] == "ext":
            n = t[1].split(".")[-1]
            return [{"IOError": "OSError"}.get(n, n)]
        if t[0] == "global":
            m = ip.p.modules.get(t[1])
            g = m.resolve_name(t[2]) if m else None
            if isinstance(g, Global) and isinstance(g.value, (ast.Tuple, ast.List)):
                r = []
                for e in g.value.elts:
                    r.append(ast.unparse(e).split(".")[-1])
                return r
        return None

    def hook(t, c, st, ip_):
        if t[0] != "exc" or not isinstance(t[1], str):
            return None
        cl = classes(c)
        return ip.matches(t[1], cl) if cl is not None else None
    return hook


def simulate(p, f, c, fns, handlers, tag, kind, risky=None):
    mon = ErrMonitor(fns, handlers, tag, kind, risky, maybe_generators(c))
    mon.shape = declared_shape(c)
    mon.streams = dataset_attrs(p, c)
    mon.samples = risky is None and c.name != "SingleShardReader"
    ip = Interp(p, mon)
    ip.isinst = isinst(ip)
    o = ip.run(f, c)
    for st, v, node in o.ret:
        phase, ex, _, erred = st.mon
        if phase == "caught" and kind == "ordinary":
            mon.note("is dropped without being given to the error handler", None)
        elif phase == "caught" and kind == "system":
            mon.note("is swallowed", None)
        elif phase == "lost":
            mon.note("raised again by the error handler is swallowed", None)
        elif erred and f.is_generator and not ex:
            mon.note("ends the iteration although the inner dataset has more samples", None)
    for st, t, ev in o.exc:
        if isinstance(t, tuple):
            continue
        if t not in (tag, "HandlerError#") and st.mon[0] in ("caught", "handled") and \
                (kind == "skip" or kind == "ordinary" and handlers):
            mon.note("leaves the iterator as another error", ev)
        if t == tag:
            if kind == "skip":
                mon.note("leaves the iterator as an error", ev)
            elif kind == "ordinary" and handlers:
                mon.note("is not given to the error handler but leaves the iterator", ev)
    return mon


def entries(p, c):
    """Methods which drive user code: public ones, and generators which are not consumed in place."""
    ms = {}
    for cc in reversed(c.mro()):
        ms.update(cc.methods)
    consumed, used = set(), set()
    for m in ms.values():
        for n in ast.walk(m.node):
            its = []
            if isinstance(n, (ast.For, ast.comprehension)):
                its = [n.iter]
            elif isinstance(n, ast.YieldFrom):
                its = [n.value]
            for i in its:
                if isinstance(i, ast.Call) and isinstance(i.func, ast.Attribute):
                    consumed.add(i.func.attr)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                used.add(n.attr)
    out = []
    for n, m in sorted(ms.items()):
        if m.is_abstract or m.is_static or n == "__init__":
            continue
        priv = n.startswith("_") and not n.startswith("__")
        if not priv or n not in used or m.is_generator and n not in consumed:
            out.append(m)
    return out


def datasets(p):
    """Datasets iterating and applying functions given by the user."""
    base = p.cls("SavableDataset")
    for c in sorted(p.subclasses(base), key=lambda x: x.qualname):
        f = c.find_method("__iter__")
        if f is None or f.is_abstract:
            continue
        h = handler_attrs(p, c)
        u = {x for x in user_fn_attrs(c) - h if (c.name, x) not in NOT_PROCESSING}
        yield c, f, u, h


def called_in(p, f, c, fns, risky=None):
    mon = ErrMonitor(fns, set(), "ValueError", "none", risky, maybe_generators(c))
    Interp(p, mon).run(f, c)
    return {u for u, _ in mon.sites}


def judge(p, cx, f, c, fns, handlers, risky=None, skip=True):
    n = 0
    called = called_in(p, f, c, fns, risky)
    if not called:
        return 0
    cx.fn(f)
    for kind, tags in (("skip", SKIP if skip else ()), ("ordinary", ORDINARY if handlers else ()), ("system", SYSTEM)):
        for u in sorted(called):
            bads = {}
            for tag in tags:
                def only(ev, ip, u=u):
                    return risky is not None and ev.name == u and risky(ev, ip)
                mon = simulate(p, f, c, {u} & fns, handlers, tag, kind, only if risky else None)
                for what, ev in mon.bad.items():
                    bads.setdefault(what, []).append((tag, ev))
            if not tags:
                continue
            n += 1
            name = {"skip": "a skip", "ordinary": "an ordinary error", "system": "a system error"}[kind]
            con = f"{c.name}.{f.name}/{u}/{kind}"
            if not bads:
                cx.ok("C08.outcome", con, f.loc())
            for what, lst in sorted(bads.items()):
                tag, ev = lst[0]
                cx.bad("C08.outcome", con + "/" + what, ev.loc() if ev is not None else f.loc(),
                       f"{name} ({', '.join(sorted({t for t, _ in lst}))}) raised by {u} {what}")
    return n


def c08(p, cx):
    cx.rule("C08.outcome", "for every call of a user function (and every step of a generator it returned) and every "
            "exception class: a skip continues with the next sample, an ordinary error is given once, with the "
            "sample, to the configured handler and iteration continues, a system error always leaves the iterator "
            "and never reaches the handler")
    n = 0
    for c, f, u, h in datasets(p):
        # a handler is configured only where the constructor takes one
        if u:
            n += judge(p, cx, f, c, u, h)
    cx.floor("datasets applying user functions", n, 10)
    readers(p, cx)
    wiring(p, cx)
    factories(p, cx)
    swallow(p, cx)
    system_tuple(p, cx)


def readers(p, cx):
    """Shard readers: errors of the part filter and errors while reading a shard."""
    cls = p.cls("SingleShardReader")
    n = 0
    for m in entries(p, cls):
        n += judge(p, cx, m, cls, user_fn_attrs(cls) - handler_attrs(p, cls), handler_attrs(p, cls), skip=False)

    unique = {n for n in cls.methods if not n.startswith("_") and n != "close"
              and sum(n in c.methods for c in p.classes()) == 1}

    def risky(ev, ip):
        return ev.kind == "call" and ev.recv is not None and ev.recv != ("self",) and ev.name in unique
    loader = p.cls("WebdatasetSampleLoaderDataset")
    for m in entries(p, loader):
        n += judge(p, cx, m, loader, set(), handler_attrs(p, loader), risky, skip=False)
    cx.floor("error handling of the shard readers", n, 3)


def wiring(p, cx):
    """The handler configured on a factory reaches what the factory builds."""
    cx.rule("C08.wiring", "a factory with an error handler gives it (through its filter of system errors) to every "
            "dataset and reader it constructs that takes one")
    n = 0
    from ..flow import Collector
    for c in sorted(p.classes(), key=lambda x: x.qualname):
        hs = handler_attrs(p, c)
        if not hs or any(m.is_abstract for m in [c.find_method("x") or _A] if m is not _A):
            continue
        for m in c.methods.values():
            if m.name == "__init__" or m.is_abstract or m.is_static:
                continue
            src = ast.unparse(m.node)
            col = Collector({"call", "newrec"})
            try:
                ip = Interp(p, col)
                ip.run(m, c)
            except AnalysisBroken:
                continue
            for ev, st in col.out:
                if ev.func is None or ev.func[0] != "cls":
                    continue
                k = ip.cls_of(ev.func)
                init = k.find_method("__init__") if k is not None else None
                if init is None:
                    continue
                params = [a for a in init.all_params()]
                for i, a in enumerate(params):
                    if a.annotation is None or not takes_exception(a.annotation):
                        continue
                    pos = [x.arg for x in init.node.args.args]
                    idx = pos.index(a.arg) - 1 if a.arg in pos else None
                    v = ev.arg(idx, a.arg)
                    if ev.argsplat and v is None:
                        continue
                    n += 1
                    good = v is not None and all(handler_term(t, ip, hs) for t in v)
                    cx.check(good, "C08.wiring", f"{c.name}.{m.name}/{k.name}.{a.arg}", ev.loc(),
                             f"{k.name} is built without the error handler configured on {c.name}")
            cx.fn(m)
    cx.floor("constructions taking an error handler", n, 4)


class _A:
    is_abstract = False


def handler_term(t, ip, hs):
    for x in alts(t):
        if is_attr(x, ("self",)) and x[2] in hs:
            continue
        fi = ip.func_of(x)
        if fi is not None and x[0] == "bm" and x[1] == ("self",) and "handler" in fi.name:
            continue
        if fi is not None and x[0] == "bm" and x[1] == ("self",):
            continue
        return False
    return True


def factories(p, cx):
    """Handler methods of the factories: ordinary errors go to the configured handler, system errors never."""
    cx.rule("C08.filter", "the error handlers of the dataset factories give ordinary errors to the user's handler and "
            "raise a FatalSampleError for system errors")
    base = p.cls("ErrorHandler")
    n = 0
    for m in sorted(base.methods.values(), key=lambda f: f.name):
        if m.name.startswith("_") or m.is_static:
            continue
        ps = [a for a in m.params()[0] if a != "self"]
        if not ps:
            continue
        for kind, tags in (("ordinary", ORDINARY + SKIP), ("system", SYSTEM)):
            for tag in tags:
                mon = FilterMonitor(tag, {"handler"} | handler_attrs(p, base))
                ip = Interp(p, mon)
                ip.isinst = isinst(ip)
                o = ip.run(m, base, bind={ps[0]: frozenset({("exc", tag)})})
                ends = [st.mon for st, _, _ in o.ret]
                excs = [(st.mon, t) for st, t, _ in o.exc]
                con = f"{base.name}.{m.name}/{kind}"
                n += 1
                if kind == "system":
                    ok = not ends and excs and all(h == 0 and t in SYSTEM for h, t in excs)
                    cx.check(ok, "C08.filter", con, m.loc(), f"a system error ({tag}) does not end in a fatal error")
                else:
                    ok = ends and all(h == 1 for h in ends) and all(h == 1 for h, t in excs)
                    cx.check(ok, "C08.filter", con, m.loc(),
                             f"an ordinary error ({tag}) does not reach the configured handler exactly once")
        cx.fn(m)
    cx.floor("handler methods of factories", n, 8)


class FilterMonitor(Monitor):
    def __init__(self, tag, handlers):
        self.tag, self.handlers = tag, handlers

    def init(self):
        return 0

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.func is not None and is_attr(ev.func, ("self",)) and ev.func[2] in self.handlers:
            a = ev.arg(0) or frozenset()
            return st.mon + 1 if ("exc", self.tag) in a and st.mon < 2 else 2
        return NotImplemented


def swallow(p, cx):
    """No other handler between user code and the consumer may swallow errors."""
    cx.rule("C08.swallow", "elsewhere in the packages samples pass through, no handler catches errors of user code "
            "(Exception or broader, skips or system errors) without raising again")
    n = 0
    areas = ("wrappers", "flavors", "task_encoder")
    own = {c.name for c, f, u, h in datasets(p) if u} | {"SingleShardReader", "WebdatasetSampleLoaderDataset"}
    for fi in p.all_functions():
        mod = fi.module.name.split(".")
        if not any(a in mod for a in areas) and not fi.module.name.endswith((".rng", ".worker")):
            continue
        top = fi
        while top.outer is not None:
            top = top.outer
        if top.cls is not None and top.cls.name in own and not top.name.startswith("restore"):
            continue                 # simulated above
        if top.cls is not None and top.cls.name == "WebdatasetPreparator" or mod[-1] == "prepare":
            continue                 # not on the way of samples
        for n_ in walk_own(fi.node):
            if not isinstance(n_, ast.Try):
                continue
            for h in n_.handlers:
                ip = Interp(p)
                ip.fnstack = [fi]
                cl = ip.handler_classes(h.type)
                hit = set(cl) & {"Exception", "BaseException"} or \
                    [t for t in SKIP + SYSTEM if t not in ("ReferenceError", "FatalSampleError") and ip.matches(t, cl) is True]
                if not hit:
                    continue
                n += 1
                ok = always_raises(h.body)
                cx.check(ok, "C08.swallow", f"{fi.qualname}/{'|'.join(cl)}", fi.loc(h),
                         "errors are caught and not raised again")
    cx.ok("C08.swallow", "package scan", f"{n} broad handlers")


def always_raises(body):
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return False
    return False


def system_tuple(p, cx):
    cx.rule("C08.system", "the tuple of system errors contains the errors after which iteration cannot go on, and "
            "neither the skip nor a class of ordinary errors")
    m = next((m for n, m in p.modules.items() if n.endswith(".errors")), None)
    g = m.resolve_name("SYSTEM_EXCEPTIONS") if m else None
    if not isinstance(g, Global):
        raise AnalysisBroken("SYSTEM_EXCEPTIONS not found")
    ip = Interp(p)
    ip.fnstack = [type("F", (), {"module": m, "node": None})()]
    cl = ip.handler_classes(g.value) if isinstance(g.value, ast.Tuple) else []
    loc = f"{m.relpath}:{g.value.lineno}"
    for r in sorted(REQUIRED):
        cx.check(ip.matches(r, cl) is True, "C08.system", r, loc, f"{r} is not treated as a system error")
    for r in ORDINARY + SKIP:
        cx.check(ip.matches(r, cl) is not True, "C08.system", r, loc, f"{r} is treated as a system error")
