"""C34: an option given to a building function or constructor reaches what it configures."""
import ast

from ..flow import Interp, Monitor, subterms


def names_of(fi):
    ps = [a.arg for a in fi.all_params()]
    if ps and fi.cls is not None and not fi.is_static and ps[0] in ("self", "cls"):
        ps = ps[1:]
    return ps


def stub(fi):
    n = fi.node
    if isinstance(n, ast.Lambda):
        return True
    body = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return fi.is_abstract or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def options(fi):
    """Parameters of a function which are options: keyword only or with a default; all of a constructor."""
    a = fi.node.args
    if fi.name == "__init__":
        return set(names_of(fi))
    pos = a.posonlyargs + a.args
    return {x.arg for x in a.kwonlyargs} | {x.arg for x in pos[len(pos) - len(a.defaults):]}


class Given(Monitor):
    """mon = None; what is passed where is collected"""

    def __init__(self, fi, own, common):
        self.common = common
        self.fi = fi
        self.own = own            # options of the class, kept in attributes
        self.params = set(names_of(fi))
        self.calls = {}           # (node, param) -> [ok?]
        self.used = set()         # reach a call, an attribute, a result
        self.decides = set()      # decide a branch
        self.stores = {}

    def init(self):
        return None

    def inline(self, fi, recv, ip, stack):
        f = fi
        while f is not None:
            if f is self.fi:
                return NotImplemented
            f = f.outer
        return False

    # ---------------------------------------------------- values
    def contains(self, v, st, want, depth=0):
        for t in v or ():
            for x in subterms(t):
                if want(x):
                    return True
                if x[0] in ("obj", "gen") and depth < 4:
                    for _, y in st.heap.get(x, (None, ()))[1]:
                        if self.contains(y, st, want, depth + 1):
                            return True
        return False

    def depends(self, v, st, name):
        def want(x):
            if x == ("param", name) or x[0] == "attr" and (x[2] == name or x[2].endswith("_" + name)) or x[0] == "sub" and x[2] == ("const", name):
                return True
            if x[0] == "bm":
                # a method of the object has its options at hand
                return True
            if x[0] == "func":
                # a local function: by what it reads
                return self.reads(x, name)
            return False
        return self.contains(v, st, want)

    def reads(self, x, name):
        fi = self.ip.func_of(x)
        return fi is not None and any(isinstance(n, ast.Name) and n.id == name or isinstance(n, ast.Attribute) and n.attr == name
                                      for n in ast.walk(fi.node))

    @staticmethod
    def none(st, name):
        return (("param", name), "none") in st.facts or (("attr", ("self",), name), "none") in st.facts

    def use(self, v, st, into=None):
        into = self.used if into is None else into
        for n in self.params - into:
            if not self.none(st, n) and self.contains(v, st, lambda x: x == ("param", n) or x[0] == "func" and self.reads(x, n)):
                into.add(n)

    # ---------------------------------------------------- events
    def event(self, ev, st, ip):
        self.ip = ip
        k = ev.kind
        if k == "call":
            for v in list(ev.args or ()) + list((ev.kwargs or {}).values()):
                self.use(v, st)
            if ev.func:
                self.use([ev.func], st)
            if ev.base:
                self.use(ev.base, st)
            self.call(ev, st)
        elif k in ("yield", "yield_from", "return", "store_attr", "store_sub", "iter", "next", "raise", "newrec", "with_enter", "newobj", "del_sub"):
            self.use(ev.value if not isinstance(ev.value, dict) else set().union(*ev.value.values()), st)
            if k == "store_attr" and ("self",) in ev.base:
                self.stores.setdefault(ev.attr, []).append((ev, self.depends(ev.value, st, ev.attr) or self.none(st, ev.attr)))
            if k in ("store_sub", "del_sub"):
                self.use(ev.index, st)
        elif k in ("load_sub", "load_slice"):
            for v in (ev.index,) if k == "load_sub" else ev.args or ():
                self.use(v, st, self.decides)
        elif k == "branch":
            for c in ev.cond:
                while c[0] == "not":
                    c = c[-1]
                if c[0] == "cmp" and c[1] in ("Is", "IsNot") and c[3] == ("const", None):
                    continue
                if c[0] != "param":
                    self.use([c], st, self.decides)
                else:
                    self.decides.add(c[1])
        return NotImplemented

    def rest(self, ev, st):
        """Is what is splatted the further keywords of the function itself, which cannot hold its parameters?"""
        if any(t[0] == "star" for a in ev.args or () for t in a):
            return False
        return all(t == ("param", "**kwargs") for t in (ev.kwargs or {}).get("**", ()))

    def call(self, ev, st):
        g = ev.callee
        c = self.ip.cls_of(ev.func) if ev.func[0] == "cls" else None
        if c is not None:
            if c.is_dataclass and "__init__" not in c.methods:
                names, opts = list(c.all_fields()), set(c.all_fields())
            else:
                g = c.find_method("__init__")
                if g is None:
                    return
                names, opts = names_of(g), options(g)
        elif g is not None:
            names, opts = names_of(g), options(g)
        else:
            return
        f = ev.fn
        while f is not None and f is not self.fi:
            f = f.outer
        if f is None:
            return
        if g is self.fi or c is not None and exception(c) or c is not None and c is self.fi.cls:
            return
        if ev.argsplat and not self.rest(ev, st):
            return
        given = dict(zip(names, ev.args or ()))
        given.update(ev.kwargs or {})
        opts = opts | (set(names) & self.common)
        shared = opts & (self.params | self.own)
        for n in sorted(shared):
            if ev.argsplat and n not in (ev.kwargs or ()) and n not in self.params:
                continue
            if n in given:
                ok = self.depends(given[n], st, n) or self.none(st, n)
                what = "other"
            else:
                ok = self.none(st, n)
                what = "missing"
            who = c.name if c is not None else g.qualname.split(".")[-1]
            self.calls.setdefault((id(ev.node), n), []).append((ok, what, ev, who))


def prepass(p):
    """Names of options: keyword only, or with a default, somewhere."""
    res = set()
    for f in p.all_functions():
        if not stub(f) and f.name != "__init__":
            res |= options(f)
    return res


def exception(c):
    return any(b.name.endswith(("Error", "Exception")) for b in c.mro())


def number(fi, name):
    """Annotated as a number or nothing (a size, a limit): not only to decide something, but to be used as one."""
    a = next(a for a in fi.all_params() if a.arg == name).annotation
    ns = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)} if a is not None else set()
    return bool(ns & {"int", "float"}) and "Optional" in ns and not ns & {"bool", "str"}


def exempt(fi):
    n = fi.name
    return stub(fi) or fi.outer is not None or n.startswith("__") and n.endswith("__") and n not in ("__init__", "__call__", "__iter__")


def check(p, cx):
    cx.rule("C34.same", "an option of a function or of its class which a callee has under the same name is given on to it (unless known to be None)")
    cx.rule("C34.used", "each option of a function or constructor has an influence where it is not None: it is passed on, stored, returned or decides a branch")
    cx.rule("C34.stored", "a constructor which assigns the attribute named like its parameter derives it from the parameter")
    cx.rule("C34.read", "an option kept in an attribute of the same name is read somewhere")
    kinds = [p.cls(n, must=True) for n in ("SavableDataset", "BaseCoreDatasetFactory", "DatasetLoaderInterface")]
    loads = {}
    for mod in p.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                loads[n.attr] = loads.get(n.attr, 0) + 1
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                loads[n.value] = loads.get(n.value, 0) + 1
    common = prepass(p)
    same = used = stored = 0
    for f in p.all_functions():
        if exempt(f):
            continue
        ps, opts, own = set(names_of(f)), options(f), set()
        if f.cls is not None and f.name != "__init__":
            init = f.cls.find_method("__init__")
            own = (set(names_of(init)) if init is not None else set()) - ps
        if not opts and not ps and not own:
            continue
        m = Given(f, own, common)
        Interp(p, m).run(f, f.cls)
        cx.fn(f)
        for (node, n), l in sorted(m.calls.items(), key=lambda x: (x[1][0][2].loc(), x[0][1])):
            bad = [x for x in l if not x[0]]
            ok, what, ev, who = (bad or l)[0]
            same += 1
            msg = f"`{who}` has an option `{n}`, as {f.qualname} has, but is called "
            cx.check(not bad, "C34.same", f"{f.qualname}:{who}:{n}", ev.loc(),
                     msg + ("without it" if what == "missing" else "with something independent of it"))
        for n in sorted(opts):
            if n.startswith("_"):
                continue
            used += 1
            cx.check(n in m.used or n in m.decides and not number(f, n), "C34.used", f"{f.qualname}:{n}", f.loc(f.node),
                     f"the option `{n}` of {f.qualname} has no influence where it is given")
        if f.name == "__init__":
            for a, l in sorted(m.stores.items()):
                if a not in ps:
                    continue
                stored += 1
                cx.check(any(ok for _, ok in l), "C34.stored", f"{f.qualname}:{a}", l[0][0].loc(),
                         f"self.{a} is assigned a value which does not depend on the parameter `{a}`")
                if any(f.cls.issubclass(b) for b in kinds):
                    cx.check(loads.get(a, 0) > 0, "C34.read", f"{f.qualname}:{a}", l[0][0].loc(),
                             f"self.{a} is stored but never read")
    cx.floor("options given on", same, 200)
    cx.floor("options", used, 200)
    cx.floor("options stored", stored, 60)
