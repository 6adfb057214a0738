"""C22: files, archives, pools opened for reading or preparing data are closed on every way out."""
import ast

from ..flow import Interp, Monitor, V, subterms
from ..model import AnalysisBroken

SELF = ("self",)
#: external functions returning something to be closed
EXTERNAL = {"open", "io.open", "os.fdopen", "os.open", "tarfile.open", "tarfile.TarFile", "tarfile.TarFile.open", "gzip.open", "bz2.open", "lzma.open",
            "zipfile.ZipFile", "sqlite3.connect", "multiprocessing.Pool", "mp.Pool", "multiprocessing.pool.ThreadPool",
            "multiprocessing.pool.Pool", "concurrent.futures.ThreadPoolExecutor", "concurrent.futures.ProcessPoolExecutor",
            "tempfile.TemporaryFile", "tempfile.NamedTemporaryFile", "tempfile.TemporaryDirectory",
            "urllib.request.urlopen", "av.open", "mmap.mmap"}
#: methods returning something to be closed
METHODS = {"open", "Pool", "ThreadPool"}
STACKED = {"enter_context", "push", "callback"}
CLOSERS = {"close", "__exit__", "terminate", "shutdown", "cleanup"}
#: calls that do not fail
SAFE = {"isinstance", "len", "iter", "int", "str", "bool", "float", "repr", "type", "id", "range", "enumerate", "zip", "print", "list",
        "dict", "set", "tuple", "hasattr", "min", "max", "sorted", "callable", "super", "contextlib.ExitStack", "contextlib.closing"}
OWNERS_EXEMPT = {"WorkerConfig": "its debug log stays open for the lifetime of the process"}


def dotted(ev):
    return ev.func[1] if ev.func is not None and ev.func[0] == "ext" else None


class Facts:
    def __init__(self, p):
        self.p = p
        #: classes which are context managers over something they open
        self.managers = {c.qualname for c in p.classes() if c.find_method("__enter__") and c.find_method("__exit__")}
        #: classes with resources in attributes: {class: {attr}}
        self.owned = {}

    def acquires(self, ev):
        """Does the (not inlined) call return something that has to be closed?"""
        if ev.func is None:
            return False
        if ev.func[0] == "cls":
            return ev.func[1] in self.managers
        if dotted(ev):
            return dotted(ev) in EXTERNAL
        if ev.callee is not None:
            return ev.callee.name in METHODS and ev.callee.cls is not None
        return ev.func[0] == "attr" and ev.func[2] in METHODS


class Open(Monitor):
    """mon = (open resources {(term, holder)}, does the last acquisition fail?)
    holder: None (nobody) or ("attr", name)"""

    def __init__(self, facts, fi, owned=()):
        self.facts = facts
        self.fi = fi
        self.owned = set(owned)
        self.n = 0
        self.overwritten = {}
        self.stored = {}
        self.sites = {}

    def init(self):
        held = set()
        if self.fi.name != "__init__":
            held = {(("attr", SELF, a), ("attr", a)) for a in self.owned}
        return (frozenset(held), False)

    def inline(self, fi, recv, ip, stack):
        # the resources of other classes are looked at there; openers are acquisitions
        if fi.cls is not None and fi.name in METHODS and fi.name in self.facts.__dict__.get("openers", METHODS):
            return False
        return NotImplemented

    def raises(self, ev, st, ip):
        if ev.kind == "yield":
            return ("GeneratorExit", "Failure#") if self.fi.is_contextmanager else ("GeneratorExit",)
        if ev.kind == "load_sub":
            return ("Exception?",) if any(t in self.sites or t[0] == "enter" for t in ev.base or ()) else ()
        if ev.kind in ("call", "newrec"):
            if ev.tag == "inlined":
                return ()
            if self.facts.acquires(ev) or ev.name in STACKED:
                return ("Exception?",) if st.mon[1] else ()
            if ev.name in CLOSERS or ev.name == "append" or dotted(ev) in SAFE and not (
                    dotted(ev) == "len" and any(SELF in v for v in ev.args)):
                return ()
            return ("Exception?",)
        return ()

    sub_raises = True

    def result(self, ev, st, ip):
        if dotted(ev) == "contextlib.ExitStack":
            # two stacks are two things
            return ("call", ev.func, (("const", (ev.node.lineno, ev.node.col_offset)),), ())

    def dead(self, ev, st, ip):
        return st.mon[1]

    def terms(self, v):
        out = set()
        for t in v or ():
            out.add(t)
            if t[0] == "any":
                out |= set(t[1])
        return out

    def event(self, ev, st, ip):
        held, fail = st.mon[0], False
        k = ev.kind
        if k == "branch":
            return (frozenset((t, h) for t, h in held if h is None or not self.gone(t, h[1], st)), fail)
        if k == "call" and ev.tag != "inlined":
            if self.facts.acquires(ev):
                self.n += 1
                new = {(t, None) for t in ev.result or ()}
                for t in ev.result or ():
                    self.sites.setdefault(t, ev)
                return [(held | new, False), (held, True)]
            recv = ev.recv
            if ev.name in CLOSERS and recv is not None:
                ts = self.terms(recv if isinstance(recv, frozenset) else [recv])
                return (self.closed(held, ts), fail)
            if ev.name in STACKED and recv is not None:
                if ev.name == "callback":
                    inner = {t[1] for v in ev.args for t in self.terms(v) if t[0] in ("attr", "bm")}
                else:
                    inner = {t for v in ev.args for t in self.terms(v)}
                new = set(self.closed(held, inner))
                for t in self.terms(recv if isinstance(recv, frozenset) else [recv]):
                    # the stack is what has to be closed now
                    if t[0] == "attr" and t[1] == SELF:
                        new.add((t, ("attr", t[2])))
                    elif t[0] == "call":
                        h = next((h for x, h in held if x == t), None)
                        new.discard((t, h))
                        new.add((t, ("attr", h[1]) if h is not None else None))
                    else:
                        continue
                    self.sites.setdefault(t, ev)
                return [(frozenset(new), False), (self.closed(held, inner), True)]
        if k == "with_enter":
            ts = self.terms(ev.value)
            for t in list(ts):
                if t[0] == "call" and t[1] == ("ext", "contextlib.closing") and t[2]:
                    ts.add(t[2][0])
            return (self.closed(held, ts), fail)
        if k == "store_attr" and SELF in ev.base:
            a = ev.attr
            new = self.terms(ev.value)
            out = set()
            moved = False
            for t, h in held:
                if t in new and h is None and t in self.sites:
                    moved = True
                    continue
                if h == ("idle", a):
                    continue
                if h == ("attr", a) and t not in new:
                    if not self.gone(t, a, st):
                        self.overwritten.setdefault((a, ev.node.lineno), ev)
                    continue
                out.add((t, h))
            stack = any(t[0] == "call" and t[1] == ("ext", "contextlib.ExitStack") for t in new)
            if moved or stack or any(t in self.sites for t in new):
                self.stored.setdefault(a, ev)
                out |= {(t, ("attr", a)) for t in new if t in self.sites and (moved or (t, ("attr", a)) in held)}
                # an exit stack with nothing in it so far
                out |= {(t, ("idle", a)) for t in new if t[0] == "call" and t[1] == ("ext", "contextlib.ExitStack") and (t, ("attr", a)) not in out}
            return (frozenset(out), fail)
        return (held, False)

    def gone(self, t, a, st):
        """The attribute is known to hold nothing"""
        x = ("attr", SELF, a)
        return (x, "none") in st.facts or (x, "false") in st.facts

    def closed(self, held, ts):
        """ts are closed; an attribute's resource may be reached through the attribute or the value stored there"""
        attrs = {t[2] for t in ts if t[0] == "attr" and t[1] == SELF}
        hs = {h for t, h in held if t in ts and h is not None}
        return frozenset((t, h) for t, h in held if t not in ts and not (h is not None and (h[1] in attrs or h in hs)))


def returned(v, st):
    """Terms handed to the caller"""
    out, todo = set(), list(v or ())
    while todo:
        t = todo.pop()
        if t in out:
            continue
        out.add(t)
        if t[0] in ("tuple", "any"):
            todo += list(t[1])
        if t[0] == "obj" and t in st.heap:
            todo += [x for _, vs in st.heap[t][1] for x in vs]
        if t[0] == "enter":
            todo.append(t[1])
    return out


def describe(ev):
    return ev.name or dotted(ev) or (ev.func[1].split(".")[-1] if ev.func and ev.func[0] == "cls" else "the call")


def functions(p):
    """Functions called from outside; private helpers are seen where they are called"""
    called, other = {}, set()
    for m in p.modules.values():
        fs = {id(x.func) for x in ast.walk(m.tree) if isinstance(x, ast.Call)}
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Attribute, ast.Name)):
                n = x.attr if isinstance(x, ast.Attribute) else x.id
                if id(x) in fs:
                    called.setdefault(n, set()).add(m.name)
                else:
                    other.add(n)
    for f in p.all_functions():
        if isinstance(f.node, ast.Lambda):
            continue
        n = f.name
        if n.startswith("_") and not n.startswith("__") and not f.is_generator and not f.is_contextmanager and n not in other \
                and called.get(n) == {f.module.name}:
            continue
        yield f


def interesting(f, facts):
    """Functions with a chance of opening something"""
    names = STACKED | {"ExitStack"} | {q.split(".")[-1].split(":")[-1] for q in facts.managers} | {x.split(".")[-1] for x in EXTERNAL} | METHODS
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call):
            n = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None)
            if n in names or n in CLOSERS:
                return True
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and f.cls is not None and \
                x.attr in facts.owned.get(f.cls.qualname, ()):
            return True
    return False


def analyse(p, f, facts, c=None):
    cls = c or f.cls
    m = Open(facts, f, facts.owned.get(cls.qualname, ()) if cls is not None else ())
    ip = Interp(p, m)
    ip.comp_twice = True
    o = ip.run(f, cls)
    return m, o


def check(p, cx):
    cx.rule("C22.closed", "whatever a function opens is closed (or managed by a with, an exit stack or its owner) on every way out, "
            "with any call failing and any generator stopped early")
    cx.rule("C22.owner", "a class keeping something open in an attribute closes it in close()/__exit__() on every path")
    cx.rule("C22.reopen", "an attribute holding something open is closed before it is replaced")
    facts = Facts(p)
    fs = [f for f in functions(p) if interesting(f, facts)]
    # which attributes hold resources
    for f in fs:
        if f.cls is None:
            continue
        m, o = analyse(p, f, facts)
        for a in m.stored:
            facts.owned.setdefault(f.cls.qualname, set()).add(a)
    fs = [f for f in functions(p) if interesting(f, facts)]
    n = 0
    for f in sorted(fs, key=lambda f: f.key):
        m, o = analyse(p, f, facts)
        if not m.n and not m.overwritten and not m.owned:
            continue
        cx.fn(f)
        n += m.n
        for a in m.stored:
            if f.cls.qualname not in facts.owned:
                facts.owned[f.cls.qualname] = set()
            facts.owned[f.cls.qualname].add(a)
        for t, ev in m.sites.items():
            cx.ok("C22.closed", f"{f.qualname} {describe(ev)}", f.loc(ev.node))
        seen = set()
        ways = [("when it returns", s, returned(v, s), None) for s, v, _ in o.ret] + \
               [("when " + why(ev), s, set(), ev) for s, tag, ev in o.exc]
        for how, s, given, by in ways:
            for t, h in s.mon[0]:
                if t in given or t not in m.sites or t in seen:
                    continue
                ev = m.sites[t]
                if h is None or h[0] == "attr" and f.name == "__init__" and by is not None:
                    seen.add(t)
                    cx.bad("C22.closed", f"{f.qualname} {describe(ev)}", f.loc(ev.node),
                           f"what {describe(ev)} opens stays open {how}")
        for (a, _), ev in m.overwritten.items():
            cx.bad("C22.reopen", f"{f.qualname} {a}", f.loc(ev.node), f"self.{a} is replaced while it may still be open")
    cx.floor("acquisitions", n, 12)
    # every owner closes
    byq = {c.qualname: c for c in p.classes()}
    for q, attrs in sorted(facts.owned.items()):
        c = byq[q]
        if c.name in OWNERS_EXEMPT:
            cx.notes.append(f"{c.name}: {OWNERS_EXEMPT[c.name]}")
            continue
        closers = [c.find_method(n) for n in ("__exit__", "close") if c.find_method(n) is not None]
        for a in sorted(attrs):
            if not closers:
                cx.bad("C22.owner", f"{c.name}.{a}", c.node.name and f"{c.module.relpath}:{c.node.lineno}",
                       f"{c.name} keeps something open in {a} and has no close()")
                continue
            f = closers[0]
            cx.fn(f)
            cx.ok("C22.owner", f"{c.name}.{a}", f.loc())
            m, o = analyse(p, f, facts, c)
            for s in [s for s, _, _ in o.ret] + [s for s, _, _ in o.exc]:
                if any(h == ("attr", a) and not m.gone(t, a, s) for t, h in s.mon[0]):
                    cx.bad("C22.owner", f"{c.name}.{a}", f.loc(), f"{f.qualname} does not close {a} on every path")
                    break
    cx.notes.append(f"{n} acquisitions; owners: " + ", ".join(f"{byq[q].name}({', '.join(sorted(a))})" for q, a in sorted(facts.owned.items())))


def why(ev):
    if ev is None:
        return "an error is raised"
    if ev.kind == "yield":
        return "the iteration is stopped early"
    return f"{ev.name or dotted(ev) or 'a call'} fails"
