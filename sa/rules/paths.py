"""C16: storage handles and forked processes; C17: path objects as values."""
import ast
import copy
import itertools

from ..flow import Interp, Monitor, MUTATORS, NONE, fmt, subterms
from ..model import AnalysisBroken, FuncInfo, walk_own

CLS = "EPath"
GUARD = "fork_guard"
PREPARE = "prepare_forked_process"
POOL = {"imap", "imap_unordered", "map", "map_async", "starmap", "starmap_async", "apply", "apply_async"}
SELF = ("self",)


def methods(c):
    return [f for n, f in sorted(c.methods.items()) if not f.is_abstract]


def is_new(t):
    """An object created here."""
    if t[0] == "any":
        return all(is_new(x) for x in t[1])
    return t[0] == "obj" or t[0] == "call" and (
        t[1][0] == "cls" and t[1][1].split(".")[-1] == CLS or t[1] in (("ext", "copy.copy"), ("ext", "copy.deepcopy")))


# ---- C16 -------------------------------------------------------------------
class Guarded(Monitor):
    """mon = terms of the paths whose handle was checked"""

    def __init__(self):
        self.uses = {}

    def init(self):
        return frozenset()

    def inline(self, fi, recv, ip, stack):
        if fi.cls is not None and fi.cls.name == CLS and fi.name not in (GUARD, "__init__"):
            return recv == SELF or NotImplemented
        return NotImplemented

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.name == GUARD and ev.recv is not None:
            return st.mon | {ev.recv}
        if ev.kind == "call" and ev.tag != "inlined" and ev.recv is not None:
            r = ev.recv
            if r[0] == "attr" and r[2] == "fs":
                # the file system held by a path
                lst = self.uses.setdefault(id(ev.node), [ev, True])
                if r[1] not in st.mon:
                    lst[1] = False
        if ev.kind == "return" or ev.kind == "call" and ev.tag != "inlined":
            vals = [ev.value] if ev.kind == "return" else list(ev.args or ()) + list((ev.kwargs or {}).values())
            for v in vals:
                for t in v or ():
                    if t[0] == "attr" and t[2] == "fs" and t[1] not in st.mon and ev.kind == "return" and \
                            ev.fn.name != GUARD:
                        self.uses.setdefault(id(ev.node), [ev, True])[1] = False
        return NotImplemented


class GuardItself(Monitor):
    """mon = (known to be fine, handle replaced)"""

    def __init__(self):
        self.news = []

    def init(self):
        return (False, False)

    def event(self, ev, st, ip):
        ok, new = st.mon
        if ev.kind == "branch":
            for t in ev.cond:
                pol = bool(ev.taken)
                while t[0] in ("not", "unop") and isinstance(t[-1], tuple):
                    t, pol = t[-1], not pol
                sub = set(subterms(t))
                if t[0] == "call" and t[1] == ("ext", "isinstance") and ("attr", SELF, "fs") in sub and not pol:
                    ok = True
                if t[0] == "cmp" and t[1] in ("Eq", "NotEq") and any(x[0] == "call" and x[1] == ("ext", "os.getpid") for x in sub) \
                        and any(x[0] == "attr" and x[1] == ("attr", SELF, "fs") for x in t[2:4]):
                    if pol == (t[1] == "Eq"):
                        ok = True
            return (ok, new)
        if ev.kind == "store_attr" and ("self",) in ev.base and ev.attr == "fs":
            self.news.append(ev)
            return (ok, True)
        return NotImplemented


class Prepared(Monitor):
    """mon = process-wide handles were reset"""

    def __init__(self):
        self.early = []

    def init(self):
        return False

    def inline(self, fi, recv, ip, stack):
        if fi.cls is not None and fi.cls.name == CLS:
            return False
        return NotImplemented

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.name == PREPARE:
            return True
        if ev.kind == "call" and not st.mon:
            fi = ip.func_of(ev.func) if ev.func and ev.func[0] in ("bm", "func") else None
            if fi is not None and fi.cls is not None and fi.cls.name == CLS or \
                    ev.func and ev.func[0] == "cls" and ev.func[1].split(".")[-1] == CLS:
                self.early.append(ev)
        return NotImplemented


class Reset(Monitor):
    """mon = what was reset"""

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind == "store_sub" and ev.value == frozenset({NONE}):
            for b in ev.base:
                n = dotted(b)
                if n and ("iothread" in n or n.endswith("loop")):
                    return st.mon | {n.split(".")[-1]}
        if ev.kind == "call" and ev.name == "clear_instance_cache":
            return st.mon | {"instances"}
        if ev.kind == "branch":
            for t in ev.cond:
                if t[0] == "call" and t[1] == ("ext", "hasattr") and not ev.taken:
                    return st.mon | {"iothread", "loop"}
        return NotImplemented


def dotted(t):
    if t[0] in ("ext", "mod"):
        return t[1]
    if t[0] == "attr":
        b = dotted(t[1])
        return b and f"{b}.{t[2]}"
    return None


class Spawns(Monitor):
    def __init__(self):
        self.found = []
        self.bare = []

    def inline(self, fi, recv, ip, stack):
        return NotImplemented if fi.cls is None or fi.cls is ip.fn.cls else False

    def event(self, ev, st, ip):
        if ev.kind != "call" or ev.tag == "inlined":
            return NotImplemented
        if ev.name in POOL and ev.recv is not None and any(
                x[0] == "call" and x[1][0] == "ext" and x[1][1].endswith("Pool") for x in subterms(ev.recv)):
            self.add(ev, ev.args[0] if ev.args else ev.kwargs.get("func", frozenset()), ip)
        elif "target" in ev.kwargs and ev.func and ev.func[0] == "ext" and ev.func[1].endswith("Process"):
            self.add(ev, ev.kwargs["target"], ip)
        elif "worker_init_fn" in ev.kwargs:
            self.add(ev, ev.kwargs["worker_init_fn"], ip)
        elif "num_workers" in ev.kwargs and ev.name == "__init__":
            self.bare.append(ev)
        return NotImplemented

    def add(self, ev, v, ip):
        fns = []
        for t in v:
            while t[0] == "call" and t[1] == ("ext", "functools.partial") and t[2]:
                t = t[2][0]
            fi = ip.func_of(t) if t[0] in ("func", "bm") else None
            if t[0] == "attr" and t[1][0] == "cls":
                k = ip.p.cls(t[1][1].split(".")[-1], must=False)
                fi = k.find_method(t[2]) if k is not None else None
            fns.append(fi)
        self.found.append((ev, fns))


def check_fork(p, cx):
    cx.rule("C16.guard", "the file system behind a path is used only after the path checked that its handle belongs to this process")
    cx.rule("C16.fresh", "that check replaces the handle unless it belongs to this process or needs no process-bound connection")
    cx.rule("C16.copy", "a copied path gets what is needed to replace the handle along with the handle")
    cx.rule("C16.reset", "resetting a forked process drops the cached file systems and the inherited event loop")
    cx.rule("C16.worker", "every function started in a forked process resets it before touching any path")
    c = p.cls(CLS)
    n = 0
    for f in methods(c):
        if f.name in (GUARD, PREPARE, "__init__") or f.is_static:
            continue
        if f.name.startswith("_") and not f.name.startswith("__") and called_inside(c, f):
            continue
        m = Guarded()
        Interp(p, m).run(f, c)
        cx.fn(f)
        for ev, ok in m.uses.values():
            n += 1
            cx.check(ok, "C16.guard", f"{CLS}.{f.name}", ev.where(),
                     "the file system is used without checking that its handle was created in this process")
    cx.floor("uses of a file system", n, 8)
    for mod in p.modules.values():
        if mod is c.module:
            continue
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and x.value.attr == "fs":
                cx.bad("C16.guard", f"{mod.name}.fs", f"{mod.relpath}:{x.lineno}",
                       "the file system of a path is used from outside the path, without the check")
    f = c.find_method(GUARD)
    if f is None:
        raise AnalysisBroken("the check for forked handles is not found")
    m = GuardItself()
    o = Interp(p, m).run(f, c)
    cx.fn(f)
    sts = [st for st, _, _ in o.ret] + list(o.normal or ())
    cx.check(sts and all(a or b for a, b in (s.mon for s in sts)), "C16.fresh", f"{CLS}.{GUARD}", f.loc(),
             "a handle of another process is kept on some path")
    for ev in m.news:
        ok = all(t[0] == "call" and any(x == ("attr", SELF, "s3_args") for x in subterms(t)) or
                 t[0] == "call" and any(v == ("attr", SELF, "s3_args") for k, v in t[3]) for t in ev.value)
        cx.check(ok, "C16.fresh", f"{CLS}.{GUARD}.args", ev.where(), "the new handle is not made with the arguments of the old one")
    f = c.find_method(PREPARE)
    o = Interp(p, Reset()).run(f, c)
    cx.fn(f)
    for what in ("iothread", "loop", "instances"):
        ok = all(what in st.mon for st in [s for s, _, _ in o.ret] + list(o.normal or ()))
        cx.check(ok, "C16.reset", what, f.loc(), f"a forked process keeps the inherited {what}")
    copies(p, cx, c, "C16.copy", ("fs", "s3_args"))
    # the functions which run in other processes
    k = 0
    seen = set()
    for f in p.all_functions():
        if f.outer is not None or not any(
                isinstance(x, ast.Attribute) and x.attr in POOL or isinstance(x, ast.keyword) and
                x.arg in ("worker_init_fn", "target", "num_workers") for x in walk_own(f.node)):
            continue
        m = Spawns()
        Interp(p, m).run(f, f.cls)
        for ev in m.bare:
            if ev.node in seen:
                continue
            seen.add(ev.node)
            cx.bad("C16.worker", f"{f.qualname}.init", ev.where(), "workers are started without initialising them")
        for ev, fns in m.found:
            for fi in fns:
                k += 1
                if fi is None:
                    cx.bad("C16.worker", f"{f.qualname}.unknown", ev.where(), "what runs in the forked process is not a function of the package")
                    continue
                q = Prepared()
                o = Interp(p, q).run(fi, fi.cls)
                cx.fn(fi)
                done = all(st.mon for st in [s for s, _, _ in o.ret] + list(o.normal or ()))
                cx.check(done, "C16.worker", f"{fi.qualname}", fi.loc(), "a forked process is not reset on every path")
                cx.check(not q.early, "C16.worker", f"{fi.qualname}.first", q.early[0].where() if q.early else fi.loc(),
                         "a path is used in the forked process before it was reset")
    cx.floor("functions started in forked processes", k, 2)


def called_inside(c, f):
    return any(isinstance(x, ast.Attribute) and x.attr == f.name for g in c.methods.values() if g is not f
               for x in ast.walk(g.node))


# ---- the copy constructor ----------------------------------------------------
class Init(Monitor):
    """mon = ((attribute, copied from the source?) ...) in order"""

    def __init__(self, src):
        self.src = ("param", src)
        self.by_loop = set()

    def init(self):
        return frozenset()

    def inline(self, fi, recv, ip, stack):
        if fi.cls is not None and fi.cls.name == CLS and recv != SELF:
            return False
        return NotImplemented

    def event(self, ev, st, ip):
        if ev.kind == "store_attr" and SELF in ev.base:
            ok = ev.value == frozenset({("attr", self.src, ev.attr)})
            return frozenset(x for x in st.mon if x[0] != ev.attr) | {(ev.attr, ok)}
        if ev.kind == "call" and ev.func == ("ext", "setattr") and len(ev.args) == 3 and set(ev.args[0]) == {("self",)}:
            names = {x[1] for t in ev.args[1] for x in subterms(t) if x[0] == "const" and isinstance(x[1], str)}
            own = all(t[0] == "call" and t[1] == ("ext", "getattr") and len(t[2]) > 1 and t[2][0] == self.src and
                      {x for x in subterms(t[2][1]) if x[0] == "const"} == {x for u in ev.args[1] for x in subterms(u) if x[0] == "const"} or
                      t[0] == "attr" and t[1] == self.src and names == {t[2]} for t in ev.args[2])
            if own:
                self.by_loop |= names
            return frozenset(x for x in st.mon if x[0] not in names) | {(n, own) for n in names}
        if ev.kind == "call" and ev.func == ("attr", ("attr", ("self",), "__dict__"), "update") and ev.args and all(
                x in (("attr", self.src, "__dict__"), ("call", ("ext", "vars"), (self.src,), ())) for x in ev.args[0]):
            return st.mon | {("<all>", True)}
        if ev.kind == "branch":
            for t in ev.cond:
                if t[0] == "call" and t[1] == ("ext", "isinstance") and self.src in t[2] and ev.taken and \
                        any(x[0] == "cls" and x[1].split(".")[-1] == CLS for x in subterms(t)):
                    return st.mon | {("<copy>", True)}
        return NotImplemented


def copies(p, cx, c, rule, only=None):
    f = c.find_method("__init__")
    src = f.all_params()[1].arg
    m = Init(src)
    o = Interp(p, m).run(f, c)
    cx.fn(f)
    paths = [st.mon for st, _, _ in o.ret] + [st.mon for st in (o.normal or ())]
    attrs = {a for q in paths for a, _ in q} - {"<copy>", "<all>"}
    cp = [dict(q) for q in paths if ("<copy>", True) in q]
    if not cp:
        # nothing says when the source is another path
        cp = [dict(q) for q in paths if any(v for _, v in q)]
    if not cp:
        raise AnalysisBroken("copying a path is not found")
    for a in sorted(only or attrs):
        ok = a in m.by_loop or all(q.get("<all>") or q.get(a) for q in cp)
        cx.check(ok, rule, f"{CLS}.{a}", f.loc(), f"a copied path does not have the {a} of the original")


# ---- C17 -------------------------------------------------------------------
class Stores(Monitor):
    def __init__(self):
        self.bad = []
        self.good = []
        self.returns = []

    def init(self):
        return frozenset()

    def inline(self, fi, recv, ip, stack):
        if fi.cls is not None and fi.cls.name == CLS and fi.name == "__init__":
            return False
        return NotImplemented

    def event(self, ev, st, ip):
        if ev.kind in ("store_attr", "del_attr"):
            for b in ev.base:
                if any(not is_new(x) for x in ([b] if b[0] != "any" else b[1])):
                    # a new handle for the same storage is no change of the value
                    if not (ev.attr == "fs" and ev.value and all(
                            t[0] == "call" and ("attr", SELF, "s3_args") in set(subterms(t)) for t in ev.value)):
                        self.bad.append((ev, ev.attr))
                else:
                    self.good.append(ev)
                if b in st.mon:
                    self.bad.append((ev, ev.attr))
        if ev.kind == "yield":
            return st.mon | {t for t in ev.value or () if is_new(t)}
        if ev.kind == "call" and ev.func and ev.func[0] == "cls" and st.mon:
            return frozenset(t for t in st.mon if not (t[0] == "call" and t[1] == ev.func))
        if ev.kind == "call" and ev.name in ("setattr", "__setattr__", "__init__") and ev.tag != "inlined" and ev.args:
            self.bad.append((ev, "attributes"))
        if ev.kind in ("store_sub", "del_sub"):
            for b in ev.base:
                if any(x[0] == "attr" and x[2] in ("s3_args",) for x in subterms(b)):
                    self.bad.append((ev, "s3_args"))
        if ev.kind == "call" and ev.recv is not None and ev.name in MUTATORS and ev.recv[0] == "attr" and ev.recv[1] == SELF:
            self.bad.append((ev, ev.recv[2]))
        return NotImplemented


class Truth(Monitor):
    """Evaluates comparisons of the parts of two paths under a given assignment; mon = consistent so far"""

    def __init__(self, same, other):
        self.same, self.other = same, ("param", other)
        self.unknown = []

    def init(self):
        return True

    def value(self, t):
        k = t[0]
        if k == "const":
            return bool(t[1])
        if k in ("not",) or k == "unop" and t[1] == "Not":
            v = self.value(t[-1])
            return None if v is None else not v
        if k == "boolop":
            vs = [self.value(x) for x in t[2:]] if not isinstance(t[2], tuple) or not t[2] or isinstance(t[2][0], str) \
                else [self.value(x) for x in t[2]]
            if t[1] == "And":
                return False if False in vs else (None if None in vs else True)
            return True if True in vs else (None if None in vs else False)
        if k == "cmp" and t[1] in ("Eq", "NotEq", "Is", "IsNot"):
            v = self.equal(t[2], t[3])
            if v is None:
                return None
            return v == (t[1] in ("Eq", "Is"))
        if k == "call" and t[1] == ("ext", "isinstance"):
            return True
        if k == "any":
            vs = {self.value(x) for x in t[1]}
            return vs.pop() if len(vs) == 1 else None
        return None

    def equal(self, a, b):
        if a == b:
            return True
        if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) == len(b[1]):
            vs = [self.equal(x, y) for x, y in zip(a[1], b[1])]
            return False if False in vs else (None if None in vs else True)
        for x, y in ((a, b), (b, a)):
            if x[0] == "attr" and x[1] == SELF and y == ("attr", self.other, x[2]):
                return self.same.get(x[2])
        if {a, b} == {("attr", SELF, "__class__"), ("attr", self.other, "__class__")}:
            return True
        ta, tb = [x[2][0] if x[0] == "call" and x[1] in (("ext", "type"), ("ext", "str")) and len(x[2]) == 1 else None
                  for x in (a, b)]
        if ta is not None and tb is not None:
            return True if {ta, tb} == {SELF, self.other} else self.equal(ta, tb)
        return None

    def event(self, ev, st, ip):
        if ev.kind == "branch":
            vs = {self.value(t) for t in ev.cond}
            if None in vs or len(vs) != 1:
                return NotImplemented
            if vs.pop() != bool(ev.taken):
                return False
        return NotImplemented


def check_values(p, cx):
    cx.rule("C17.unchanged", "no operation changes the path it is called on or one it was given; it changes only copies it made")
    cx.rule("C17.copy", "a copy of a path has every part of the original")
    cx.rule("C17.equal", "two paths are equal exactly when all parts saying what they refer to are equal")
    cx.rule("C17.hash", "the hash of a path is made from nothing but parts which equal paths share")
    cx.rule("C17.derive", "deriving a path applies the operation to the path inside a copy, and returns the copy")
    c = p.cls(CLS)
    n = 0
    for f in methods(c):
        if f.name in ("__init__", PREPARE) or f.name.startswith("_") and not f.name.startswith("__") and called_inside(c, f):
            continue
        m = Stores()
        o = Interp(p, m).run(f, c)
        cx.fn(f)
        n += 1
        bad = m.bad[0] if m.bad else None
        cx.check(bad is None, "C17.unchanged", f"{CLS}.{f.name}", bad[0].where() if bad else f.loc(),
                 f"{bad and bad[1]} of a path in use is changed")
        if m.good and not f.is_generator:
            # what was changed must be what is returned
            made = {b for ev in m.good for b in ev.base}
            rets = {t for _, v, _ in o.ret for t in (v or ())}
            rets = {x for t in rets for x in ([t] if t[0] != "any" else t[1])}
            cx.check(rets & made, "C17.derive", f"{CLS}.{f.name}", f.loc(), "the changed copy is not what is returned")
    cx.floor("methods of paths", n, 15)
    for mod in p.modules.values():
        for x in ast.walk(mod.tree):
            if mod is not c.module and isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and \
                    x.attr in ("internal_path", "num_fs_path_parts", "s3_args"):
                cx.bad("C17.unchanged", f"{mod.name}.{x.attr}", f"{mod.relpath}:{x.lineno}", "a part of a path is changed from outside")
    copies(p, cx, c, "C17.copy")
    # the operations
    for name, op in (("parent", "parent"), ("with_suffix", "with_suffix")):
        f = c.find_method(name)
        if f is None:
            continue
        m = Stores()
        Interp(p, m).run(f, c)
        vals = [t for ev in m.good if ev.attr == "internal_path" for t in ev.value]
        inner = ("attr", SELF, "internal_path")
        ok = vals and all(("attr", inner, op) in set(subterms(t)) or any(
            x[0] == "bm" and x[1] == inner for x in subterms(t)) for t in vals)
        cx.check(ok, "C17.derive", f"{CLS}.{name}.op", f.loc(), f"the derived path is not the {op} of the original")
    # equality and hash
    f = c.find_method("__eq__")
    h = c.find_method("__hash__")
    if f is None or h is None:
        raise AnalysisBroken("paths define no equality or no hash")
    other = f.all_params()[1].arg
    need = ["internal_path", "protocol"]
    parts = sorted({x[2] for x in self_attrs(p, c, f)} | set(need))
    ignored = [a for a in parts if a not in need and a != "num_fs_path_parts"]
    for vals in itertools.product((True, False), repeat=len(need)):
        same = dict(zip(need, vals))
        # what follows from the protocol and the path
        for a in parts:
            if a not in need:
                same[a] = all(vals) if a == "num_fs_path_parts" else None
        m = Truth(same, other)
        o = Interp(p, m).run(branching(f), c)
        cx.fn(f)
        res = set()
        for st, v, _ in o.ret:
            if st.mon is False:
                continue
            for t in v or ():
                if t == ("ext", "NotImplemented") or t == ("const", NotImplemented):
                    continue
                res.add(m.value(t))
        want = all(vals)
        what = " and ".join(f"{'equal' if s else 'different'} {a}" for a, s in zip(need, vals))
        if not res:
            raise AnalysisBroken("the comparison of paths is not understood")
        cx.check(res == {want}, "C17.equal", f"{CLS}.__eq__({what})", f.loc(),
                 f"paths with {what} do not compare {'equal' if want else 'different'}"
                 + (f" (other parts are compared: {', '.join(ignored)})" if ignored else ""))
    used = {x[2] for x in self_attrs(p, c, h)}
    cx.fn(h)
    allowed = set(need) | {"num_fs_path_parts"}
    extra = sorted(used - allowed)
    cx.check(not extra and used, "C17.hash", f"{CLS}.__hash__", h.loc(),
             f"equal paths can have different hashes (made from {', '.join(extra) or 'nothing of the path'})")


class Split(ast.NodeTransformer):
    def split(self, n, make):
        new = ast.If(n.value, [make(ast.Constant(True))], [make(ast.Constant(False))])
        return ast.fix_missing_locations(ast.copy_location(new, n))

    def visit_Return(self, n):
        if isinstance(n.value, (ast.BoolOp, ast.IfExp)):
            return self.split(n, lambda v: ast.copy_location(ast.Return(v), n))
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.BoolOp) and isinstance(n.targets[0], ast.Name):
            return self.split(n, lambda v: ast.copy_location(ast.Assign(n.targets, v), n))
        return n


def branching(f):
    """The same function deciding by branches what it decides by boolean operators."""
    return FuncInfo(Split().visit(copy.deepcopy(f.node)), f.module, f.cls)


class Attrs(Monitor):
    def __init__(self):
        self.seen = set()

    def event(self, ev, st, ip):
        for v in [ev.value, ev.cond] + list(ev.args or ()):
            if isinstance(v, frozenset):
                for t in v:
                    self.seen |= {x for x in subterms(t) if x[0] == "attr" and x[1] == SELF}
            if ev.recv is not None:
                self.seen |= {x for x in subterms(ev.recv) if x[0] == "attr" and x[1] == SELF}
        return NotImplemented


def self_attrs(p, c, f):
    m = Attrs()
    o = Interp(p, m).run(f, c)
    seen = set(m.seen)
    for _, v, _ in o.ret:
        for t in v or ():
            seen |= {x for x in subterms(t) if x[0] == "attr" and x[1] == SELF}
    names = c.methods
    return {x for x in seen if x[2] not in names}
