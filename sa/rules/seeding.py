"""C11: the global random generators around seeded user functions."""
import ast

from ..flow import Interp, Monitor, V, is_attr, subterms
from ..model import AnalysisBroken, walk_own

ERR = "Failure#"
LIBS = {
    "torch": dict(get=("torch.get_rng_state", "torch.random.get_rng_state"),
                  set=("torch.set_rng_state", "torch.random.set_rng_state"),
                  seed=("torch.manual_seed", "torch.random.manual_seed")),
    "numpy": dict(get=("numpy.random.get_state",), set=("numpy.random.set_state",), seed=("numpy.random.seed",)),
    "random": dict(get=("random.getstate",), set=("random.setstate",), seed=("random.seed",)),
}
OPS = {f: (lib, op) for lib, d in LIBS.items() for op, fs in d.items() for f in fs}
SEED = ("seed", "seed_args")


def op_of(ft):
    return OPS.get(ft[1]) if ft is not None and ft[0] == "ext" else None


class Around(Monitor):
    """mon = (where, outer version, inner version); where: outer | inner | lost"""

    def __init__(self, sysrng, user, generator):
        self.sysrng, self.user, self.generator = sysrng, user, generator
        self.bad = {}
        self.seeds = []
        self.steps = 0

    def init(self):
        return ("outer", 0, 0)

    def note(self, what, ev):
        self.bad.setdefault(what, ev)

    def prim(self, ev):
        fi = ev.callee
        return fi.name if fi is not None and fi.cls is self.sysrng and ev.kind == "call" and ev.tag != "inlined" else None

    def inline(self, fi, recv, ip, stack):
        if fi.cls is self.sysrng:
            return fi.name not in SEED + ("save_state", "restore_state", "get_seed_from_args")
        return NotImplemented

    def of_user(self, v):
        return any(x in self.user for t in v for x in subterms(t))

    def user_step(self, ev):
        """Does this event run code of the user's function?"""
        if ev.kind == "call" and ev.tag != "inlined":
            if self.of_user([ev.func]):
                # calling a generator function only binds its arguments
                return not self.generator or ev.name in ("send", "throw", "__next__")
            if ev.func == ("ext", "next") and ev.args:
                return self.of_user(ev.args[0])
            if self.generator and ev.func[0] == "ext" and ev.func[1] in ("list", "tuple", "sorted", "set", "sum") and \
                    ev.args:
                return self.of_user(ev.args[0])
        if ev.kind in ("next", "yield_from"):
            return self.of_user(ev.value)
        return False

    def event(self, ev, st, ip):
        w, o, i = st.mon
        n = self.prim(ev)
        if n in SEED:
            self.seeds.append((ev, st))
            return ("inner", o, i)
        if n == "restore_state":
            v = ev.arg(0, "state") or ()
            kinds = {t[1:] if t[0] == "tok" else None for t in v}
            if kinds == {("outer", o)}:
                return ("outer", o, i)
            if kinds == {("inner", i)}:
                if w == "lost":
                    return ("inner", o, i)
                return ("inner", o, i)
            if any(k is not None and k[0] == "outer" for k in kinds) and None not in kinds and len(kinds) == 1:
                self.note("the state put back is the one from before the consumer's last turn", ev)
            elif any(k is not None and k[0] == "inner" for k in kinds) and None not in kinds and len(kinds) == 1:
                self.note("the function continues with an outdated random state", ev)
            else:
                self.note("the state put back is not one that was saved", ev)
            return ("lost", o, i)
        if ev.kind == "yield":
            if w != "outer":
                self.note("the random state of the function is still set when control goes to the consumer", ev)
            return ("outer", 1 - o, i)
        if self.user_step(ev):
            self.steps += 1
            if w != "inner":
                self.note("code of the function runs without its own random state", ev)
            if ev.kind == "yield_from":
                self.note("the random state of the function is still set when control goes to the consumer", ev)
            return (w, o, 1 - i)
        return NotImplemented

    def result(self, ev, st, ip):
        if self.prim(ev) == "save_state":
            w, o, i = st.mon
            return ("tok", w, o if w == "outer" else i)
        return None

    def raises(self, ev, st, ip):
        if ev.kind in ("yield", "yield_from"):
            return ("GeneratorExit",)
        if ev.kind == "next":
            return (ERR,)
        if ev.kind == "call" and ev.tag != "inlined":
            if self.prim(ev) is None and self.of_user([ev.func]) or self.user_step(ev):
                return (ERR,)
        return ()


def check(p, cx):
    libs = system(p, cx)
    stateless(p, cx)
    others(p, cx)
    loader_state(p, cx, libs)


def fact(st, pred):
    for t, v in st.facts:
        if pred(t):
            return v
    return None


def stateless(p, cx):
    cx.rule("C11.around", "in the wrapper that seeds a user function: on every path, with a failure injected at every step "
            "of the function and a close at every yield, user code runs only under its own random state, and the "
            "surrounding state as saved before the step is back in place when control leaves")
    cx.rule("C11.seed", "the seed comes from the seed of the active worker and the current sample number")
    cx.rule("C11.kind", "with seeding requested, the decorator returns a seeding wrapper; for generator functions one that "
            "seeds around every step")
    f = p.func("megatron.energon.task_encoder.base", "stateless")
    sysrng = p.cls("SystemRng")
    ip = Interp(p, Monitor())
    o = ip.run(f, None)
    cx.fn(f)
    fnname = f.params()[0][0]
    sw = [x.arg for x in f.all_params() if x.arg != fnname]
    if not sw:
        raise AnalysisBroken("stateless: no parameter requesting seeds")
    seen = 0
    for st, v, node in o.ret:
        if fact(st, lambda t: t == ("param", fnname)) == "none":
            continue
        if not any(fact(st, lambda t, s=s: t == ("param", s)) == "true" for s in sw):
            continue
        gen = fact(st, lambda t: t[0] == "call" and t[1][0] == "ext" and t[1][1].startswith("inspect.is"))
        for t in v:
            fi = ip.func_of(t)
            if fi is None:
                cx.bad("C11.kind", f"stateless:{'gen' if gen == 'true' else 'fn'}", f.loc(node),
                       "seeding was requested but the function is returned without a wrapper that seeds")
                continue
            seen += 1
            if gen != "false" and not fi.is_generator:
                cx.bad("C11.kind", f"stateless:{fi.name}", fi.loc(),
                       "a generator function gets a wrapper that returns before the generator has run")
            else:
                cx.ok("C11.kind", f"stateless:{fi.name}", fi.loc())
            if gen == "false" and fi.is_generator:
                cx.bad("C11.kind", f"stateless:{fi.name}", fi.loc(), "a plain function becomes a generator")
            around(p, cx, fi, sysrng, fnname, fi.is_generator)
    cx.floor("seeding wrappers", seen, 2)
    with_options(p, cx, f, fnname, sw)


def with_options(p, cx, f, fnname, sw):
    """The form @stateless(restore_seeds=True): what is asked for reaches the decorated function"""
    cx.rule("C11.option", "used with options, the decorator hands each of them on to the decorated function")
    ip = Interp(p, Monitor(), no_inline={f.name})
    o = ip.run(f, None, bind={fnname: V(("const", None))})
    for st, v, node in o.ret:
        for t in v:
            if t[0] == "call" and t[1] == ("ext", "functools.partial") and t[2] and ip.func_of(t[2][0]) is f:
                handed(cx, f, node, sw, t[2][1:], t[3])
                continue
            g = ip.func_of(t)
            if g is f:
                handed(cx, f, node, sw, (), ())
            if g is None or g is f:
                continue
            cx.fn(g)
            j = Interp(p, Monitor(), no_inline={f.name})
            og = j.run(g, None, closure_bind={s: V(("param", s)) for s in sw})
            for _, w, n in og.ret:
                for u in w:
                    if u[0] == "call" and j.func_of(u[1]) is f:
                        handed(cx, f, n, sw, u[2][1:], u[3])
                    elif u[0] == "param" and u[1] not in sw:
                        cx.bad("C11.option", "stateless: used with options", g.loc(n),
                               "used with options, the decorator returns the function as it is")


def handed(cx, f, node, sw, args, kw):
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
    pos = dict(zip(names[1:], args))
    for s in sw:
        got = dict(kw).get(s, pos.get(s))
        star = any(k is None or k == "**" for k, _ in kw)
        cx.check(star or got is not None and (got[0] != "const") and (got[0] != "param" or got[1] == s), "C11.option",
                 f"stateless: {s}", f.loc(node), f"used with options, the decorator does not hand on {s}")

def around(p, cx, fi, sysrng, fnname, generator):
    mon = Around(sysrng, {("param", fnname)}, generator)
    ip = Interp(p, mon, no_inline={"worker_seed"})
    o = ip.run(fi, None, closure_bind={fnname: V(("param", fnname))})
    cx.fn(fi)
    name = fi.name
    if not mon.steps:
        cx.bad("C11.around", f"{name}:calls", fi.loc(), "the function is not called")
    if not mon.seeds:
        cx.bad("C11.around", f"{name}:seeds", fi.loc(), "the random state is not seeded")
    ends = [(s, None) for s, *_ in o.ret] + [(r[0], r) for r in o.exc]
    for s, r in ends:
        if s.mon[0] != "outer":
            mon.note("the random state is not put back when the function "
                     + ("fails" if r is not None else "ends"), r[2] if r is not None else None)
    for what, ev in mon.bad.items():
        cx.bad("C11.around", f"{name}:{what}", ev.where() if ev is not None else fi.loc(), f"{name}: {what}")
    if not mon.bad:
        cx.ok("C11.around", f"{name}: {len(ends)} ways out, {mon.steps} steps", fi.loc())
    for ev, st in mon.seeds:
        args = [t for a in (ev.args or ()) for t in a]
        sub = [x for t in args for x in subterms(t)]
        ws = any(x[0] == "call" and (x[1][0] == "attr" and x[1][2] == "worker_seed" or x[1][0] == "bm" and
                                     ip.func_of(x[1]).name == "worker_seed") for x in sub)
        idx = any(x[0] == "attr" and x[2] in ("current_sample_index", "active_worker_sample_index",
                                              "_sample_index_stack") for x in sub)
        cx.check(ws, "C11.seed", f"{name}:worker", ev.loc(), "the seed does not depend on the worker's seed")
        cx.check(idx, "C11.seed", f"{name}:sample", ev.loc(), "the seed does not depend on the sample number")


def others(p, cx):
    """Every other function that seeds the global generators"""
    sysrng = p.cls("SystemRng")
    st = p.func("megatron.energon.task_encoder.base", "stateless")
    inits = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.keyword) and n.arg == "worker_init_fn":
                inits |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
    for fi in p.all_functions():
        top = fi
        while top.outer is not None:
            top = top.outer
        if top is st or fi.module is sysrng.module or top.name in inits:
            continue
        if top.name == "__init__" and top is not fi:
            continue
        for n in walk_own(fi.node):
            if isinstance(n, ast.Attribute) and n.attr in SEED and isinstance(n.value, ast.Name) and \
                    fi.module.resolve_name(n.value.id) is sysrng:
                cx.bad("C11.around", f"{fi.qualname}:seeds", fi.loc(n),
                       "the global generators are seeded outside the seeding wrapper and the worker initialiser")


def deep(v, st, seen=None):
    """All subterms of the values, including the contents of objects built on the way"""
    seen = set() if seen is None else seen
    out = []
    for t in v or ():
        for x in subterms(t):
            out.append(x)
            if x[0] == "obj" and x not in seen:
                seen.add(x)
                out += deep(list(terms_in(st.heap.get(x))), st, seen)
    return out


def terms_in(h):
    if isinstance(h, frozenset) or isinstance(h, list):
        for x in h:
            yield from terms_in(x)
    elif isinstance(h, tuple):
        if h and isinstance(h[0], str) and h[0] not in ("lit", "any", "col"):
            yield h
        else:
            for x in h:
                yield from terms_in(x)


class Ops(Monitor):
    """mon = libraries set or seeded so far"""

    def __init__(self):
        self.calls, self.recs = [], []

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind == "call":
            o = op_of(ev.func)
            if o is not None:
                self.calls.append((o[0], o[1], ev))
                if o[1] in ("set", "seed"):
                    return st.mon | {o[0]}
        if ev.kind == "newrec":
            self.recs.append(ev)
        return NotImplemented


def ops(p, f, c):
    mon = Ops()
    ip = Interp(p, mon, inline_classes={"SystemRng"})
    o = ip.run(f, c)
    return mon, o, ip


def rec_libs(mon):
    """field -> libraries whose state is stored in it"""
    out = {}
    for ev in mon.recs:
        for k, v in (ev.kwargs or {}).items():
            ls = {op_of(x[1])[0] for t in v for x in subterms(t) if x[0] == "call" and op_of(x[1])
                  and op_of(x[1])[1] == "get"}
            if ls:
                out.setdefault(k, set()).update(ls)
            order_of(v, out, k)
    return out


def order_of(v, out, k):
    """Are the parts of a state tuple kept in order?"""
    for t in v:
        if t[0] != "tuple":
            continue
        idx = []
        for x in t[1]:
            i = {y[2][1] for y in subterms(x) if y[0] == "sub" and y[2][0] == "const" and isinstance(y[2][1], int)
                 and any(z[0] == "call" and op_of(z[1]) for z in subterms(y[1]))}
            if len(i) != 1:
                return
            idx.append(i.pop())
        if idx != list(range(len(idx))):
            out.setdefault(k, set()).add("?order")


def system(p, cx):
    cx.rule("C11.libs", "seeding, saving and restoring the global random state cover the same libraries on every path; each "
            "library gets back exactly the field its own state was saved to")
    c = p.cls("SystemRng")
    s = c.find_method("seed")
    if s is None:
        raise AnalysisBroken("SystemRng.seed not found")
    mon, o, ip = ops(p, s, c)
    cx.fn(s)
    seeded = set(frozenset.intersection(*[x[0].mon for x in o.ret])) if o.ret else set()
    for lib in LIBS:
        cx.check(lib in seeded, "C11.libs", f"SystemRng.seed:{lib}", s.loc(), f"{lib} is not seeded on every path")
    pair(p, cx, c, c.find_method("save_state"), c.find_method("restore_state"), seeded | set(LIBS))
    for f in sorted(c.methods.values(), key=lambda f: f.name):
        va = f.node.args.vararg
        if va is None:
            continue
        ip = Interp(p, Monitor(), inline_classes={"SystemRng"})
        for st, v, node in ip.run(f, c).ret:
            sub = deep(v, st)
            if any(x[0] == "call" for x in sub):
                cx.check(("param", "*" + va.arg) in sub and not any(
                    x[0] in ("sub", "slice") and x[1] == ("param", "*" + va.arg) for x in sub), "C11.seed",
                    f"{f.name}:args", f.loc(), "the seed does not depend on all arguments")
        cx.fn(f)
    a = c.find_method("seed_args")
    if a is not None:
        hits = []

        class M(Monitor):
            def event(self, ev, st, ip):
                if ev.kind == "call" and (op_of(ev.func) or ("", ""))[1] == "seed":
                    hits.append((ev, deep(ev.args[0] if ev.args else ev.arg(None, "seed"), st)))
                return NotImplemented

        ip = Interp(p, M(), inline_classes={"SystemRng"})
        ip.run(a, c)
        cx.fn(a)
        cx.floor("generators seeded by seed_args", len(hits), 1)
        for ev, sub in hits:
            cx.check(any(x[0] == "param" and x[1].startswith("*") for x in sub) and
                     not any(x[0] in ("sub", "slice") and x[1][0] == "param" for x in sub), "C11.seed", "seed_args:args", a.loc(),
                     "the seed does not depend on all arguments")
            cx.check(not any(x[0] == "call" and x[1] in (("ext", "hash"), ("ext", "id")) for x in sub), "C11.seed",
                     "seed_args:hash", a.loc(), "the seed differs between processes")
    return seeded | set(LIBS)


def pair(p, cx, c, save, restore, libs):
    if save is None or restore is None:
        raise AnalysisBroken(f"{c.name}: saving / restoring of random state not found")
    mon, o, ip = ops(p, save, c)
    cx.fn(save)
    fields = rec_libs(mon)
    got = {lib for ls in fields.values() for lib in ls}
    for lib in sorted(libs):
        cx.check(lib in got, "C11.libs", f"{c.name}.{save.name}:{lib}", save.loc(), f"the state of {lib} is not saved")
    for k, ls in fields.items():
        cx.check(len(ls) == 1, "C11.libs", f"{c.name}.{save.name}:{k}", save.loc(),
                 "the parts of the state are saved in another order" if "?order" in ls
                 else f"field {k} holds the states of different libraries")
    rm, ro, rip = ops(p, restore, c)
    cx.fn(restore)
    for st, v, node in ro.ret:
        for lib in sorted(libs):
            cx.check(lib in st.mon, "C11.libs", f"{c.name}.{restore.name}:{lib}", restore.loc(),
                     f"a path does not put back the state of {lib}")
    for lib, op, ev in rm.calls:
        if op != "set":
            continue
        v = ev.args[0] if ev.args else ()
        names = {x[2] for t in v for x in subterms(t) if x[0] == "attr" and x[2] in fields}
        cx.check(any(lib in fields[k] for k in names) and all(lib in fields[k] for k in names), "C11.libs",
                 f"{c.name}.{restore.name}:{lib} field", ev.loc(),
                 f"{lib} does not get back the state that was saved for it")


def loader_state(p, cx, libs):
    """Classes other than SystemRng that save the global random state as part of their own state"""
    n = 0
    for c in p.classes():
        if c.name == "SystemRng":
            continue
        save, restore = None, None
        for f in c.methods.values():
            kinds = set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call):
                    r = f.module.resolve_expr(x.func)
                    nm = getattr(r, "name", None)
                    if nm is not None and nm.startswith("np."):
                        nm = "numpy" + nm[2:]
                    if nm in OPS:
                        kinds.add(OPS[nm][1])
                    elif getattr(r, "cls", None) is not None and r.cls.name == "SystemRng":
                        kinds.add({"save_state": "get", "restore_state": "set"}.get(r.name))
            if "get" in kinds and "set" not in kinds:
                save = save or f
            if "set" in kinds:
                restore = restore or f
        if save is None and restore is None:
            continue
        n += 1
        if save is None or restore is None:
            f = save or restore
            cx.bad("C11.libs", f"{c.name}:pair", f.loc(), "the random state is saved but not restored, or vice versa")
            continue
        # methods may delegate: judge the outermost ones which reach these
        pair(p, cx, c, outer(c, save), outer(c, restore), libs)
    cx.floor("classes keeping the global random state in their own state", n, 1)


def outer(c, f):
    """The method the others call: climb through private helpers with a single caller"""
    for _ in range(4):
        if not f.name.startswith("_") or f.name in ("_save_state", "_restore_state"):
            return f
        callers = [g for g in c.methods.values() if g is not f and any(
            isinstance(x, ast.Attribute) and x.attr == f.name for x in ast.walk(g.node))]
        if len(callers) != 1:
            return f
        f = callers[0]
    return f
