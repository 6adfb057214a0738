"""C10: what decides the samples and their order draws only on seeded per-worker generators."""
import ast

from ..flow import Interp, Monitor, is_attr, subterms
from ..model import AnalysisBroken, ClassInfo, Ext, FuncInfo

# Modules that do not take part in producing samples, or are applied by user functions only.
OUTSIDE = ("megatron.energon.tools", "megatron.energon.cli", "megatron.energon.transforms",
           "megatron.energon.flavors.webdataset.prepare")

TORCH_RANDOM = {"rand", "rand_like", "randn", "randn_like", "randint", "randint_like", "randperm", "multinomial",
                "bernoulli", "normal", "poisson", "seed", "Generator", "default_generator"}
TORCH_METHODS = {"random_", "uniform_", "normal_", "bernoulli_", "exponential_", "multinomial", "bernoulli",
                 "cauchy_", "geometric_", "log_normal_"}
STATE_FNS = {"torch.get_rng_state", "torch.set_rng_state", "torch.manual_seed", "torch.initial_seed",
             "torch.random.get_rng_state", "torch.random.set_rng_state", "torch.random.manual_seed",
             "torch.random.initial_seed", "torch.random.fork_rng",
             "numpy.random.get_state", "numpy.random.set_state", "numpy.random.seed",
             "random.getstate", "random.setstate", "random.seed"}
CLOCKS = ("time.", "datetime.")
IDENT = {"os.getpid", "os.getppid", "os.urandom", "os.listdir", "os.scandir", "os.walk", "os.times", "glob.glob",
         "glob.iglob", "id", "hash", "threading.get_ident", "threading.current_thread", "socket.gethostname",
         "platform.node", "multiprocessing.current_process", "os.environ", "os.getenv", "os.cpu_count"}
IDENT_MODULES = ("uuid.", "secrets.", "tempfile.")


def outside(m):
    return any(m.name == x or m.name.startswith(x + ".") for x in OUTSIDE)


class Names:
    """Resolution of dotted names including imports within functions."""

    def __init__(self, module):
        self.m = module
        self.local = {}
        for n in ast.walk(module.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.local[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                for a in n.names:
                    self.local[a.asname or a.name] = f"{n.module}.{a.name}"
        self.bound = {}

    def shadowed(self, name, scope):
        """Is the name a parameter / variable of one of the enclosing functions?"""
        for f in scope:
            s = self.bound.get(f)
            if s is None:
                a = f.args
                s = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
                if not isinstance(f, ast.Lambda):
                    s |= {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                self.bound[f] = s
            if name in s:
                return True
        return False

    def dotted(self, e, scope):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name) or self.shadowed(e.id, scope):
            return None
        head = self.local.get(e.id)
        if head is None:
            r = self.m.resolve_name(e.id)
            if not isinstance(r, Ext):
                return None
            head = r.name
        if head.startswith("megatron"):
            return None
        s = ".".join([head] + parts[::-1])
        return "numpy" + s[2:] if s.startswith("np.") else s


def visit(module):
    """(expression, chain of enclosing functions, class, parent map) of all outermost name/attribute expressions"""
    out = []

    def go(n, scope, quals, parents):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                go(d, scope, quals, parents + [n])
            for c in n.body:
                go(c, scope + [n], quals + [n.name], parents + [n])
            return
        if isinstance(n, ast.Lambda):
            go(n.body, scope + [n], quals, parents + [n])
            return
        if isinstance(n, ast.ClassDef):
            for c in n.bases + n.decorator_list + n.body:
                go(c, scope, quals + [n.name], parents + [n])
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                go(n.value, scope, quals, parents + [n])
            go(n.target, scope, quals, parents + [n])
            return
        if isinstance(n, (ast.Attribute, ast.Name)):
            if not isinstance(n.ctx, ast.Load):
                for c in ast.iter_child_nodes(n):
                    go(c, scope, quals, parents + [n])
                return
            out.append((n, scope, quals, parents))
            if isinstance(n, ast.Attribute):
                b = n
                while isinstance(b, ast.Attribute):
                    b = b.value
                if not isinstance(b, ast.Name):
                    go(b, scope, quals, parents + [n])
            return
        for c in ast.iter_child_nodes(n):
            go(c, scope, quals, parents + [n])

    for c in module.tree.body:
        go(c, [], [], [])
    return out


def call_of(node, parents):
    p = parents[-1] if parents else None
    return p if isinstance(p, ast.Call) and p.func is node else None


def check(p, cx):
    sources(p, cx)
    generator(p, cx)
    seeds(p, cx)
    sets(p, cx)
    loader_seeds(p, cx)


# ---------------------------------------------------------------------------------------------------------------
def sources(p, cx):
    cx.rule("C10.source", "outside the tools, preparation and image transforms, no expression refers to a clock, process "
            "or object identity, hash of an object, directory order or a random generator other than the worker "
            "generator (torch functions with generator=); exempt: the generator state functions of the seeding "
            "helpers, checkpoint time stamps, the debug file name, the storage fork guard, __hash__ / __repr__")
    wr = p.cls("WorkerRng")
    seen = 0
    for m in p.modules.values():
        if outside(m):
            continue
        nm = Names(m)
        for node, scope, quals, parents in visit(m):
            d = nm.dotted(node, scope)
            what = classify(d)
            call = call_of(node, parents)
            if what is None and isinstance(node, ast.Attribute) and node.attr in TORCH_METHODS and call is not None \
                    and (d is None) and scope:
                what = "random"
            if what is None:
                continue
            seen += 1
            qual = ".".join(quals) or "<module>"
            where = f"{m.relpath}:{node.lineno}"
            ref = d or node.attr
            if what == "random" and call is not None and any(k.arg == "generator" for k in call.keywords):
                g = next(k.value for k in call.keywords if k.arg == "generator")
                good = worker_generator(p, m, g, scope, quals, wr)
                cx.check(good, "C10.source", f"{m.name}:{qual}:{ref}", where,
                         f"{ref} draws from a generator that is not the worker's")
                continue
            cx.check(allowed(p, m, what, d, node, scope, quals, parents, wr), "C10.source", f"{m.name}:{qual}:{ref}",
                     where, f"{qual} depends on {ref} ({what})")
    cx.floor("uses of random, clock or identity functions", seen, 8)


def classify(d):
    if d is None:
        return None
    if d in STATE_FNS:
        return "state"
    if d.startswith("random.") or d.startswith("numpy.random."):
        return "random"
    if d.startswith("torch."):
        tail = d.split(".")
        if tail[1] in TORCH_RANDOM or (tail[1] in ("random", "cuda") and tail[-1] in (
                "seed", "manual_seed", "manual_seed_all", "Generator", "default_generator")):
            return "random"
        if tail[-1] in ("RandomSampler", "random_split", "SubsetRandomSampler", "WeightedRandomSampler"):
            return "random"
        return None
    if d.startswith(CLOCKS) and d not in ("time.sleep",):
        return "clock"
    if d in IDENT or d.startswith(IDENT_MODULES) or d.startswith(("os.environ.",)):
        return "identity"
    return None


def class_named(quals, *names):
    return any(q in names for q in quals)


def allowed(p, m, what, d, node, scope, quals, parents, wr):
    fn = quals[-1] if quals else ""
    if what == "state":
        if d.endswith(".seed") and any(isinstance(x, ast.Call) and x.func is node and
                                       (not (x.args or x.keywords) or [isinstance(a, ast.Constant) and a.value is None for a in x.args] == [True])
                                       for x in parents):
            return False        # seeded from the operating system
        # seeding helpers: the rng module and the loader's worker side saving / restoring them
        return m is wr.module or holds_rng_state(p, m, quals)
    if what == "identity":
        if fn in ("__hash__", "__repr__", "__str__"):
            return True
        if inside_call(parents, ("print", "warn", "warning", "info", "debug", "error", "exception")):
            return True
        if any(isinstance(x, ast.Raise) for x in parents):
            return True
        if d.startswith(("os.getpid", "os.getppid", "os.environ", "os.getenv")) and m.name.startswith("megatron.energon.epathlib"):
            return True
        if d in ("id", "hash"):
            return False
        return only_debug_name(p, m, quals)
    if what == "clock":
        return holds_rng_state(p, m, quals) and checkpoint_only(parents)
    if what == "random":
        if d == "torch.Generator" and class_named(quals, wr.name):
            return True
        if d == "torch.default_generator":
            return m is wr.module
        return False
    return False


def inside_call(parents, names):
    for x in parents:
        if isinstance(x, ast.Call):
            f = x.func
            n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if n in names:
                return True
    return False


def holds_rng_state(p, m, quals):
    """Is this a method of the class keeping the worker's checkpoints?"""
    for q in quals:
        c = m.classes.get(q)
        if c is not None and any(f.name in ("save_state", "_save_state", "get_checkpoint")
                                 or "checkpoint" in f.name for f in c.methods.values()):
            return True
    return False


def checkpoint_only(parents):
    """Time values may be kept and compared, and must not reach anything else than a time stamp."""
    for x in reversed(parents):
        if isinstance(x, ast.Call) and x is not parents[-1]:
            return any(k.arg is not None and "time" in k.arg and any(n is parents[-1] for n in ast.walk(k.value))
                       for k in x.keywords)
        if isinstance(x, ast.Compare):
            return True
        if isinstance(x, ast.Assign):
            return all(isinstance(t, (ast.Name, ast.Attribute)) and "time" in (t.id if isinstance(t, ast.Name) else t.attr)
                       for t in x.targets)
        if isinstance(x, ast.stmt):
            return False
    return False


def only_debug_name(p, m, quals):
    wc = p.cls("WorkerConfig")
    f = wc.find_method("worker_log")
    if f is None or f.module is not m:
        return False
    q = quals[-1] if quals else ""
    if q == f.name:
        return True
    # a helper that only the logging function calls
    callers = {g.name for g in m.classes[wc.name].methods.values() for n in ast.walk(g.node)
               if isinstance(n, ast.Attribute) and n.attr == q}
    return bool(callers) and callers <= {f.name, q}


def worker_generator(p, m, g, scope, quals, wr):
    e = g
    if isinstance(e, ast.Name) and scope:
        vals = [n.value for f in scope for n in ast.walk(f) if isinstance(n, (ast.Assign, ast.AnnAssign))
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target])
                if isinstance(t, ast.Name) and t.id == e.id]
        if vals:
            return all(worker_generator(p, m, v, scope, quals, wr) for v in vals)
        # a parameter: must be given the worker's generator by each caller
        f = scope[-1]
        names = [a.arg for a in f.args.args + f.args.kwonlyargs]
        if e.id in names and not isinstance(f, ast.Lambda):
            sites = [c for mm in p.modules.values() for c in ast.walk(mm.tree) if isinstance(c, ast.Call) and
                     (isinstance(c.func, ast.Name) and c.func.id == f.name or
                      isinstance(c.func, ast.Attribute) and c.func.attr == f.name)]
            pos = names.index(e.id)
            if class_named(quals, wr.name) and names and names[0] == "self":
                pos -= 1
            vs = []
            for c in sites:
                v = next((k.value for k in c.keywords if k.arg == e.id), c.args[pos] if pos < len(c.args) else None)
                vs.append(v)
            return bool(vs) and all(v is not None and not isinstance(v, ast.Name) and
                                    worker_generator(p, m, v, scope, quals, wr) for v in vs)
        return False
    if isinstance(e, ast.IfExp):
        return worker_generator(p, m, e.body, scope, quals, wr) and worker_generator(p, m, e.orelse, scope, quals, wr)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and class_named(quals, wr.name):
        f = wr.find_method(e.func.attr)
        return f is not None and any(isinstance(n, ast.Attribute) and n.attr in gen_attrs(wr) for n in ast.walk(f.node))
    if isinstance(e, ast.Attribute):
        if class_named(quals, wr.name) and isinstance(e.value, ast.Name) and e.value.id == "self":
            return e.attr in gen_attrs(wr)
        # another object: its attribute has to be a WorkerRng
        b = e.value
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == "self":
            for q in quals:
                c = m.classes.get(q)
                if c is not None:
                    t = p.attr_type(c, b.attr)
                    return t is not None and (t is wr or getattr(t, "cls", None) is wr or wr.name in repr(t)) and \
                        e.attr in gen_attrs(wr)
    return False


def gen_attrs(wr):
    """Attributes / properties of the worker generator class that are the generator"""
    out = set()
    for c in wr.mro():
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and \
                        isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "Generator":
                    for t in n.targets:
                        if isinstance(t, ast.Attribute):
                            out.add(t.attr)
    for c in wr.mro():
        for f in c.methods.values():
            if f.is_property and any(isinstance(n, ast.Attribute) and n.attr in out for n in ast.walk(f.node)):
                out.add(f.name)
    return out


# ---------------------------------------------------------------------------------------------------------------
class GenMon(Monitor):
    """mon = (generator on the way: None | 'new' | 'ready')"""

    def __init__(self, attrs, wr, ip=None):
        self.attrs, self.wr = attrs, wr
        self.bad = {}
        self.created = self.used = 0

    def init(self):
        return None

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.tag != "inlined":
            if ev.func == ("ext", "torch.Generator"):
                self.created += 1
                return "new"
            if ev.name == "manual_seed" and ev.recv is not None:
                if ev.recv == ("ext", "torch"):
                    return NotImplemented
                v = ev.arg(0, "seed") or ()
                if not v or not all(self.from_seed(t, ip) for t in v):
                    self.bad.setdefault("is seeded with something else than the worker's seed", ev)
                return "ready"
            if ev.name == "set_state" and ev.recv is not None and ev.recv[0] != "ext":
                v = ev.arg(0) or ()
                if not v or not all(any(x[0] == "call" and self.rank_call(x, ip) for x in subterms(t)) for t in v):
                    self.bad.setdefault("is set to a state that is not the one saved for this worker", ev)
                return "ready"
        return NotImplemented

    def from_seed(self, t, ip):
        return t[0] == "call" and (t[1][0] == "attr" and t[1][2] == "worker_seed" or
                                   t[1][0] == "bm" and ip.func_of(t[1]).name == "worker_seed") and not t[2]

    def rank_call(self, t, ip):
        return t[1][0] == "attr" and t[1][2] == "rank_worker_id" or \
            t[1][0] == "bm" and ip.func_of(t[1]).name == "rank_worker_id"


def generator(p, cx):
    cx.rule("C10.generator", "every generator the worker rng creates is, on each path, seeded with the worker's seed or "
            "set to the state saved for this very worker before it is used, and is neither created by the constructor "
            "nor shared by instances")
    wr = p.cls("WorkerRng")
    attrs = gen_attrs(wr)
    if not attrs:
        raise AnalysisBroken("WorkerRng: no generator attribute found")
    n = 0
    for f in sorted(wr.methods.values(), key=lambda f: f.name):
        if f.is_static or f.is_classmethod:
            continue
        mon = GenMon(attrs, wr)
        ip = Interp(p, mon, inline_classes={c.name for c in wr.mro()}, no_inline={"rank_worker_id", "worker_seed", "assert_worker"})
        o = ip.run(f, wr)
        cx.fn(f)
        if mon.created:
            n += 1
        ends = list(o.normal) + [s for s, *_ in o.ret]
        if mon.created and f.name.startswith("_") and not f.is_property and f.name != "__init__":
            # a helper: judged within its callers
            continue
        where = f.loc()
        if any(s.mon == "new" for s in ends):
            cx.bad("C10.generator", f"{wr.name}.{f.name}:unseeded", where,
                   "a path ends with a new generator that was neither seeded nor restored")
        else:
            cx.ok("C10.generator", f"{wr.name}.{f.name}:unseeded", where)
        for w, ev in mon.bad.items():
            cx.bad("C10.generator", f"{wr.name}:{w}", ev.loc(), f"the generator {w}")
        if f.name == "__init__" and mon.created:
            cx.bad("C10.generator", f"{wr.name}.__init__:early", where,
                   "the generator is created in the parent process, before the worker is known")
    for c in wr.mro():
        for a in attrs:
            v = c.class_attrs.get(a)
            if v is not None and not (isinstance(v, ast.Constant) and v.value is None) and not isinstance(v, FuncInfo):
                cx.bad("C10.generator", f"{c.name}.{a}:shared", c.loc() if hasattr(c, "loc") else "",
                       "the generator is shared by all instances")
    cx.floor("methods creating the worker generator", n, 1)


# ---------------------------------------------------------------------------------------------------------------
class OnWorkers(Monitor):
    """mon = outcomes of tests of the number of workers"""

    def init(self):
        return ()

    def event(self, ev, st, ip):
        if ev.kind == "branch" and len(st.mon) < 6 and any(
                is_attr(x, None, "num_workers") for t in (ev.cond or ()) for x in subterms(t)):
            return st.mon + ((ast.unparse(ev.node)[:40], ev.taken),)
        return NotImplemented


def seeds(p, cx):
    cx.rule("C10.seed", "the worker seed is computed by a library hash from the global worker number (the rank when there "
            "are no workers) and the seed offset, kept apart by a separator; the global worker number is "
            "rank * num_workers + worker number")
    wc = p.cls("WorkerConfig")
    m = wc.find_method("worker_seed")
    if m is None:
        raise AnalysisBroken("WorkerConfig.worker_seed not found")
    ip = Interp(p, OnWorkers(), no_inline={"rank_worker_id", "global_worker_id", "assert_worker"})
    o = ip.run(m, wc)
    cx.fn(m)
    if not o.ret:
        raise AnalysisBroken("WorkerConfig.worker_seed returns nothing")
    saw = set()
    for st, v, node in o.ret:
        for t in v:
            sub = list(subterms(t))
            offs = any(is_attr(x, ("self",), "seed_offset") for x in sub)
            gid = any(x[0] == "call" and named(x, "global_worker_id", ip) for x in sub)
            rank = any(is_attr(x, ("self",), "rank") for x in sub)
            if gid:
                saw.add("worker")
            cx.check(offs, "C10.seed", "worker_seed:seed_offset", m.loc(), "the seed does not depend on seed_offset")
            cx.check(gid or rank, "C10.seed", "worker_seed:worker", m.loc(),
                     "the seed does not depend on the worker (rank, when there are no workers)")
            if rank and not gid:
                # only where there are no workers
                cx.check(bool(st.mon), "C10.seed", "worker_seed:rank", m.loc(),
                         "the seed depends on the rank alone although there may be workers")
            hashed = any(x[0] == "call" and x[1][0] == "ext" and x[1][1].startswith(("hashlib.", "zlib.")) for x in sub)
            cx.check(hashed, "C10.seed", "worker_seed:hash", m.loc(),
                     "the seed is not computed by a library hash: neighbouring workers and seed offsets share seeds")
    cx.check("worker" in saw, "C10.seed", "worker_seed:global", m.loc(), "no path uses the global worker number")
    separated(p, cx, m)
    g = wc.find_method("global_worker_id")
    if g is None:
        raise AnalysisBroken("WorkerConfig.global_worker_id not found")
    ip = Interp(p, Monitor(), no_inline={"rank_worker_id", "assert_worker"})
    o = ip.run(g, wc)
    cx.fn(g)
    n = 0
    for st, v, node in o.ret:
        for t in v:
            if is_attr(t, None, "_worker_override_global_rank") or (t[0] == "attr" and "override" in t[2]):
                continue
            n += 1
            cx.check(global_id(t, ip), "C10.seed", "global_worker_id", m.loc(),
                     "is not rank * num_workers + worker number")
    cx.floor("global worker numbers", n, 1)


def named(t, name, ip):
    return t[1][0] == "attr" and t[1][2] == name or t[1][0] == "bm" and ip.func_of(t[1]).name == name


def separated(p, cx, m):
    """The text that is hashed keeps its parts apart."""
    for f in [m] + [g for g in m.cls.methods.values() if g is not m]:
        for n in ast.walk(f.node):
            if isinstance(n, ast.JoinedStr) and (f is m or any(
                    isinstance(x, ast.Attribute) and x.attr == "seed_offset" for x in ast.walk(n))):
                prev = None
                good = True
                for v in n.values:
                    if isinstance(v, ast.FormattedValue) and isinstance(prev, ast.FormattedValue):
                        good = False
                    prev = v
                if sum(isinstance(v, ast.FormattedValue) for v in n.values) > 1:
                    cx.check(good, "C10.seed", f"{f.name}:separator", f.loc(n),
                             "numbers are concatenated without separator: different workers and offsets share seeds")


def global_id(t, ip):
    if t[0] == "ifexp":
        return all(global_id(x, ip) for x in t[2:])
    if t[0] != "binop" or t[1] != "Add":
        return False
    for a, b in ((t[2], t[3]), (t[3], t[2])):
        if a[0] == "binop" and a[1] == "Mult" and {x[2] if x[0] == "attr" else None for x in (a[2], a[3])} == {
                "rank", "num_workers"}:
            if b[0] in ("param", "arg") or "override_local_worker_id" in repr(b) or b[0] == "call" and named(
                    b, "rank_worker_id", ip):
                return True
    return False


# ---------------------------------------------------------------------------------------------------------------
ORDER_FREE = {"set", "frozenset", "sorted", "len", "any", "all", "sum", "min", "max", "bool", "isinstance", "print",
              "repr", "str", "Counter"}
ORDERED = {"list", "tuple", "iter", "next", "enumerate", "zip", "map", "filter", "reversed", "chain", "dict", "deque",
           "cycle", "islice"}


class SetTypes:
    def __init__(self, p, m, scope, quals):
        self.p, self.m, self.scope = p, m, scope
        self.cls = next((m.classes[q] for q in quals if q in m.classes), None)

    def is_set(self, e, depth=0):
        if depth > 6:
            return False
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id in ("set", "frozenset"):
                return True
            if isinstance(f, ast.Attribute) and f.attr in ("union", "difference", "intersection",
                                                           "symmetric_difference", "copy"):
                return self.is_set(f.value, depth + 1)
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
            return any(self.is_set(x, depth + 1) or self.keys(x) for x in (e.left, e.right))
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body, depth + 1) or self.is_set(e.orelse, depth + 1)
        if isinstance(e, ast.BoolOp):
            return any(self.is_set(v, depth + 1) for v in e.values)
        if isinstance(e, ast.Name):
            for f in reversed(self.scope):
                if isinstance(f, ast.Lambda):
                    continue
                for a in f.args.args + f.args.kwonlyargs:
                    if a.arg == e.id:
                        return self.set_ann(a.annotation)
                vals = []
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                        vals.append(n.value)
                    elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                        if self.set_ann(n.annotation):
                            return True
                        if n.value is not None:
                            vals.append(n.value)
                if vals:
                    return any(self.is_set(v, depth + 1) for v in vals)
            return False
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and self.cls:
            a = self.cls.annotation(e.attr)
            return self.set_ann(a[0] if isinstance(a, tuple) else a)
        if isinstance(e, ast.Attribute):
            # some object: any class of the package that declares this attribute as a set
            return any(self.set_ann(c.annotations.get(e.attr)) if hasattr(c, "annotations") else False
                       for c in self.p.classes())
        return False

    def keys(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "items")

    def set_ann(self, a):
        if a is None:
            return False
        s = ast.unparse(a) if isinstance(a, ast.AST) else str(a)
        return s.split("[")[0].split(".")[-1] in ("Set", "set", "FrozenSet", "frozenset", "AbstractSet", "MutableSet")


def sets(p, cx):
    cx.rule("C10.sets", "no iteration whose order matters runs over a set (string hashes, hence set order, differ between "
            "processes); sorting, membership, size, set building and order-free reductions are fine")
    n = 0
    for m in p.modules.values():
        if outside(m):
            continue
        for node, scope, quals, parents in walk_scoped(m):
            ty = SetTypes(p, m, scope, quals)
            it = None
            if isinstance(node, (ast.For, ast.AsyncFor)):
                if ty.is_set(node.iter) and not order_free_body(node):
                    it = node.iter
                elif ty.is_set(node.iter):
                    n += 1
            elif isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                for g in node.generators:
                    if ty.is_set(g.iter):
                        n += 1
                        if not (not isinstance(node, ast.DictComp) and consumed_free(parents)):
                            it = g.iter
            elif isinstance(node, ast.Call) and node.args:
                f = node.func
                name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                hit = [a.value if isinstance(a, ast.Starred) else a for a in node.args
                       if (isinstance(a, ast.Starred) or name in ORDERED or
                           isinstance(f, ast.Attribute) and name in ("extend", "join"))
                       and ty.is_set(a.value if isinstance(a, ast.Starred) else a)]
                if hit and not consumed_free(parents):
                    it = hit[0]
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "pop" and \
                    ty.is_set(node.func.value):
                it = node.func.value
            elif isinstance(node, (ast.List, ast.Tuple)) and isinstance(getattr(node, "ctx", None), ast.Load):
                for a in node.elts:
                    if isinstance(a, ast.Starred) and ty.is_set(a.value):
                        it = a.value
            elif isinstance(node, ast.YieldFrom) and ty.is_set(node.value):
                it = node.value
            elif isinstance(node, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) for t in node.targets) and \
                    ty.is_set(node.value):
                it = node.value
            if it is not None:
                qual = ".".join(quals) or "<module>"
                cx.bad("C10.sets", f"{m.name}:{qual}:{ast.unparse(it)[:60]}", f"{m.relpath}:{node.lineno}",
                       f"{qual} iterates over a set where the order matters")
        n += 1
    cx.ok("C10.sets", f"{n} modules and iterations over sets")


def consumed_free(parents):
    if not parents:
        return False
    x = parents[-1]
    if isinstance(x, ast.Call):
        f = x.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        return name in ORDER_FREE or name in ("update", "issubset", "issuperset", "union", "difference", "intersection")
    return isinstance(x, ast.Compare)


def order_free_body(loop):
    """Only statements whose effects commute: set additions, raising, membership tests, logging."""
    for s in loop.body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Return, ast.Break, ast.AugAssign, ast.Delete)):
                return False
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(not isinstance(t, ast.Name) for t in ts):
                    return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "extend", "insert", "put", "setdefault", "write", "pop"):
                return False
    return True


def walk_scoped(module):
    out = []

    def go(n, scope, quals, parents):
        out.append((n, scope, quals, parents))
        s2, q2 = scope, quals
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            s2, q2 = scope + [n], quals + [n.name]
        elif isinstance(n, ast.Lambda):
            s2 = scope + [n]
        elif isinstance(n, ast.ClassDef):
            q2 = quals + [n.name]
        for c in ast.iter_child_nodes(n):
            go(c, s2, q2, parents + [n])

    for c in module.tree.body:
        go(c, [], [], [])
    return out


# ---------------------------------------------------------------------------------------------------------------
def loader_seeds(p, cx):
    cx.rule("C10.loader", "every data loader hands its workers an initialiser that seeds the global generators with the "
            "seed of that very worker; the seeds come from the worker configuration; seeding covers every library "
            "whose state is saved and uses the seed given")
    sites = 0
    for m in p.modules.values():
        if outside(m):
            continue
        for f in p.all_functions():
            if f.module is not m or f.outer is not None:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and any(k.arg == "worker_init_fn" for k in n.keywords):
                    sites += 1
                    init_site(p, cx, f, n)
    for c in p.classes():
        if any(str(b).split(".")[-1] == "DataLoader" for b in c.base_names()):
            i = c.find_method("__init__")
            cx.check(i is not None and any(k.arg == "worker_init_fn" for n in ast.walk(i.node)
                                           if isinstance(n, ast.Call) for k in n.keywords),
                     "C10.loader", f"{c.name}:worker_init_fn", i.loc() if i else "",
                     "workers are started without initialiser: their global generators are not seeded")
    cx.floor("data loaders giving a worker initialiser", sites, 1)
    rng = p.cls("SystemRng")
    s = rng.find_method("seed")
    if s is None:
        raise AnalysisBroken("SystemRng.seed not found")
    got = {}

    class M(Monitor):
        def event(self, ev, st, ip):
            if ev.kind == "call" and ev.func and ev.func[0] == "ext":
                got.setdefault(ev.func[1], []).append((ev, ev.args[0] if ev.args else ev.arg(None, "seed")))
            return NotImplemented

    ip = Interp(p, M())
    ip.run(s, rng)
    cx.fn(s)
    prm = [a.arg for a in s.node.args.args]
    for lib, fns in (("torch", ("torch.manual_seed", "torch.random.manual_seed")),
                     ("numpy", ("numpy.random.seed",)), ("random", ("random.seed",))):
        calls = [x for f in fns for x in got.get(f, [])]
        good = bool(calls) and all(v and all(any(x[0] == "param" and x[1] in prm for x in subterms(t)) for t in v)
                                   for ev, v in calls)
        cx.check(good, "C10.loader", f"SystemRng.seed:{lib}", s.loc(), f"{lib} is not seeded with the given seed")


def init_site(p, cx, f, call):
    hits = []

    class M(Monitor):
        def event(self, ev, st, ip):
            if ev.kind == "call" and ev.node is call:
                v = ev.arg(None, "worker_init_fn")
                if v:
                    hits.append(v)
            return NotImplemented

    ip = Interp(p, M(), no_inline={"worker_seed", "rank_worker_id", "global_worker_id"})
    ip.run(f, f.cls)
    cx.fn(f)
    name = f"{f.cls.name + '.' if f.cls else ''}{f.name}"
    if not hits:
        raise AnalysisBroken(f"{name}: data loader construction not reached")
    for v in hits:
        for t in v:
            fi, args = None, ()
            if t[0] == "call" and t[1] in (("ext", "functools.partial"), ("ext", "partial")) and t[2]:
                fi, args = ip.func_of(t[2][0]) if t[2][0][0] in ("fn", "func", "closure", "bm") else None, t[2][1:]
            else:
                try:
                    fi = ip.func_of(t)
                except Exception:
                    fi = None
            if fi is None:
                cx.bad("C10.loader", f"{name}:init", f.loc(call), "the worker initialiser cannot be followed")
                continue
            init_fn(p, cx, fi, name)
            seeds_arg(p, cx, f, name)


def seeds_arg(p, cx, f, name):
    """The list of seeds: worker_seed(i) for i over the workers"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.ListComp) and any(isinstance(x, ast.Attribute) and x.attr == "worker_seed"
                                               for x in ast.walk(n.elt)):
            g = n.generators[0]
            c = next(x for x in ast.walk(n.elt) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                     and x.func.attr == "worker_seed")
            a = c.args[0] if c.args else (c.keywords[0].value if c.keywords else None)
            good = a is not None and isinstance(a, ast.Name) and isinstance(g.target, ast.Name) and \
                a.id == g.target.id and isinstance(n.elt, ast.Call)
            cx.check(good, "C10.loader", f"{name}:seeds", f.loc(n), "worker i is not given the seed of worker i")


def init_fn(p, cx, fi, name):
    calls = []

    class M(Monitor):
        def event(self, ev, st, ip):
            if ev.kind == "call" and ev.func == ("ext", "torch.manual_seed"):
                calls.append((ev, ev.args[0] if ev.args else ev.arg(None, "seed")))
            return NotImplemented

    ip = Interp(p, M(), inline_classes={"SystemRng"}, no_inline={"worker_seed"})
    ip.run(fi, fi.cls)
    cx.fn(fi)
    cx.check(bool(calls), "C10.loader", f"{fi.name}:seeds", fi.loc(), "the worker initialiser does not seed the generators")
    a = fi.node.args
    last = (a.posonlyargs + a.args)[-1].arg if a.posonlyargs + a.args else None
    for ev, v in calls:
        good = bool(v) and last is not None and all(worker_elem(t, last, ip) for t in v)
        cx.check(good, "C10.loader", f"{fi.name}:own seed", ev.loc(),
                 "the worker is not seeded with its own seed: workers share one, or it depends on something else")


def worker_elem(t, last, ip):
    """The entry at the worker number (the last parameter), or worker_seed() of the worker itself"""
    if t[0] == "sub":
        return is_param(t[2], last)
    if t[0] == "call" and named(t, "worker_seed", ip):
        a = list(t[2]) + [x[1] if isinstance(x, tuple) and len(x) == 2 else x for x in (t[3] if len(t) > 3 and t[3] else ())]
        return not a or len(a) == 1 and is_param(a[0], last)
    return False


def is_param(t, name):
    return t[0] in ("param", "arg") and t[1] == name
