"""C26: the position of the loader: the last sample of each worker and whose turn is next."""
import ast

from ..flow import Interp, Monitor, NONE, V, subterms
from ..model import AnalysisBroken, ClassInfo, walk_own
from .keys import alts
from .state import slot_list

SELF = ("self",)
LOADER = "SavableDataLoader"
STATE = ("param", "state")
RUNNING = ("tok", "running iterator")


class Config(Monitor):
    """The attributes `known` have the given values."""

    def __init__(self, known, stop=()):
        self.known = known
        self.stop = set(stop)
        self.seen = []

    def init(self):
        return ()

    def loaded(self, t, st, ip):
        if t[0] == "attr" and t[2] in self.known and (t[2] == "num_workers" or t[1] in (SELF, ("param", "loader"))):
            return self.known[t[2]]
        return t

    def inline(self, fi, recv, ip, stack):
        if fi.name in ("should_log", "worker_log") or fi.name in self.stop:
            return False
        return NotImplemented

    def result(self, ev, st, ip):
        if ev.func in (("ext", "copy.deepcopy"), ("ext", "copy.copy")) and ev.args and len(ev.args[0]) == 1:
            t = next(iter(ev.args[0]))
            return t if t[0] == "const" else ("copied", ev.func[1], id(ev.node), t)
        if ev.func in (("ext", "max"), ("ext", "min")) and ev.args and not ev.kwargs:
            vs = [next(iter(a)) for a in ev.args if len(a) == 1]
            if len(vs) == len(ev.args) > 1 and all(x[0] == "const" and type(x[1]) is int for x in vs):
                return ("const", (max if ev.func[1] == "max" else min)(x[1] for x in vs))
        return None


class Commands(Config):
    """Commands put into the workers' queues: (name, arguments…)"""

    def __init__(self, known):
        super().__init__(known)
        self.cmds = []

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.func and ev.func[0] == "attr" and ev.func[2] in ("put", "put_nowait") and ev.args:
            for t in ev.args[0]:
                es = list(t[1]) if t[0] == "tuple" else None
                if t[0] == "obj" and t in st.heap:
                    es = [next(iter(vs)) for _, vs in sorted(st.heap[t][1], key=lambda kv: str(kv[0]))]
                if es and es[0][0] == "const" and tuple(es) not in self.cmds:
                    self.cmds.append((es[0][1],) + tuple(es[1:]))
        return NotImplemented


class Stores(Config):
    """mon = the stores and calls done so far, in order"""

    def __init__(self, known, stop=(), calls=()):
        super().__init__(known, stop)
        self.calls = set(calls)
        self.evs = {}

    def event(self, ev, st, ip):
        k = None
        if ev.kind in ("store_attr", "store_sub", "del_sub", "aug_attr"):
            k = ("store", id(ev.node), ev.kind, ev.attr, ev.base, ev.index, ev.value)
        elif ev.kind == "call" and ev.tag != "inlined" and ev.func and ev.func[0] in ("attr", "bm"):
            n = method(ev.func, ip)
            if n in self.calls:
                k = ("call", id(ev.node), n, ev.func[1], tuple(ev.args or ()), tuple(sorted((ev.kwargs or {}).items())))
        if k is None or st.mon and st.mon[-1] == k:
            return NotImplemented
        self.evs[k] = ev
        return st.mon + (k,)


def method(f, ip):
    return f[2] if f[0] == "attr" else getattr(ip.func_of(f), "name", None)


def uncopy(t):
    while True:
        if t[0] == "copied":
            t = t[3]
        elif t[0] == "call" and t[1] in (("ext", "list"), ("ext", "tuple")) and len(t[2]) == 1:
            t = t[2][0]
        else:
            return t


def deep(t):
    """Is it a deep copy made of the parameter?"""
    return t[0] == "copied" and t[1] == "copy.deepcopy"


def origin(t, want):
    """Is the term `want`, however often copied?"""
    return strip(t) == want


def strip(t):
    """Remove the copies within the term"""
    t = uncopy(t)
    if t[0] in ("attr", "sub"):
        return (t[0], strip(t[1])) + t[2:]
    return t


def elements(v, st):
    """Terms of the elements of list values, None if unknown"""
    out = set()
    for t in v:
        t = uncopy(t)
        if t[0] == "binop" and t[1] == "Mult":
            objs = [x for x in t[2:4] if x[0] == "obj"]
            if len(objs) != 1:
                return None
            r = elements({objs[0]}, st)
        elif t[0] == "call" and t[1] in (("ext", "list"), ("ext", "tuple")) and len(t[2]) == 1:
            r = elements({t[2][0]}, st)
        elif t[0] == "obj" and t in st.heap and st.heap[t] is not None:
            r = {x for _, vs in st.heap[t][1] for x in vs}
        else:
            return None
        if r is None:
            return None
        out |= r
    return out


def lin(t, leaf, sign=1, out=None):
    out = {} if out is None else out
    if t[0] == "binop" and t[1] in ("Add", "Sub"):
        lin(t[2], leaf, sign, out)
        lin(t[3], leaf, sign if t[1] == "Add" else -sign, out)
    elif t[0] == "const" and type(t[1]) is int:
        out["1"] = out.get("1", 0) + sign * t[1]
    else:
        k = leaf(t)
        out[k] = out.get(k, 0) + sign
    return out


def forms(v, leaf):
    return {frozenset((k, c) for k, c in lin(x, leaf).items() if c) for t in v for x in alts(t)}


def field(t):
    """The attribute a list element (or the attribute of one) comes from"""
    t = uncopy(t)
    while t[0] in ("elem", "sub", "val", "index", "copied"):
        t = t[3] if t[0] == "copied" else t[1]
        if t[0] == "call" and t[1] == ("ext", "zip"):
            return t
    return t[2] if t[0] == "attr" else t


def zipped(t):
    """sub(elem(zip(a, b)), i) -> elem of the i-th"""
    u = t
    if u[0] == "sub" and u[1][0] == "elem" and u[1][1][0] == "call" and u[1][1][1] == ("ext", "zip") and u[2][0] == "const":
        a = u[1][1][2]
        if u[2][1] < len(a):
            return ("elem", a[u[2][1]])
    return t


def leaf_field(t):
    return field(zipped(t))


def fields(st, t):
    h = st.heap.get(t)
    return dict(h[1]) if h is not None else None


# ---- the loader ------------------------------------------------------------
class Loader:
    def __init__(self, p):
        self.p = p
        self.c = p.cls(LOADER, must=True)
        for m in ("__iter__", "save_state_rank", "restore_state_rank", "restore_state", "__init__"):
            if m not in self.c.methods:
                raise AnalysisBroken(f"{LOADER}.{m} not found")
        self.started = self.persistent()
        self.wrapped = {}
        self.merger = None

    def persistent(self):
        """The attribute keeping the iterator of running workers: what the iteration stores an own iterator in."""
        names = set()
        for f in self.closure(self.c.methods["__iter__"]):
            for n in walk_own(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Attribute) and isinstance(n.value, (ast.Call, ast.Name)):
                            names.add(t.attr)
        names &= {n.attr for f in ("restore_state", "restore_state_rank", "save_state_rank")
                  for g in self.closure(self.c.methods[f]) for n in ast.walk(g.node) if isinstance(n, ast.Attribute)}
        if len(names) != 1:
            raise AnalysisBroken(f"{LOADER}: the attribute holding the running iterator is not recognised: {sorted(names)}")
        return next(iter(names))

    def closure(self, f):
        out, todo = [], [f]
        while todo:
            g = todo.pop()
            if g in out:
                continue
            out.append(g)
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and n.attr in self.c.methods:
                    todo.append(self.c.methods[n.attr])
        return out

    def known(self, n, running=None):
        k = {"num_workers": ("const", n)}
        if running is not None:
            k[self.started] = RUNNING if running else NONE
        return k

    def interp(self, mon, n=None):
        ip = Interp(self.p, mon)
        ip.folds = True

        def isinst(t, c, st, ip_):
            if t == ("attr", SELF, "dataset") and n in self.wrapped:
                cs = [ip.cls_of(x) for x in (c[1] if c[0] == "tuple" else (c,))]
                if None not in cs:
                    return any(self.wrapped[n].issubclass(x) for x in cs)
            return None

        ip.isinst = isinst
        if n in self.wrapped:
            ip.terms_type[("attr", SELF, "dataset")] = ("cls", self.wrapped[n])
        ip.terms_type[("param", "loader")] = ("cls", self.c)
        ip.inline_classes = {self.c.name}
        return ip

    def iterator(self):
        """(FuncInfo of __next__, its class, closure bindings) of the iterator handed to the user"""
        it = self.c.methods["__iter__"]
        nested = [ClassInfo(n, it.module) for f in self.closure(it) for n in ast.walk(f.node) if isinstance(n, ast.ClassDef)]
        if not nested:
            made = {n.func.id for f in self.closure(it) for n in ast.walk(f.node)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
            nested = [x for x in self.p.classes() if x.module is it.module and x.name in made]
        nested = [x for x in nested if "__next__" in x.methods]
        if len(nested) != 1:
            raise AnalysisBroken(f"{LOADER}: the iterator handed to the user is not recognised")
        binds = {}
        for f in self.closure(it):
            first = f.node.args.args[0].arg if f.node.args.args else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == first:
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            binds[t.id] = V(("param", "loader"))
        return nested[0].methods["__next__"], nested[0], binds


def check(p, cx):
    cx.rule("C26.saved", "the saved position is made of the loader's own counters")
    cx.rule("C26.initial", "before any sample, no worker has handed one out and the first worker is next")
    cx.rule("C26.untouched", "before any sample, the state saved is the one restored")
    cx.rule("C26.restored", "restoring re-establishes whose turn is next, the counters and the datasets")
    cx.rule("C26.private", "the restored state, the saved one and the one in use are different objects")
    cx.rule("C26.handed", "each sample handed out updates the counters")
    cx.rule("C26.refused", "restoring while the workers are running is refused without any effect")
    cx.rule("C26.checkpoint", "the workers answer with the position after the last sample handed out")
    cx.rule("C26.skip", "samples between the checkpoint and the position are skipped, each once")
    cx.rule("C26.kept", "a checkpoint kept in a worker describes the worker at its number, and is kept while it may be asked for")
    cx.rule("C26.worker", "a worker starts by restoring every part of its own saved state, from its own slot")
    cx.rule("C26.merged", "the merged state has one entry per worker, in their order, of each part the workers saved")
    cx.rule("C26.turn", "the worker whose turn is recorded is the one which continues")
    ld = Loader(p)
    initial(p, cx, ld)
    q = saved(p, cx, ld)
    if q is None:
        return
    nxt, cnt, kept, field_next, field_data, answer = q
    first_values(p, cx, ld, nxt, cnt, kept)
    form, w = checkpoint(p, cx, ld, answer)
    restored(p, cx, ld, nxt, cnt, kept, field_next, field_data, form)
    handed(p, cx, ld, nxt, cnt)
    refused(p, cx, ld)
    if w is not None:
        skipping(p, cx, ld, w)
    cx.notes.append(f"position of the loader: counters {cnt}, next worker {nxt}, restored state {kept}, iterator {ld.started}")


def initial(p, cx, ld):
    """Which dataset is given to the underlying loader, depending on the number of workers"""
    f = ld.c.methods["__init__"]
    cx.fn(f)
    for n in (0, 2):
        found = set()

        class Given(Config):
            def event(self, ev, st, ip):
                if ev.kind == "call" and ev.func and ev.func[0] == "attr" and ev.func[2] == "__init__" \
                        and ev.func[1][0] == "super":
                    d = ev.arg(0, "dataset")
                    for t in d or ():
                        if t[0] == "call" and t[1][0] == "cls":
                            found.add(ip.cls_of(t[1]))
                        else:
                            found.add(None)
                return NotImplemented

        ip = ld.interp(Given(ld.known(n)))
        ip.run(f, ld.c)
        if len(found) != 1 or None in found:
            raise AnalysisBroken(f"{LOADER}: the dataset given to the loader with {n} workers is not recognised")
        ld.wrapped[n] = found.pop()


def saved(p, cx, ld):
    f = ld.c.methods["save_state_rank"]
    cx.fn(f)
    where = f.loc()
    nxt, cnt, kept, fn, fd = set(), set(), set(), set(), set()
    answer = set()
    for n, running in ((0, None), (2, False), (2, True)):
        mon = Commands(ld.known(n, bool(running)))
        ip = ld.interp(mon, n)
        o = ip.run(f, ld.c)
        w = ld.wrapped[n]
        what = "no workers" if n == 0 else "workers running" if running else "workers not started"
        if not o.ret:
            cx.bad("C26.saved", f"{what}:returns", where, f"no state is returned with {what}")
            continue
        ok = True
        for st, v, node in o.ret:
            for t in v:
                if (n, running) == (2, False):
                    u = uncopy(t)
                    if u[0] == "attr" and u[1] == SELF:
                        kept.add(u[2])
                        cx.check(deep(t), "C26.private", "saved before the start", where,
                                 "the state returned is not a deep copy of the restored one")
                    else:
                        ok = False
                        cx.bad("C26.untouched", "not started", where,
                               "with workers configured but not started, the state returned is not the restored one")
                    continue
                h = fields(st, t)
                if h is None:
                    ok = False
                    cx.bad("C26.saved", f"{what}:record", where, f"with {what}, no record of dataset state and next worker is returned")
                    continue
                for k, vs in h.items():
                    for x in vs:
                        if x[0] == "attr" and x[1] == SELF:
                            nxt.add(x[2])
                            fn.add(k)
                        elif x[0] == "const" or x == NONE:
                            ok = False
                            cx.bad("C26.saved", f"{what}:{k}", where, f"with {what}, {k} is always {x[1]!r}")
                        else:
                            fd.add(k)
                            ok &= data(cx, ld, what, n, x, w, ip, cnt, answer, where, st, mon.cmds)
        if ok:
            cx.ok("C26.saved", what, where)
    if len(nxt) != 1 or len(fn) != 1 or len(fd) != 1 or len(kept) != 1 or len(cnt) != 1 or len(answer) != 1:
        for what, s in (("the next worker", nxt), ("the restored state", kept), ("the last samples", cnt)):
            if len(s) != 1:
                cx.bad("C26.saved", f"one attribute for {what}", where,
                       f"the saved state does not take {what} from one attribute: {sorted(s)}")
        return None
    one = lambda s: next(iter(s))
    return one(nxt), one(cnt), one(kept), one(fn), one(fd), one(answer)


def data(cx, ld, what, n, x, w, ip, cnt, answer, where, st, cmds):
    """The state of the dataset in the record: merged from the states of all workers"""
    ds = ("attr", SELF, "dataset")
    if x[0] != "call" or x[1][0] not in ("attr", "bm") or x[1][1] != ds:
        cx.bad("C26.saved", f"{what}:dataset state", where, f"with {what}, the dataset's state is not merged by the dataset")
        return False
    if n == 0:
        inner = [y for a in x[2] for y in each(a, st) if y[0] == "call" and y[1][0] in ("attr", "bm") and y[1][1] == ds and
                 method(y[1], ip) == "save_state"]
        if not inner:
            cx.bad("C26.saved", f"{what}:dataset state", where, "without workers, the current state of the dataset is not saved")
            return False
        return True
    ld.merger = method(x[1], ip)
    if not cmds or len({c[0] for c in cmds}) != 1:
        cx.bad("C26.saved", f"{what}:dataset state", where, "the running workers are not asked for their states")
        return False
    c = cmds[0]
    answer.add(c[0])
    args = {uncopy(x) for y in cmds for x in y[1:]}
    arg = next(iter(args)) if len(args) == 1 and all(len(y) == 2 for y in cmds) else None
    if arg is None or arg[0] != "attr" or arg[1] != SELF:
        cx.bad("C26.saved", f"{what}:position", where, "the workers are not asked for the position of the last samples handed out")
        return False
    cnt.add(arg[2])
    if w.find_method(c[0]) is None:
        raise AnalysisBroken(f"{w.name}.{c[0]} not found")
    return True


def each(t, st):
    if t[0] == "obj" and t in st.heap:
        return [x for _, vs in st.heap[t][1] for x in vs]
    return [t]


def first_values(p, cx, ld, nxt, cnt, kept):
    f = ld.c.methods["__init__"]
    for n in (0, 2):
        mon = Stores(ld.known(n))
        o = ld.interp(mon, n).run(f, ld.c)
        for st, *_ in o.ret:
            last = {}
            for k in st.mon:
                if k[0] == "store" and k[2] == "store_attr" and SELF in k[4]:
                    last[k[3]] = k[6]
            for a, want in ((nxt, ("const", 0)), (kept, NONE), (ld.started, NONE)):
                v = last.get(a)
                if v is None:
                    e, _ = ld.c.class_attr(a) or (None, None)
                    v = V(("const", e.value)) if isinstance(e, ast.Constant) else None
                cx.check(v is not None and set(v) == {want}, "C26.initial", f"{a} with {n} workers", f.loc(),
                         f"{a} is not {want[1]!r} before any sample (with {n} workers)")
            v = last.get(cnt)
            es = elements(v, st) if v is not None else None
            cx.check(es == {("const", -1)}, "C26.initial", f"{cnt} with {n} workers", f.loc(),
                     f"{cnt} does not say that no worker has handed out a sample (with {n} workers)")


def checkpoint(p, cx, ld, answer):
    """What a worker answers when asked for its position: offset = last + 1 - the checkpoint's number"""
    w = ld.wrapped[2]
    f = w.find_method(answer)
    cx.fn(f)
    args = [a.arg for a in f.all_params()][1:]
    if not args:
        cx.bad("C26.checkpoint", "argument", f.loc(), "the worker does not look at the last samples handed out")
        return None, w

    class At(Config):
        """mon = what is known of the checkpoint's number: it does not exceed ..."""

        def init(self):
            return frozenset()

        def event(self, ev, st, ip):
            if ev.kind == "branch":
                r = set(st.mon)
                for t in ev.cond or ():
                    r |= bounds(t, ev.taken, leaf)
                return frozenset(r)
            return NotImplemented

    def leaf(t):
        if t[0] == "sub" and strip(t[1]) == ("param", args[0]):
            return "last"
        if t[0] == "attr" and t[2] == "sample_index":
            return ("number", t[1])
        return t

    def bounds(t, taken, leaf):
        if t[0] == "not":
            return bounds(t[1], not taken, leaf)
        if t[0] == "cmp" and t[1] in ("LtE", "Lt", "GtE", "Gt", "Eq"):
            op, a, b = t[1], t[2], t[3]
            if op in ("GtE", "Gt"):
                op, a, b = {"GtE": "LtE", "Gt": "Lt"}[op], b, a
            if not taken:
                if op == "Eq":
                    return set()
                op, a, b = {"LtE": "Lt", "Lt": "LtE"}[op], b, a
            d = lin(b, leaf)
            for k, c in lin(a, leaf, -1).items():
                d[k] = d.get(k, 0) + c
            if op == "Lt":
                d["1"] = d.get("1", 0) - 1
            return {frozenset((k, c) for k, c in d.items() if c)}
        return set()

    ip = ld.interp(At({}))
    o = ip.run(f, w)
    res = {}
    n = 0
    for st, v, node in o.ret:
        for t in v:
            h = fields(st, t)
            if h is None:
                cx.bad("C26.checkpoint", "answer", f.loc(), "the worker's answer is not a checkpoint")
                return None, w
            n += 1
            cps = {x[1] for vs in h.values() for y in vs for x in subterms(y) if x[0] == "attr" and x[2] == "sample_index"}
            if len(cps) != 1:
                cx.bad("C26.checkpoint", "one checkpoint", f.loc(), "the answer does not measure the distance to one checkpoint")
                return None, w
            cp = cps.pop()
            part = [x for x in subterms(cp) if x[0] == "slice" or x[0] == "sub" and x[1][0] == "attr"]
            cx.check(not part, "C26.checkpoint", "all of them", f.loc(), "not all checkpoints kept are considered")
            offs = {}
            for k, vs in h.items():
                fs = forms(vs, leaf)
                if vs and all(x[0] == "attr" and x[1] == cp for x in vs):
                    for x in vs:
                        cx.check(x[2] == k, "C26.checkpoint", f"{k} of the checkpoint", f.loc(),
                                 f"{k} of the answer is the checkpoint's {x[2]}")
                elif any(dict(q).get("last") for q in fs):
                    offs[k] = fs
                else:
                    cx.bad("C26.checkpoint", f"{k} of the checkpoint", f.loc(), f"{k} of the answer does not come from the checkpoint found")
            want = {("number", cp): -1, "last": 1, "1": 1}
            for k, fs in offs.items():
                good = fs == {frozenset(want.items())}
                cx.check(good, "C26.checkpoint", f"{k}", f.loc(),
                         f"{k} is not the number of samples from the checkpoint to the one after the last handed out")
                cx.check(frozenset(want.items()) in st.mon, "C26.checkpoint", "not ahead", f.loc(),
                         "the checkpoint chosen may lie behind the position asked for")
                res[k] = True
    if not n or not res:
        cx.bad("C26.checkpoint", "answer", f.loc(), "the worker never answers with a checkpoint and its distance")
        return None, w
    return set(res), w


def restored(p, cx, ld, nxt, cnt, kept, fnext, fdata, offs):
    f = ld.c.methods["restore_state_rank"]
    cx.fn(f)
    arg = [a.arg for a in f.all_params()][1]
    calls = {"restore_state", "restore_checkpoint"}
    for n in (0, 2):
        w = ld.wrapped[n]
        calls |= {m for m in w.methods if m.startswith("restore")}
    for n in (0, 2):
        for given in (False, True):
            what = ("a state" if given else "no state") + (f" with {n} workers" if n else " without workers")
            mon = Stores(ld.known(n, False), calls=calls)
            ip = ld.interp(mon, n)
            src = ("param", arg)
            ip.param_nonnull.add(src)
            ip.terms_type[src] = ("cls", p.cls("SavableDataLoaderState")) if p.cls("SavableDataLoaderState") else None
            if given:
                old = ip.nullness
                ip.nullness = lambda t, st, old=old: False if strip(t) == src else old(t, st)
            o = ip.run(f, ld.c, bind={arg: V(src if given else NONE)})
            if not o.ret:
                cx.bad("C26.restored", what, f.loc(), f"restoring {what} never succeeds")
            for st, *_ in o.ret:
                one_restore(cx, ld, f, what, n, given, st, ip, src, nxt, cnt, kept, fnext, fdata, offs)


def one_restore(cx, ld, f, what, n, given, st, ip, src, nxt, cnt, kept, fnext, fdata, offs):
    where = f.loc()
    last, ds = {}, []
    for k in st.mon:
        if k[0] == "store" and SELF in (k[4] or ()) and k[2] == "store_attr":
            last[k[3]] = k[6]
        elif k[0] == "call" and k[3] == ("attr", SELF, "dataset"):
            ds.append(k)
    # whose turn is next
    want = ("attr", src, fnext) if given else ("const", 0)
    v = last.get(nxt)
    cx.check(v is not None and {strip(t) for t in v} == {want}, "C26.restored", f"{what}:{nxt}", where,
             f"restoring {what}, {nxt} is not set to {'the saved one' if given else 'the first worker'}")
    # the dataset
    wantd = ("attr", src, fdata) if given else NONE
    good = [k for k in ds if k[4] and {strip(t) for t in k[4][0]} == {wantd}]
    cx.check(len(good) == 1 and len(ds) == 1, "C26.restored", f"{what}:dataset", where,
             f"restoring {what}, the dataset is not given its saved state (once)")
    for k in good:
        m = ld.wrapped[n].find_method(k[2])
        cx.check(m is not None, "C26.restored", f"{what}:method", where, f"{ld.wrapped[n].name} has no {k[2]}")
        if n:
            rest = [a for a in k[4][1:]] + [v for _, v in k[5]]
            cx.check(len(rest) == 1 and {strip(t) for t in rest[0]} == {want}, "C26.restored", f"{what}:first worker", where,
                     f"restoring {what}, the worker to continue with is not passed on")
        if given:
            cx.check(all(root(t) != src for t in k[4][0]), "C26.private", f"{what}:dataset", where,
                     "the datasets go on using the state object passed by the caller")
    # the counters
    if n:
        v = last.get(cnt)
        es = elements(v, st) if v is not None else None
        if given:
            want = {frozenset({"sample_index": 1, "1": -1, **{o: 1 for o in offs or ()}}.items())}
            ok = es is not None and forms(es, leaf_field) == want
        else:
            ok = es == {("const", -1)}
        cx.check(ok, "C26.restored", f"{what}:{cnt}", where,
                 f"restoring {what}, {cnt} is not set to the last samples handed out before it was saved")
    # what is saved before any sample
    v = last.get(kept)
    if not (v is not None and {strip(t) for t in v} == {src if given else NONE}):
        cx.bad("C26.untouched", what, where, f"restoring {what}, the state to be saved before any sample is another one")
    else:
        cx.ok("C26.untouched", what, where)
        if given:
            used = {root(t) for k in good for t in k[4][0]}
            cx.check(all(deep(t) for t in v) and not (set(v) & used), "C26.private", f"{what}:kept", where,
                     "the state kept for saving is the object in use or the caller's")


def root(t):
    """The object a field is taken of"""
    while t[0] in ("attr", "sub"):
        t = t[1]
    return t


# ---- the samples handed out ------------------------------------------------
class Next(Stores):
    """StopIteration comes from the underlying iterator; mon = stores, prefixed by ("got", term) / ("end",)"""

    def raises(self, ev, st, ip):
        return ("StopIteration",) if self.fetch(ev) else ()

    @staticmethod
    def fetch(ev):
        return ev.kind == "call" and (ev.func == ("ext", "next") or ev.func and ev.func[0] == "attr" and ev.func[2] == "__next__")

    def event(self, ev, st, ip):
        if self.fetch(ev) and ev.tag != "inlined":
            self.fetches.add(id(ev.node))
            return st.mon + (("fetch", id(ev.node)),)
        return super().event(ev, st, ip)

    def result(self, ev, st, ip):
        if self.fetch(ev):
            return self.item
        return super().result(ev, st, ip)


SAMPLE, NUMBER = ("tok", "sample"), ("tok", "number")


def handed(p, cx, ld, nxt, cnt):
    f, c, binds = ld.iterator()
    cx.fn(f)
    sent = sent_order(p, cx, ld)
    base = None
    for n, w in ((0, 0), (1, 0), (3, 0), (3, 1), (3, 2)):
        mon = Next({**ld.known(n)})
        mon.fetches = set()
        mon.item = ("tuple", tuple({sent["worker"]: ("const", w), sent["number"]: NUMBER, sent["sample"]: SAMPLE}[i]
                                   for i in range(3)))
        ip = ld.interp(mon, n)
        o = ip.run(f, c, closure_bind=binds)
        if not mon.fetches or not o.ret:
            cx.bad("C26.handed", "fetches", f.loc(), "no sample is fetched from the workers")
            return
        for st, v, node in o.ret:
            got = [k for k in st.mon if k[0] == "fetch"]
            cx.check(len(got) == 1, "C26.handed", "one sample", f.loc(), "a sample fetched from the workers is dropped")
            cx.check(set(v) == {SAMPLE}, "C26.handed", "returned", f.loc(), "what is returned is not the sample sent by the worker")
            subs = [k for k in st.mon if k[0] == "store" and k[2] == "store_sub" and any(b[0] == "attr" and b[2] == cnt for b in k[4])]
            ok = len(subs) == 1 and set(subs[0][5]) == {("const", w)} and set(subs[0][6]) == {NUMBER}
            cx.check(ok, "C26.handed", f"{cnt}", f.loc(),
                     f"a sample is handed out without recording its number for its worker in {cnt}")
            last = [k for k in st.mon if k[0] == "store" and k[2] == "store_attr" and k[3] == nxt]
            ok = bool(last) and set(last[-1][6]) == {("const", (w + 1) % max(n, 1))}
            cx.check(ok, "C26.handed", f"{nxt} with {n} workers", f.loc(),
                     f"after a sample, {nxt} is not the worker after the one that sent it (with {n} workers)")
        ends = [r for r in o.exc if r[1] == "StopIteration"]
        cx.check(bool(ends), "C26.handed", "end", f.loc(), "the end of the data is not passed on")
        for st, *_ in ends:
            last = [k for k in st.mon if k[0] == "store" and k[2] == "store_attr" and k[3] == nxt]
            cx.check(bool(last) and set(last[-1][6]) == {("const", 0)}, "C26.handed", f"{nxt} at the end", f.loc(),
                     f"at the end of the data, {nxt} is not reset to the first worker")
            if last and set(last[-1][6]) == {("const", 0)} and not rotation_reset(p, ld):
                base = f
    if base is not None:
        cx.bad("C26.turn", f"{LOADER}:later iterations", base.loc(),
               "at the end of the data the first worker is recorded as the next one, but workers rotated by a restore "
               "stay rotated in the following iterations")


def sent_order(p, cx, ld):
    """Which part of what the worker sends is its number, the sample's number, and the sample?"""
    w = ld.wrapped[2]
    f = w.methods["__iter__"]
    out = {}

    class Sent(Config):
        def event(self, ev, st, ip):
            if ev.kind == "yield":
                for t in ev.value or ():
                    if t[0] == "tuple" and len(t[1]) == 3:
                        for i, x in enumerate(t[1]):
                            out.setdefault(i, set()).add(x)
                    else:
                        out.setdefault(0, set()).add(None)
            return NotImplemented

    ip = ld.interp(Sent({}))
    ip.run(f, w)
    r = {}
    for i, ts in out.items():
        if all(t is not None and (t[0] == "elem" or t[0] == "call" and t[1] == ("ext", "next")) for t in ts):
            r["sample"] = i
        elif all(t is not None and (t[0] == "attr" and "worker" in t[2] or t[0] == "call") for t in ts):
            r["worker"] = i
        else:
            r["number"] = i
    if len(r) != 3:
        raise AnalysisBroken(f"{w.name}: what the workers send is not recognised")
    return r


def rotation_reset(p, ld):
    """Is the rotation of the workers ended somewhere besides restoring?"""
    w = ld.wrapped[2]
    src = set()
    for m in w.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == "worker_id_offset":
                        src |= {x.attr for x in ast.walk(n.value) if isinstance(x, ast.Attribute)}
    for name, m in w.methods.items():
        if name == "__init__" or name.startswith("restore"):
            continue
        for n in ast.walk(m.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in src for t in n.targets):
                return True
    return False


# ---- refusing --------------------------------------------------------------
def refused(p, cx, ld):
    for name in ("restore_state", "restore_state_rank"):
        f = ld.c.methods[name]
        cx.fn(f)
        effects = []

        class Effects(Config):
            def event(self, ev, st, ip):
                if ev.kind in ("store_attr", "store_sub"):
                    effects.append(ev)
                elif ev.kind == "call" and ev.tag != "inlined":
                    t = ev.func
                    if t and t[0] in ("attr", "bm") and root(t) == SELF and method(t, ip) not in ("should_log", "worker_log"):
                        effects.append(ev)
                    elif t and t[0] == "ext" and ("scatter" in t[1] or "gather" in t[1] or "broadcast" in t[1]):
                        effects.append(ev)
                return NotImplemented

        ip = ld.interp(Effects(ld.known(2, True)), 2)
        o = ip.run(f, ld.c)
        ok = True
        if o.ret:
            ok = False
            cx.bad("C26.refused", f"{name}:refused", f.loc(), f"{name} does not fail while the workers are running")
        for ev in effects[:1]:
            ok = False
            cx.bad("C26.refused", f"{name}:effect", ev.loc(), f"{name} changes something before it is refused")
        if ok:
            cx.ok("C26.refused", name, f.loc())


# ---- skipping --------------------------------------------------------------
def skipping(p, cx, ld, w):
    """In the worker: each sample fetched is either skipped, one less to skip and one counted, or handed out."""
    f = w.methods["__iter__"]
    r = w.find_method("restore_checkpoint")
    cx.fn(f)
    # what is left to skip: set from the answer's distance when restoring
    src = None
    for name, m in w.methods.items():
        if not name.startswith("restore"):
            continue
        arg = [a.arg for a in m.all_params()]
        if len(arg) < 3:
            continue
        cx.fn(m)
        mon = Stores({}, calls={"restore_state"})
        ip = ld.interp(mon)
        st_param = ("param", arg[1])
        ip.param_nonnull.add(st_param)
        o = ip.run(m, w, bind={arg[1]: V(st_param)})
        for st, *_ in o.ret:
            last = {}
            ds = []
            for k in st.mon:
                if k[0] == "store" and k[2] == "store_attr" and SELF in k[4]:
                    last[k[3]] = k[6]
                elif k[0] == "call" and k[3] == ("attr", SELF, "dataset"):
                    ds.append(k)
            skip = {a for a, v in last.items() if {strip(t) for t in v} == {("attr", st_param, "offset")} or
                    {t for t in v if t[0] == "call" and t[2] and strip(t[2][0]) == ("attr", st_param, "offset")}}
            own = {a for a, v in last.items() if {strip(t) for t in v} == {("attr", st_param, "state")}}
            rot = {a for a, v in last.items() if set(v) == {("param", arg[2])}}
            cx.check(len(skip) == 1, "C26.skip", "set", m.loc(), "the number of samples to skip is not taken from the checkpoint")
            cx.check(len(own) == 1, "C26.restored", "worker state", m.loc(), "the worker's own state is not kept for its start")
            cx.check(len(rot) == 1, "C26.turn", "rotation", m.loc(), "the worker to start with is not kept for the workers' start")
            cx.check(len(ds) == 1 and {strip(t) for t in ds[0][4][0]} == {("attr", st_param, "dataset_state")},
                     "C26.restored", "worker dataset", m.loc(), "the dataset in the worker is not given its saved state")
            if len(skip) == 1:
                src = next(iter(skip)), (next(iter(rot)) if len(rot) == 1 else None)
            if len(own) == 1:
                worker_state(p, cx, ld, w, next(iter(own)))
    if src is None:
        return
    skip, rot = src
    mon = Skip(skip)
    ip = ld.interp(mon)
    ip.run(f, w)
    if not mon.rounds:
        cx.bad("C26.skip", "rounds", f.loc(), "the worker does not go through its dataset")
    for what, ev in mon.bad.items():
        cx.bad("C26.skip", what, ev.loc(), f"{f.qualname}: {what}")
    if not mon.bad:
        cx.ok("C26.skip", f"{f.qualname}: {mon.rounds} ways through", f.loc())
    if rot is not None:
        seen = {}

        class Rot(Config):
            def init(self):
                return False

            def event(self, ev, st, ip):
                if ev.kind == "store_attr" and ev.attr == "worker_id_offset":
                    seen["set"] = set(ev.value) == {("attr", SELF, rot)}
                    return True
                if not st.mon and (ev.kind in ("yield", "iter") or ev.kind == "call" and ev.func and ev.func[0] in ("attr", "bm")
                                   and method(ev.func, ip) in ("rank_worker_id", "global_worker_id")):
                    seen.setdefault("early", ev)
                return NotImplemented

        ip = ld.interp(Rot({}))
        ip.run(f, w)
        cx.check(seen.get("set", False), "C26.turn", "rotation used", f.loc(), "the workers' rotation is not set from the restored one")
        cx.check("early" not in seen, "C26.turn", "rotation first", f.loc(), "the worker looks at its number before the rotation is set")


class Skip(Monitor):
    """mon = (phase, decreases, counted): phase None / got / yielded"""

    def __init__(self, attr):
        self.attr = attr
        self.rounds = 0
        self.bad = {}

    def init(self):
        return (None, 0, 0, None)

    def inline(self, fi, recv, ip, stack):
        if fi.name in ("should_log", "worker_log", "_store_checkpoint", "_restore_state", "worker_activate", "worker_deactivate"):
            return False
        return NotImplemented

    def closed(self, st, ev):
        ph, dec, num, left = st.mon
        if ph is None:
            return
        self.rounds += 1
        if num != 1:
            self.bad.setdefault("a sample fetched is not counted exactly once", ev)
        if ph == "got" and dec != 1:
            self.bad.setdefault("a sample is dropped without being one of those to skip", ev)
        if ph == "got" and left is not True:
            self.bad.setdefault("a sample is dropped although none is left to skip", ev)
        if ph == "yielded" and dec:
            self.bad.setdefault("a sample handed out counts as skipped", ev)
        if ph == "yielded" and left is not False:
            self.bad.setdefault("a sample which has to be skipped is handed out", ev)

    def event(self, ev, st, ip):
        ph, dec, num, left = st.mon
        if ev.kind in ("next", "exhausted") and isinstance(ev.node, (ast.For, ast.AsyncFor)) and \
                any(("attr", SELF, "dataset") in subterms(t) for t in ev.value or ()):
            self.closed(st, ev)
            return ("got", 0, 0, None) if ev.kind == "next" else (None, 0, 0, None)
        if ev.kind == "branch" and ph is not None:
            for t in ev.cond or ():
                r = self.left(t, ev.taken)
                if r is not None:
                    return (ph, dec, num, r)
        if ev.kind == "store_sub" and any(b == ("attr", SELF, self.attr) for b in ev.base):
            return (ph, dec + step(ev.value, self.attr, -1), num, left)
        if ev.kind == "store_attr" and SELF in ev.base and ev.attr == "_sample_index":
            return (ph, dec, num + step(ev.value, ev.attr, 1), left)
        if ev.kind == "yield" and ph == "got":
            return ("yielded", dec, num, left)
        return NotImplemented

    def left(self, t, taken):
        """Is something left to skip?"""
        if t[0] == "not":
            return self.left(t[1], not taken)
        here = lambda x: x[0] == "sub" and x[1] == ("attr", SELF, self.attr)
        if here(t):
            return taken
        if t[0] == "cmp":
            op, a, b = t[1], t[2], t[3]
            flip = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}
            if here(b):
                op, a, b = flip.get(op, op), b, a
            if here(a) and b[0] == "const":
                yes = {("Gt", 0): True, ("GtE", 1): True, ("NotEq", 0): True, ("LtE", 0): False, ("Lt", 1): False,
                       ("Eq", 0): False}.get((op, b[1]))
                if yes is not None:
                    return yes if taken else not yes
        return None


def step(value, attr, want):
    for t in value:
        if t[0] in ("binop", "aug") and t[1] in ("Add", "Sub"):
            d = lin(t, lambda x: "old" if any(y[0] == "attr" and y[2] == attr for y in subterms(x)) else x)
            if d.get("old") == 1 and set(d) <= {"old", "1"}:
                return d.get("1", 0) * want
        if t[0] == "num":
            return 1
    return 99


# ---- the worker's own state ------------------------------------------------
PAIRS = {"torch.get_rng_state": {"torch.set_rng_state", "torch.random.set_rng_state"},
         "torch.random.get_rng_state": {"torch.set_rng_state", "torch.random.set_rng_state"},
         "numpy.random.get_state": {"numpy.random.set_state"},
         "random.getstate": {"random.setstate"}}
COUNTER = "_sample_index"


def worker_state(p, cx, ld, w, own):
    """What a worker keeps of itself with each checkpoint, and restores when it starts"""
    fetch = w.methods["__iter__"]
    restorer = first_restore(cx, ld, w, fetch, own)
    lists = kept_lists(w)
    fields_ = None
    uses = {k: {n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute)} for k, m in w.methods.items()}
    called = set().union(*(uses[k] for k in uses if k not in ("__init__", "__iter__")))
    for name, m in w.methods.items():
        if name in ("__init__", "__iter__") or name in called:
            continue
        reach, todo = set(), [name]
        while todo:
            k = todo.pop()
            if k not in reach:
                reach.add(k)
                todo += [x for x in uses[k] if x in w.methods]
        if not any(uses[k] & lists for k in reach):
            continue
        r = kept(p, cx, ld, w, m, lists)
        fields_ = fields_ or r
    if fields_ is None:
        cx.bad("C26.kept", "made", fetch.loc(), "no checkpoint with a state of the worker is made")
        return
    merged_states(p, cx, ld, w, fields_)
    if restorer is not None:
        own_fields(p, cx, ld, w, restorer, fields_, lists)


def kept_lists(w):
    """Attributes with the checkpoints: lists of records with a number, made by the constructor"""
    out = set()
    for n in walk_own(w.methods["__init__"].node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Attribute) and any(
                        isinstance(x, ast.keyword) and x.arg == "sample_index" for x in ast.walk(n.value)):
                    out.add(t.attr)
    if not out:
        raise AnalysisBroken(f"{w.name}: the list of the checkpoints kept is not recognised")
    return out


def first_restore(cx, ld, w, f, own):
    """In the worker's iteration: the state kept by the restore is restored, once, before the dataset is started"""
    bad, called = {}, set()
    me = ("attr", SELF, own)

    class First(Config):
        """mon = (restored?, cleared?)"""

        def init(self):
            return (False, False)

        def raises(self, ev, st, ip):
            return ()

        def inline(self, fi, recv, ip, stack):
            if fi.name in ("_store_checkpoint", "worker_activate", "worker_deactivate"):
                return False
            if any(a.arg for a in fi.all_params()) and fi.name.startswith("_restore"):
                return False
            return super().inline(fi, recv, ip, stack)

        def event(self, ev, st, ip):
            done, clear = st.mon
            if ev.kind == "call" and ev.tag != "inlined" and ev.func and ev.func[0] == "bm" and ev.func[1] == SELF and \
                    any(me in a for a in (ev.args or ())):
                called.add(method(ev.func, ip))
                if clear == "read":
                    bad.setdefault("the state is dropped before it is restored", ev)
                return (True, clear)
            if ev.kind == "load_attr" and ev.attr == own and SELF in ev.base and clear and not done:
                return (done, "read")
            if ev.kind == "store_attr" and ev.attr == own and SELF in ev.base:
                return (done, set(ev.value) == {NONE})
            vals = ev.value if ev.kind in ("iter", "next", "exhausted") else \
                ev.args[0] if ev.kind == "call" and ev.func in (("ext", "iter"), ("ext", "next")) and ev.args else ()
            if any(("attr", SELF, "dataset") in subterms(t) for t in vals or ()):
                none = any(t == me and k in ("false", "none") for t, k in st.facts) or \
                    any(k == "true" and t[0] == "cmp" and t[1] == "Is" and t[2] == me and t[3] == NONE for t, k in st.facts)
                if not done and not none:
                    bad.setdefault("the dataset is started before the worker's state is restored", ev)
                if done and not clear:
                    bad.setdefault("the restored state is restored again with the next start of the worker", ev)
            return NotImplemented

    ip = ld.interp(First({}))
    ip.run(f, w)
    for what, ev in bad.items():
        cx.bad("C26.worker", what, ev.loc(), f"{f.qualname}: {what}")
    called.discard(None)
    if len(called) != 1:
        cx.bad("C26.worker", "restored", f.loc(), f"{f.qualname}: the worker's state kept by the restore is not restored")
        return None
    if not bad:
        cx.ok("C26.worker", "restored first", f.loc())
    return w.find_method(next(iter(called)))


def number(t):
    return "counter" if t == ("attr", SELF, COUNTER) else t


def kept(p, cx, ld, w, m, lists):
    """A method which adds checkpoints or drops them: fields of the worker's state in those added"""
    cx.fn(m)
    out = {}
    seen = [0]

    class Kept(Config):
        def init(self):
            return None

        def event(self, ev, st, ip):
            if ev.kind == "call" and ev.func and ev.func[0] == "attr" and ev.func[1][0] == "attr" and \
                    ev.func[1][1] == SELF and ev.func[1][2] in lists and ev.tag != "inlined":
                if ev.func[2] in ("append", "insert", "extend"):
                    for t in ev.args[-1] if ev.args else ():
                        self.made(t, ev, st, ip)
                elif ev.func[2] in ("pop", "popleft", "remove", "clear"):
                    self.dropped(ev.func[1], ev, st, ev.func[2] == "popleft" or ev.func[2] == "pop" and ev.args and
                                 set(ev.args[0]) == {("const", 0)})
            elif ev.kind == "del_sub" and any(b[0] == "attr" and b[1] == SELF and b[2] in lists for b in ev.base):
                self.dropped(next(iter(ev.base)), ev, st, set(ev.index) == {("const", 0)})
            elif ev.kind == "store_attr" and SELF in ev.base and ev.attr in lists:
                for t in ev.value:
                    for x in elements({t}, st) or ():
                        self.made(x, ev, st, ip)
            return NotImplemented

        def dropped(self, lst, ev, st, oldest):
            if not oldest:
                cx.bad("C26.kept", f"{m.name}:dropped", ev.loc(), f"{m.qualname} drops another checkpoint than the oldest one")
                return
            ok = any(self.far(t, k, lst) for t, k in st.facts)
            cx.check(ok, "C26.kept", f"{m.name}:dropped", ev.loc(),
                     f"{m.qualname} drops a checkpoint although the following one may lie behind a sample not handed out yet")

        def far(self, t, k, lst):
            """Does the following checkpoint lie some configured distance before the counter?"""
            if t[0] != "cmp" or k not in ("true", "false"):
                return False
            op, a, b = t[1], t[2], t[3]
            if k == "false":
                op = {"Lt": "GtE", "LtE": "Gt", "Gt": "LtE", "GtE": "Lt"}.get(op)
            if op in ("GtE", "Gt"):
                op, a, b = {"GtE": "LtE", "Gt": "Lt"}[op], b, a
            if op not in ("LtE", "Lt"):
                return False
            d = lin(b, number)
            for x, c in lin(a, number, -1).items():
                d[x] = d.get(x, 0) + c
            nxt = ("attr", ("sub", lst, ("const", 1)), "sample_index")
            dist = [x for x in d if isinstance(x, tuple) and x[0] == "attr" and x[1] == SELF]
            return d.get("counter") == 1 and d.get(nxt) == -1 and len(dist) == 1 and d[dist[0]] == -1 and \
                d.get("1", 0) <= 0 and set(d) <= {"counter", nxt, "1", dist[0]}

        def made(self, t, ev, st, ip):
            h = fields(st, t)
            if h is None or "sample_index" not in h:
                cx.bad("C26.kept", f"{m.name}:record", ev.loc(), f"{m.qualname} keeps something else than a checkpoint")
                return
            seen[0] += 1
            cx.check({number(x) for x in h["sample_index"]} == {"counter"}, "C26.kept", f"{m.name}:number", ev.loc(),
                     f"{m.qualname}: the number of the checkpoint is not the worker's counter of samples")
            inner, mine = False, None
            for k, vs in h.items():
                for x in vs:
                    if x[0] == "call" and x[1][0] in ("attr", "bm") and x[1][1] == ("attr", SELF, "dataset") and \
                            method(x[1], ip) == "save_state":
                        inner = k
                    elif x[0] == "obj" and fields(st, x) is not None:
                        mine = fields(st, x)
            cx.check(bool(inner), "C26.kept", f"{m.name}:dataset", ev.loc(),
                     f"{m.qualname}: the checkpoint does not hold the state of the dataset")
            cx.check(mine is not None, "C26.kept", f"{m.name}:worker", ev.loc(),
                     f"{m.qualname}: the checkpoint does not hold the state of the worker")
            for k, vs in (mine or {}).items():
                out.setdefault(k, set()).update(vs)

    ip = ld.interp(Kept({}))
    ip.run(m, w)
    return out if seen[0] else None


def source(t):
    """Where a part of the worker's state is read from: (getter, …) or (attribute of the worker, …)"""
    found = {x[1][1] for x in subterms(t) if x[0] == "call" and x[1][0] == "ext" and x[1][1] in PAIRS}
    found |= {("self", x[2]) for x in subterms(t) if x[0] == "attr" and x[1] == SELF}
    return found


def own_fields(p, cx, ld, w, m, fields_, lists):
    cx.fn(m)
    arg = [a.arg for a in m.all_params()][1:]
    if not arg:
        cx.bad("C26.worker", "argument", m.loc(), f"{m.qualname} does not take the state")
        return
    arg = ("param", arg[0])
    src = {}
    for k, vs in fields_.items():
        ss = set().union(*(source(t) for t in vs))
        if len(ss) != 1:
            cx.bad("C26.worker", f"{k} saved", m.loc(), f"{k} of the worker's state is not read from one place")
            continue
        src[k] = next(iter(ss))
        if src[k] == ("self", COUNTER):
            cx.check(set(vs) == {("attr", SELF, COUNTER)}, "C26.worker", f"{k} saved", m.loc(),
                     f"{k} of the worker's state is not its counter of samples")
    for want in ("torch.get_rng_state", "numpy.random.get_state", "random.getstate"):
        cx.check(want in src.values(), "C26.worker", f"{want} saved", m.loc(), f"the worker's state lacks that of {want}")
    cx.check(("self", COUNTER) in src.values(), "C26.worker", "counter saved", m.loc(), "the worker's state lacks its counter of samples")
    ids = worker_ids(ld, w)

    def reads(v, k):
        """Are values of field k in the worker's own slot?"""
        bases = [x for t in v for x in subterms(t) if x[0] == "sub" and x[1][0] == "attr" and x[1][1] == arg]
        return bool(bases) and all(any(x[1][2] == k and own_id(x[2], ip) for x in [b]) for b in bases)

    def own_id(i, ip):
        return i in ids or i[0] == "call" and i[1][0] in ("attr", "bm") and method(i[1], ip) == "rank_worker_id"

    class Restore(Config):
        """mon = fields restored so far"""

        def init(self):
            return frozenset()

        def raises(self, ev, st, ip):
            return ()

        def event(self, ev, st, ip):
            done = st.mon
            if ev.kind == "call" and ev.func and ev.func[0] == "ext":
                for k, s in src.items():
                    if ev.func[1] in PAIRS.get(s, ()):
                        good = bool(ev.args) and reads(ev.args[0], k) and places(ev.args[0], k)
                        cx.check(good, "C26.worker", f"{k} restored", ev.loc(),
                                 f"{m.qualname}: {k} is not restored from the worker's own part of the state")
                        done = done | {k}
            elif ev.kind == "branch":
                for t in ev.cond or ():
                    done = done | {k for k in src if fact_none(t, ev.taken, k)}
            elif ev.kind == "store_attr" and SELF in ev.base:
                for k, s in src.items():
                    if s == ("self", ev.attr):
                        cx.check(reads(ev.value, k) and all(uncopy(t)[0] == "sub" for t in ev.value), "C26.worker",
                                 f"{k} restored", ev.loc(),
                                 f"{m.qualname}: {k} is not restored from the worker's own part of the state")
                        done = done | {k}
                if ev.attr in lists:
                    self.all(done, st, ev)
            return done

        def all(self, done, st, at):
            for k in src:
                if k not in done:
                    cx.bad("C26.worker", f"{k} restored", at.loc() if hasattr(at, "loc") else at,
                           f"{m.qualname}: {k} of the worker's state is not restored" +
                           (" before it is saved again" if hasattr(at, "loc") else ""))

    def fact_none(t, taken, k):
        """Does the branch mean that there is nothing in the slot?"""
        if t[0] == "not":
            return fact_none(t[1], not taken, k)
        if t[0] == "cmp" and t[1] in ("Is", "IsNot", "Eq", "NotEq") and t[3] == NONE:
            return taken == (t[1] in ("Is", "Eq")) and slot(t[2], k)
        return not taken and slot(t, k)

    def slot(t, k):
        return t[0] == "sub" and t[1] == ("attr", arg, k) and own_id(t[2], ip)

    def places(v, k):
        """Elements of a re-packed tuple keep their places"""
        for t in v:
            if t[0] != "tuple":
                continue
            for pos, x in enumerate(t[1]):
                if x[0] == "star" and not (x[1][0] == "slice" and x[1][1][0] == "sub"):
                    return False
                for y in subterms(x):
                    if y[0] == "sub" and y[1][0] == "sub" and y[1][1] == ("attr", arg, k) and y[2] != ("const", pos):
                        return False
                    if y[0] == "slice" and y[1][0] == "sub" and y[2] != f"{pos}:":
                        return False
        return True

    mon = Restore({})
    ip = ld.interp(mon)
    o = ip.run(m, w)
    for st, *_ in o.ret:
        mon.all(st.mon, st, m.loc())
    for k in src:
        cx.ok("C26.worker", f"{k}", m.loc())
    for k, vs in fields_.items():
        for t in vs:
            if t[0] == "tuple":
                for i, x in enumerate(t[1]):
                    ps = {y[2] for y in subterms(x) if y[0] == "sub" and y[1][0] == "call" and y[1][1][0] == "ext"}
                    cx.check(ps <= {("const", i)}, "C26.worker", f"{k} saved", m.loc(), f"the parts of {k} are saved in another order")


class States:
    def __init__(self, name):
        self.states_param = name


def merged_states(p, cx, ld, w, fields_):
    """Merging the workers' answers: lists with one entry per worker"""
    m = w.find_method(ld.merger)
    cx.fn(m)
    args = [a.arg for a in m.all_params()][1:]
    if not args:
        cx.bad("C26.merged", "argument", m.loc(), f"{m.qualname} does not take the answers")
        return
    mm = States(args[0])
    sp = ("param", args[0])

    class Fixed(Config):
        def event(self, ev, st, ip):
            if ev.kind == "load_sub" and any(i[0] in ("const", "unop") for i in ev.index):
                for b in ev.base:
                    sh = st.heap[b][0] if b[0] == "obj" and b in st.heap else None
                    if b == sp or isinstance(sh, tuple) and sh[0] == "map":
                        cx.bad("C26.merged", "one worker's", ev.loc(), f"{m.qualname}: the state of a fixed worker is used")
            return NotImplemented

    ip = ld.interp(Fixed({}))
    o = ip.run(m, w)
    n = [0]

    def entries(t, st):
        """Terms of the entries, in order; None (and a message) if not one list of all workers"""
        u = uncopy(t)
        if u[0] != "obj" or u not in st.heap or u[1] != "list":
            return None, "is not a list with one entry per worker"
        ok, why = slot_list(u, st, mm)
        if not ok:
            return None, why
        sh = st.heap[u][0]
        for y in sh[1:] if isinstance(sh, tuple) else ():
            for z in subterms(y) if isinstance(y, tuple) else ():
                if z[0] == "obj" and z[1] == "list" and z != u:
                    if y != z and not (y[0] == "call" and y[1] == ("ext", "enumerate")):
                        return None, "is built over something else than all states in order"
                    r, why = entries(z, st)
                    if r is None:
                        return None, why
        return {x for _, vs in st.heap[u][1] for x in vs}, ""

    def path(x):
        out = ()
        while x[0] == "attr":
            out, x = (x[2],) + out, x[1]
        return out if x == ("elem", sp) else None

    def go(vs, st, pre, where):
        for t in vs:
            h = fields(st, t) if t[0] == "obj" and t[1] == "rec" else None
            name = ".".join(pre) or "<state>"
            if h is not None:
                for k, v in h.items():
                    go(v, st, pre + (k,), where)
                if pre:
                    for k in set(fields_) - set(h):
                        cx.bad("C26.merged", f"{name}.{k}", where, f"the merged state has no {name}.{k}")
                continue
            if t[0] == "call" and t[1][0] in ("attr", "bm") and t[1][1] == ("attr", SELF, "dataset") and t[2] and len(t[2]) == 1:
                if method(t[1], ip) != "merge_states":
                    cx.bad("C26.merged", name, where, f"{name} is not merged by the dataset")
                    continue
                t = t[2][0]
            n[0] += 1
            es, why = entries(t, st)
            if es is None:
                cx.bad("C26.merged", name, where, f"{name} of the merged state: {why}")
                continue
            got = {path(x) for x in es if x[0] != "const" and x != NONE}
            cx.check(got == {pre}, "C26.merged", name, where, f"the entries of {name} are not the workers' {name}")

    if not o.ret:
        cx.bad("C26.merged", "returned", m.loc(), f"{m.qualname} returns nothing")
    for st, v, node in o.ret:
        go(v, st, (), m.loc())
    cx.check(n[0] > 0, "C26.merged", "lists", m.loc(), f"{m.qualname} merges nothing")


def worker_ids(ld, w):
    """Attributes set from the worker's number"""
    out = set()

    class Ids(Config):
        def init(self):
            return None

        def event(self, ev, st, ip):
            if ev.kind == "store_attr" and SELF in ev.base and ev.value and all(
                    t[0] == "call" and t[1][0] in ("attr", "bm") and method(t[1], ip) == "rank_worker_id" for t in ev.value):
                out.add(("attr", SELF, ev.attr))
            return NotImplemented

    ld.interp(Ids({}, stop=("_store_checkpoint",))).run(w.methods["__iter__"], w)
    return out
