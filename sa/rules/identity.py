"""C39: worker numbers, their seeds and the default worker configuration, evaluated from the terms of the source for every process of a
set of small jobs"""
import operator

from ..flow import Interp, Monitor
from ..model import AnalysisBroken
from .pipeline import CMP, NUM

UNKNOWN = object()
OPS = dict(NUM)
OPS.update({"BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor, "LShift": operator.lshift, "RShift": operator.rshift,
            "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow})
BUILTIN = {"max": max, "min": min, "int": int, "abs": abs, "bool": bool, "str": str, "repr": repr, "divmod": divmod, "sum": sum}
OVERRIDE = "_worker_override_global_rank"


class Info:
    def __init__(self, id, num_workers):
        self.id, self.num_workers = id, num_workers

    def __eq__(self, o):
        return isinstance(o, Info) and (self.id, self.num_workers) == (o.id, o.num_workers)

    def __hash__(self):
        return hash((self.id, self.num_workers))


class Where:
    """One process of one job"""

    def __init__(self, rank, world, workers, info=None, offset=0, override=None, seed_offset=0, args=None, dist=None):
        self.attrs = {"rank": rank, "world_size": world, "num_workers": workers, "worker_id_offset": offset, OVERRIDE: override,
                      "seed_offset": seed_offset}
        self.info, self.args, self.dist = info, args or {}, dist

    def __str__(self):
        a = self.attrs
        s = f"rank {a['rank']} of {a['world_size']}, {a['num_workers']} worker(s)"
        if self.info is not None:
            s += f", in worker process {self.info.id}"
        if a["worker_id_offset"]:
            s += f", offset {a['worker_id_offset']}"
        if a[OVERRIDE] is not None:
            s += f", restoring for worker {a[OVERRIDE]}"
        for k, v in self.args.items():
            s += f", {k}={v}"
        return s


def evaluate(t, w, ip):
    """The values the term may have in this process"""
    k = t[0]
    if k == "const":
        return {t[1]} if not isinstance(t[1], (list, dict)) else {UNKNOWN}
    if k == "any":
        return {v for x in t[1] for v in evaluate(x, w, ip)}
    if k == "param":
        return {w.args[t[1]]} if t[1] in w.args else {UNKNOWN}
    if k == "attr":
        if (t[1] == ("self",) or t[1][0] == "cls") and t[2] in w.attrs:
            return {w.attrs[t[2]]}
        out = set()
        for b in evaluate(t[1], w, ip):
            out.add(getattr(b, t[2]) if isinstance(b, Info) and t[2] in ("id", "num_workers") else UNKNOWN)
        return out
    if k == "not":
        return {UNKNOWN if v is UNKNOWN else not v for v in evaluate(t[1], w, ip)}
    if k in ("binop", "cmp"):
        fn = (OPS if k == "binop" else CMP).get(t[1])
        out = set()
        for a in evaluate(t[2], w, ip):
            for b in evaluate(t[3], w, ip):
                try:
                    out.add(UNKNOWN if fn is None or a is UNKNOWN or b is UNKNOWN else fn(a, b))
                except (TypeError, ZeroDivisionError, ValueError):
                    out.add(UNKNOWN)
        return out
    if k == "fstr":
        outs = {""}
        for part in t[1]:
            vs = evaluate(part, w, ip)
            if UNKNOWN in vs:
                return {UNKNOWN}
            outs = {o + str(v) for o in outs for v in vs}
        return outs
    if k == "call" and t[1][0] == "ext":
        n = t[1][1]
        if n.endswith("get_worker_info"):
            return {w.info}
        if w.dist is not None and n.startswith("torch.distributed."):
            last = n.rsplit(".", 1)[1]
            if last in ("is_available", "is_initialized"):
                return {w.dist}
            if last in ("get_rank", "get_world_size"):
                group = t[2][0] if t[2] else dict(t[3]).get("group", ("const", None))
                return {(last, v) for v in evaluate(group, w, ip)}
        if n in BUILTIN and t[2] and not t[3]:
            out = set()
            args = [evaluate(a, w, ip) for a in t[2]]
            if any(UNKNOWN in a or len(a) != 1 for a in args):
                return {UNKNOWN}
            try:
                out.add(BUILTIN[n](*[next(iter(a)) for a in args]))
            except (TypeError, ValueError):
                out.add(UNKNOWN)
            return out
    return {UNKNOWN}


class Only(Monitor):
    """Follows only the branches taken in this process"""

    def __init__(self, w, log=None):
        self.w, self.log = w, log

    def event(self, ev, st, ip):
        if ev.kind == "branch":
            rs = {v if v is UNKNOWN else bool(v) for t in ev.cond for v in evaluate(t, self.w, ip)}
            if len(rs) == 1 and UNKNOWN not in rs and next(iter(rs)) != ev.taken:
                return []
        if self.log is not None:
            self.log(ev, st, ip)
        return NotImplemented


def result(p, c, f, w, no_inline=()):
    ip = Interp(p, Only(w), no_inline=set(no_inline))
    ip.bool_branches = True
    bind = {k: frozenset({("const", v)}) for k, v in w.args.items()}
    o = ip.run(f, c, bind=bind)
    return {v for st, vs, _ in o.ret for t in vs for v in evaluate(t, w, ip)}, bool(o.ret)


JOBS = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 4), (4, 3), (2, 5)]


class Judge:
    def __init__(self, cx, f):
        self.cx, self.f, self.bad, self.seen, self.open = cx, f, {}, 0, 0

    def fail(self, rule, what, msg):
        self.bad.setdefault((rule, what), msg)

    def one(self, rule, what, got, want, w, msg):
        vals, returned = got
        if not returned:
            self.fail(rule, what, f"{self.f.qualname} fails for {w}")
        elif UNKNOWN in vals:
            self.open += 1
        else:
            self.seen += 1
            if vals != {want}:
                self.fail(rule, what, f"{self.f.qualname} {msg} ({w}: {', '.join(sorted(map(str, vals)))} instead of {want})")

    def done(self, rules):
        for (rule, what), msg in self.bad.items():
            self.cx.bad(rule, f"{self.f.qualname}: {what}", self.f.loc(), msg)
        for r in rules:
            if not any(b[0] == r for b in self.bad):
                self.cx.ok(r, f"{self.f.qualname}: {self.seen} cases", self.f.loc())


def check(p, cx):
    cx.rule("C39.local", "in a worker process, the local number is the process's number shifted by the offset, modulo the number of workers; "
            "when restoring for a worker, it is the number that worker had; outside of workers it is 0")
    cx.rule("C39.global", "every worker of every rank has its own global number, which is the same when asked for from elsewhere")
    cx.rule("C39.override", "when restoring for a worker, its global number is the recorded one")
    cx.rule("C39.seed", "the seed text differs for every worker and seed offset, the worker asked for is the one used, and the seed is not "
            "cut below 32 bits")
    cx.rule("C39.default", "the default configuration has the rank and size of the data parallel group (or a single rank), the group and the "
            "number of workers asked for")
    cx.rule("C39.log", "every worker process logs to its own file")
    c = p.cls("WorkerConfig")
    fs = {n: c.find_method(n) for n in ("rank_worker_id", "global_worker_id", "worker_seed", "default_worker_config", "worker_log")}
    if None in fs.values():
        raise AnalysisBroken("WorkerConfig: a method is gone: " + ", ".join(n for n, f in fs.items() if f is None))
    for f in fs.values():
        cx.fn(f)
    numbers(p, cx, c, fs)
    seeds(p, cx, c, fs["worker_seed"])
    default(p, cx, c, fs["default_worker_config"])
    logs(p, cx, c, fs["worker_log"])


def numbers(p, cx, c, fs):
    loc, glo = Judge(cx, fs["rank_worker_id"]), Judge(cx, fs["global_worker_id"])
    param = [a.arg for a in glo.f.all_params() if a.arg != "self"]
    if len(param) != 1:
        raise AnalysisBroken("global_worker_id has other parameters")
    for world, nw in JOBS:
        ids = {}
        for rank in range(world):
            w = Where(rank, world, nw)
            loc.one("C39.local", "outside of workers", result(p, c, loc.f, w), 0, w, "is not 0 outside of workers")
            for i in range(nw):
                for off in range(nw):
                    w = Where(rank, world, nw, Info(i, nw), off)
                    loc.one("C39.local", "in a worker", result(p, c, loc.f, w), (i + off) % nw, w, "is not the number of the worker")
                w = Where(rank, world, nw, Info(i, nw), args={param[0]: None})
                vals, ret = result(p, c, glo.f, w)
                if not ret:
                    glo.fail("C39.global", "in a worker", f"global_worker_id fails for {w}")
                    continue
                if UNKNOWN in vals:
                    glo.open += 1
                    continue
                glo.seen += 1
                if len(vals) != 1:
                    raise AnalysisBroken(f"global_worker_id has several values for {w}")
                v = next(iter(vals))
                if v in ids:
                    glo.fail("C39.global", "own number", f"global_worker_id gives {v} to worker {i} of rank {rank} and to worker {ids[v][1]} of "
                             f"rank {ids[v][0]} ({world} ranks, {nw} workers)")
                ids[v] = (rank, i)
                w = Where(rank, world, nw, args={param[0]: i})
                glo.one("C39.global", "asked from elsewhere", result(p, c, glo.f, w), v, w,
                        "gives another number to a worker than the worker itself has")
        for v, (rank, i) in ids.items():
            for here in range(world):
                w = Where(here, world, nw, override=v)
                loc.one("C39.local", "restoring", result(p, c, loc.f, w), i, w, "is not the number of the worker which is restored for")
                w = Where(here, world, nw, override=v, args={param[0]: None})
                glo.one("C39.override", "restoring", result(p, c, glo.f, w), v, w, "is not the number of the worker which is restored for")
    for j in (loc, glo):
        if j.open:
            cx.notes.append(f"{j.f.qualname}: {j.open} case(s) were not followed to a number")
    loc.done(["C39.local"])
    glo.done(["C39.global", "C39.override"])


def walk(t):
    if t and isinstance(t[0], str):
        yield t
    for x in t:
        if isinstance(x, tuple):
            yield from walk(x)


def seeds(p, cx, c, f):
    j = Judge(cx, f)
    param = [a.arg for a in f.all_params() if a.arg != "self"]
    for world, nw in ((1, 0), (3, 0), (12, 0), (2, 2), (12, 2), (3, 12)):
        texts = {}
        for rank in range(world):
            for i in range(max(nw, 1)):
                for so in (0, 1, 11):
                    same = []
                    for asked in (False, True):
                        if asked and (not nw or not param):
                            continue
                        args = {param[0]: i if asked else None} if param else {}
                        w = Where(rank, world, nw, Info(i, nw) if nw and not asked else None, seed_offset=so, args=args)
                        ip = Interp(p, Only(w))
                        ip.bool_branches = True
                        o = ip.run(f, c, bind={k: frozenset({("const", v)}) for k, v in args.items()})
                        if not o.ret:
                            j.fail("C39.seed", "fails", f"worker_seed fails for {w}")
                            continue
                        for _, vs, node in o.ret:
                            for t in vs:
                                for x in walk(t):
                                    if x[0] == "fstr" or len(x) == 4 and x[0] == "binop" and x[1] == "Mod" and x[2][0] == "const" and \
                                            isinstance(x[2][1], str):
                                        got = evaluate(x, w, ip)
                                        if UNKNOWN in got:
                                            j.open += 1
                                        else:
                                            j.seen += 1
                                            same.append(frozenset(got))
                                            for s in got:
                                                other = texts.setdefault(s, (rank, i, so))
                                                if other != (rank, i, so):
                                                    j.fail("C39.seed", "own seed", f"worker_seed is the same for worker {i} of rank {rank} with seed offset {so} "
                                                           f"and worker {other[1]} of rank {other[0]} with seed offset {other[2]} ({world} ranks, {nw} workers)")
                                    if x[0] == "binop" and len(x) == 4:
                                        m = next((y[1] for y in x[2:] if isinstance(y, tuple) and y[0] == "const" and isinstance(y[1], int)), None)
                                        if m is not None and (x[1] == "BitAnd" and m & 0x7FFFFFFF != 0x7FFFFFFF or
                                                              x[1] == "Mod" and x[3][0] == "const" and x[3][1] == m and m < 2 ** 31 - 1):
                                            if any(y[0] == "call" for y in walk(x[2])) or any(y[0] == "call" for y in walk(x[3])):
                                                j.fail("C39.seed", "bits", "worker_seed keeps few bits of the seed: different workers get the same one")
                    if len(same) == 2 and same[0] != same[1]:
                        j.fail("C39.seed", "asked from elsewhere", f"worker_seed gives another seed for worker {i} of rank {rank} than the worker itself has")
    if not j.seen:
        cx.notes.append("the text of the seed was not followed")
    j.done(["C39.seed"])


def default(p, cx, c, f):
    j = Judge(cx, f)
    names = {a.arg for a in f.all_params()}
    group = next((n for n in names if "group" in n), None)
    workers = next((n for n in names if "worker" in n), None)
    if group is None or workers is None:
        raise AnalysisBroken("default_worker_config has other parameters")
    for dist in (True, False):
        for nw in (0, 1, 4):
            for g in (None, "GROUP"):
                w = Where(None, None, None, args={group: g, workers: nw}, dist=dist)
                w.attrs = {}
                ip = Interp(p, Only(w))
                ip.bool_branches = True
                o = ip.run(f, None, bind={k: frozenset({("const", v)}) for k, v in w.args.items()})
                want = {"rank": ("get_rank", g) if dist else 0, "world_size": ("get_world_size", g) if dist else 1, "num_workers": nw,
                        "data_parallel_group": g}
                how = f"{'with' if dist else 'without'} distributed processes, {nw} worker(s), " + ("a group" if g else "no group")
                for st, vs, node in o.ret:
                    for t in vs:
                        if t not in st.heap:
                            j.open += 1
                            continue
                        has = {k[1] if isinstance(k, tuple) else k: x for k, x in st.heap[t][1]}
                        for n, v in want.items():
                            if n not in has:
                                if n == "data_parallel_group" and v is None:
                                    continue
                                if n == "data_parallel_group" or n in has:
                                    j.fail("C39.default", n, f"default_worker_config does not set {n} ({how})")
                                else:
                                    j.open += 1
                                continue
                            got = {y for x in has[n] for y in evaluate(x, w, ip)}
                            if UNKNOWN in got:
                                j.open += 1
                                continue
                            j.seen += 1
                            if got != {v}:
                                j.fail("C39.default", n, f"default_worker_config sets {n} to {', '.join(sorted(map(str, got)))} instead of {v} ({how})")
    if j.open:
        cx.notes.append(f"default_worker_config: {j.open} value(s) were not followed")
    j.done(["C39.default"])


def logs(p, cx, c, f):
    j = Judge(cx, f)
    for world, nw in ((1, 0), (3, 0), (2, 1), (3, 3), (2, 5)):
        names = {}
        for rank in range(world):
            for i in [None] + list(range(nw)):
                w = Where(rank, world, nw, Info(i, nw) if i is not None else None)
                got = set()

                def log(ev, st, ip, got=got, w=w):
                    if ev.kind == "call" and ev.name == "format" and ev.kwargs and "worker_id" in ev.kwargs:
                        for t in ev.kwargs["worker_id"]:
                            got.update(evaluate(t, w, ip))
                ip = Interp(p, Only(w, log))
                ip.bool_branches = True
                ip.run(f, c)
                if not got or UNKNOWN in got:
                    j.open += 1
                    continue
                j.seen += 1
                for v in got:
                    if v in names and names[v] != (rank, i):
                        j.fail("C39.log", "own file", f"worker_log gives worker {i} of rank {rank} the same file number as worker {names[v][1]} of rank "
                               f"{names[v][0]} ({world} ranks, {nw} workers)")
                    names[v] = (rank, i)
    if not j.seen:
        cx.notes.append("the numbers of the log files were not followed")
    j.done(["C39.log"])
