"""C31: collective operations are entered by every rank, and each rank gets what is its own."""
import ast

from ..flow import Interp, Monitor, V, NONE, subterms
from ..model import AnalysisBroken
from .keys import alts, strip

SELF = ("self",)
DIST = "torch.distributed."
# position and name of: the object(s) given, the object(s) received, the rank concerned
OPS = {
    "all_gather_object": ((1, "obj"), (0, "object_list"), None),
    "gather_object": ((0, "obj"), (1, "object_gather_list"), (2, "dst")),
    "scatter_object_list": ((1, "scatter_object_input_list"), (0, "scatter_object_output_list"), (2, "src")),
    "broadcast_object_list": ((0, "object_list"), (0, "object_list"), (1, "src")),
    "barrier": (None, None, None), "monitored_barrier": (None, None, None),
    "all_reduce": (None, None, None), "broadcast": (None, None, (1, "src")), "all_gather": (None, None, None),
    "gather": (None, None, (2, "dst")), "scatter": (None, None, (2, "src")), "reduce": (None, None, (1, "dst")),
    "reduce_scatter": (None, None, None), "all_to_all": (None, None, None), "new_group": (None, None, None),
    "all_gather_into_tensor": (None, None, None), "reduce_scatter_tensor": (None, None, None),
    "all_to_all_single": (None, None, None), "init_process_group": (None, None, None),
    "destroy_process_group": (None, None, None),
}
SHARED_CALLS = {DIST + n for n in ("is_available", "is_initialized", "get_world_size", "get_backend", "is_nccl_available",
                                   "is_gloo_available", "is_mpi_available")}
DONE = ("tok", "handed over")
OWN = ("tok", "what the rank was sent")


def op_of(ev):
    if ev.kind == "call" and ev.func and ev.func[0] == "ext" and ev.func[1].startswith(DIST):
        n = ev.func[1][len(DIST):]
        n = n.split(".")[-1]
        return n if n in OPS else None
    return None


class Coll(Monitor):
    """mon = (decisions on what all ranks share, other decisions of interest, collectives entered)"""

    def __init__(self, shared, stop=()):
        self.shared = shared
        self.stop = set(stop)
        self.calls = []
        self.handed = []

    def init(self):
        return (frozenset(), frozenset(), ())

    def inline(self, fi, recv, ip, stack):
        if fi.name in self.stop:
            return False
        return NotImplemented

    def is_shared(self, t):
        if t[0] in ("const", "ext", "mod", "cls"):
            return True
        if t[0] == "param":
            return t[1] in self.shared
        if t[0] == "attr":
            if t[2] in ("world_size", "data_parallel_group"):
                return True
            return t[1][0] in ("ext", "mod", "cls")
        if t[0] == "call":
            if t[1][0] == "ext" and t[1][1] in SHARED_CALLS:
                return True
            return t[1] in (("ext", "isinstance"), ("ext", "bool"), ("ext", "int"), ("ext", "len")) and all(self.is_shared(x) for x in t[2])
        if t[0] in ("cmp", "binop"):
            return self.is_shared(t[2]) and self.is_shared(t[3])
        if t[0] in ("not", "unop"):
            return self.is_shared(t[-1])
        if t[0] in ("any", "tuple"):
            return all(self.is_shared(x) for x in t[1])
        return False

    @staticmethod
    def norm(t, pos):
        """Decisions in one form: (term, outcome)"""
        while True:
            if t[0] == "not":
                t, pos = t[1], not pos
            elif t[0] == "call" and t[1] == ("ext", "bool") and len(t[2]) == 1:
                t = t[2][0]
            elif t[0] == "cmp" and t[1] in ("IsNot", "NotEq", "NotIn"):
                t, pos = ("cmp", {"IsNot": "Is", "NotEq": "Eq", "NotIn": "In"}[t[1]], t[2], t[3]), not pos
            elif t[0] == "cmp" and t[1] in ("Eq", "Is") and repr(t[2]) > repr(t[3]):
                t = ("cmp", t[1], t[3], t[2])
            else:
                if t[0] == "cmp" and t[1] == "Eq" and NONE in t[2:]:
                    t = ("cmp", "Is", t[2], t[3])
                return t, pos

    def event(self, ev, st, ip):
        yes, other, seq = st.mon
        if ev.kind == "branch" and ev.cond:
            ds = [self.norm(t, ev.taken) for t in ev.cond]
            ds = {(d, pos) for d, pos in ds if (d, not pos) not in yes | other and (d[0] != "const" or bool(d[1]) == pos)}
            if not ds:
                return []
            if len(ds) > 1:
                return NotImplemented
            d, pos = ds.pop()
            if d[0] == "const":
                return NotImplemented
            if self.is_shared(d):
                return (yes | {(d, pos)}, other, seq)
            if self.keep(d):
                return (yes, other | {(d, pos)}, seq)
        if ev.kind == "call" and ev.name in self.stop:
            self.handed.append((ev, st))
            return (yes, other | {(DONE, True)}, seq)
        n = op_of(ev)
        if n is not None:
            self.calls.append((ev, n, st))
            who = OPS[n][2]
            who = ev.arg(*who) if who else None
            group = ev.kwargs.get("group")
            if len(seq) < 6:
                seq = seq + ((n, who, group),)
            new = st.copy(mon=(yes, other, seq))
            got = OPS[n][1]
            if got is not None and n != "broadcast_object_list":
                for t in ev.arg(*got) or ():
                    if t[0] == "obj":
                        what = OWN if n == "scatter_object_list" else ("tok", "all states")
                        new = new.hset(t, ("any", frozenset({("*", V(what)), (0, V(what))})))
            return new
        return NotImplemented

    def keep(self, d):
        """Decisions which tell the ranks or their arguments apart"""
        return any(x[0] == "attr" and x[2] == "rank" or x[0] == "param" or
                   x[0] == "call" and x[1] == ("ext", DIST + "get_rank") for x in subterms(d))


def start(p, m, f, c):
    ip = Interp(p, m)
    ip.bool_branches = True
    return ip, ip.run(f, c)


def run(p, m, f, c):
    return start(p, m, f, c)[1]


def compatible(a, b):
    return not any((t, not v) in b for t, v in a)


def uses_collectives(p):
    direct = set()
    for f in p.all_functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
                name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
                if name not in OPS:
                    continue
                r = f.module.resolve_expr(n.func)
                if r is not None and str(getattr(r, "name", "")).startswith(DIST):
                    direct.add(f)
    return direct


def entries(p):
    """Functions to analyse: those with collectives, seen from their callers of the same class or module"""
    fs = {f for f in uses_collectives(p)}
    while True:
        more = set()
        for f in fs:
            callers = [g for g in p.all_functions() if g is not f and g not in fs and g.outer is None and
                       (g.cls is not None and f.cls is not None and (g.cls.issubclass(f.cls) or f.cls.issubclass(g.cls)) or
                        f.cls is None and g.module is f.module) and
                       any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == f.name or
                                                       isinstance(n.func, ast.Name) and n.func.id == f.name)
                           for n in ast.walk(g.node))]
            more |= set(callers)
        if not more - fs:
            return fs
        fs |= more


def shared_params(p, f, c):
    """Parameters which say which rank is concerned"""
    out = set()
    while True:
        m = Coll(out, ())
        run(p, m, f, c)
        new = set()
        for ev, n, st in m.calls:
            who = OPS[n][2]
            for t in (ev.arg(*who) if who else None) or ():
                for x in subterms(t):
                    if x[0] == "param":
                        new.add(x[1])
        if new <= out:
            return out, m
        out |= new


def rank_test(t, who):
    """Does the condition say that this rank is the one concerned?  (None: it is about something else)"""
    if t[0] == "cmp" and t[1] == "Eq":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if b == who:
                if a[0] == "call" and a[1] == ("ext", DIST + "get_rank") and not a[2] and not a[3]:
                    return True
                if a[0] == "attr" and a[2] == "rank" or a[0] == "call":
                    return False
    return None


def rounds(p, cx, f, c, m, o):
    """Same collectives whenever the shared decisions are the same"""
    ends = [st.mon for st, *_ in o.ret]
    bad = None
    for i, (y1, o1, s1) in enumerate(ends):
        for y2, o2, s2 in ends[i + 1:]:
            if s1 != s2 and compatible(y1, y2):
                bad = (s1, s2)
    names = lambda s: ", ".join(x[0] for x in s) or "none"
    cx.check(bad is None, "C31.enter", f.qualname, f.loc(),
             f"ranks with the same shared arguments enter different collectives ({names(bad[0])} / {names(bad[1])})" if bad else "")


def arguments(p, cx, f, c, m):
    """Source and destination are ranks all agree on, the group is the one of the loader"""
    for ev, n, st in m.calls:
        pos = OPS[n][2]
        who = ev.arg(*pos) if pos else None
        name = f"{f.qualname}: {n}"
        if pos is not None:
            cx.check(who is not None and len(who) == 1 and all(m.is_shared(t) for t in who), "C31.who", name, ev.loc(),
                     "the ranks do not agree on the rank concerned")
        if c is not None and OPS[n][1] is not None:
            g = ev.kwargs.get("group")
            ok = g is not None and all(t[0] == "attr" and t[2] == "data_parallel_group" for t in g)
            cx.check(ok, "C31.who", f"{name} group", ev.loc(), "not all and only the ranks of the loader's group take part")


def contents(ts, st):
    out = set()
    for t in ts or ():
        out |= set(alts(t))
    return out


def per_rank(t, st):
    """A list with one place for each rank"""
    if t[0] == "binop" and t[1] == "Mult":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if b[0] == "attr" and b[2] == "world_size" and a[0] == "obj" and a in st.heap:
                items = dict(st.heap[a][1])
                return len(items) == 1 and set(items.values()) == {V(NONE)}
        return False
    h = st.heap.get(t)
    if h is not None and isinstance(h[0], tuple) and h[0][0] == "map" and len(h[0]) == 2:
        it = h[0][1]
        return it[0] == "call" and it[1] == ("ext", "range") and len(it[2]) == 1 and it[2][0][0] == "attr" and \
            it[2][0][2] == "world_size" and dict(h[1]) == {"*": V(NONE)}
    return False


def buffers(p, cx, f, m):
    """The lists handed to a collective are where torch looks for them"""
    for ev, n, st in m.calls:
        if n not in ("all_gather_object", "gather_object", "scatter_object_list"):
            continue
        give, take, pos = OPS[n]
        name = f"{f.qualname}: {n} "
        if n == "all_gather_object":
            out = ev.arg(*take) or ()
            cx.check(bool(out) and all(per_rank(t, st) for t in out), "C31.lists", name + "output", ev.loc(),
                     "no place for the state of each rank")
            continue
        who = ev.arg(*pos)
        if who is None or len(who) != 1:
            continue
        who = next(iter(who))
        here = {v == rank_test(d, who) for d, v in st.mon[1] if rank_test(d, who)}
        wrong = any(rank_test(d, who) is False for d, v in st.mon[1])
        cx.check(not wrong, "C31.lists", name + "rank", ev.loc(),
                 "the rank concerned is one of the default group, but is compared with the rank inside the loader's group")
        if wrong:
            continue
        side = ev.arg(*(take if n == "gather_object" else give)) or frozenset({NONE})
        if len(here) != 1:
            cx.check(all(per_rank(t, st) for t in side), "C31.lists", name + "list", ev.loc(),
                     "the list is not chosen by whether this rank is the one concerned")
            continue
        here = here.pop()
        if n == "gather_object":
            ok = all(per_rank(t, st) for t in side) if here else side == V(NONE) or all(per_rank(t, st) for t in side)
            cx.check(ok, "C31.lists", name + ("output here" if here else "output elsewhere"), ev.loc(),
                     "no place for the state of each rank" if here else "torch takes no output list on the other ranks")
        else:
            if here:
                ok = all(t[0] == "param" for t in side)
            else:
                ok = side == V(NONE) or all(per_rank(t, st) or t[0] == "param" for t in side)
            cx.check(ok, "C31.lists", name + ("input here" if here else "input elsewhere"), ev.loc(),
                     "what is scattered is not the list of states")


def facts(mon):
    return {d: v for d, v in mon[0] | mon[1]}


def distributed(fs):
    """True, False, or None (unknown)"""
    vs = [v for d, v in fs.items() if d[0] == "call" and d[1] in (("ext", DIST + "is_available"), ("ext", DIST + "is_initialized"))]
    if False in vs:
        return False
    return True if any(d[1] == ("ext", DIST + "is_initialized") for d in fs if d[0] == "call") else None


def saved(p, cx, c):
    f = c.find_method("save_state")
    cx.fn(f)
    sh, _ = shared_params(p, f, c)
    m = Coll(sh, ("save_state_rank",))
    ip, o = start(p, m, f, c)
    is_own = lambda t: t[0] == "call" and not t[2] and not t[3] and \
        (t[1][0] == "attr" and t[1][2] or getattr(ip.func_of(t[1]), "name", None)) == "save_state_rank"
    for ev, n, st in m.calls:
        give = OPS[n][0]
        v = ev.arg(*give) if give else None
        cx.check(v is not None and all(is_own(t) for t in v), "C31.own", f"{f.qualname}: {n}", ev.loc(),
                 "what is gathered is not the state of this rank")
    bad = None
    for st, v, node in o.ret:
        seq = st.mon[2]
        fs = facts(st.mon)
        if not seq:
            if distributed(fs) is not False:
                bad = (node, "in a distributed job the states are not gathered")
            elif not all(is_own(t) for t in v):
                bad = (node, "the state of the rank is not returned")
            continue
        n, who, group = seq[-1]
        outs = {t for ev, k, s in m.calls if k == n for t in ev.arg(*OPS[n][1]) or ()}
        here = True
        if n == "gather_object" and who and len(who) == 1:
            h = {vv == rank_test(d, next(iter(who))) for d, vv in fs.items() if rank_test(d, next(iter(who)))}
            here = h.pop() if len(h) == 1 else None
        for t in v:
            if here is False:
                ok = t == NONE or t in outs
            elif here is None:
                ok = t in outs
            else:
                ok = t in outs and t != NONE
            if not ok:
                bad = (node, "the gathered states are not returned")
        if n == "all_gather_object" and not any(d[0] == "cmp" and d[1] == "Is" and NONE in d[2:] and vv for d, vv in st.mon[0]):
            bad = (node, "the states are gathered to all ranks though one was given")
        if n == "gather_object" and who and not any(d[0] == "cmp" and d[1] == "Is" and NONE in d[2:] and next(iter(who)) in d[2:] and
                                                    not vv for d, vv in st.mon[0]):
            bad = (node, "the states are gathered to a rank though none was given")
    cx.check(bad is None and o.ret, "C31.own", f"{f.qualname} result", f.loc(bad[0]) if bad and bad[0] is not None else f.loc(),
             bad[1] if bad else "")


def restored(p, cx, c):
    f = c.find_method("restore_state")
    cx.fn(f)
    sh, _ = shared_params(p, f, c)
    m = Coll(sh, ("restore_state_rank",))
    o = run(p, m, f, c)
    if not m.handed:
        raise AnalysisBroken(f"{f.qualname} restores no state")
    bad = None
    state = ("param", [a.arg for a in f.all_params()][1])
    done = 0
    for ev, st in m.handed:
        v = ev.arg(0, "state") or frozenset()
        fs = facts(st.mon)
        seq = st.mon[2]
        for t in v:
            t = strip(t)
            if seq:
                outs = {x for e, k, s in m.calls if k == seq[-1][0] for x in e.arg(*OPS[k][1]) or ()}
                if t != OWN and not (t[0] == "sub" and t[1] in outs and t[2] == ("const", 0)):
                    bad = (ev, "the rank does not restore what it was sent")
                continue
            lst = [vv for d, vv in fs.items() if d[0] == "call" and d[1] == ("ext", "isinstance") and d[2][0] == state]
            if t[0] == "sub" and t[1] == state:
                i = t[2]
                if not (i[0] == "attr" and i[2] == "rank" and any(x == SELF for x in subterms(i))):
                    bad = (ev, "the rank restores the state of another one")
                if lst != [True]:
                    bad = (ev, "the state is taken apart though it is no list")
            elif t == state:
                d = distributed(fs)
                if d is not False and lst != [False]:
                    bad = (ev, "a rank restores the states of all ranks as its own")
                if d is not False and lst == [False] and not alone(st.mon[0], sh):
                    bad = (ev, "the state is not received from the rank which has it")
            else:
                bad = (ev, "what is restored is not the given state")
    for st, _, node in o.ret:
        done += 1
        cx.check((DONE, True) in st.mon[1], "C31.own", f"{f.qualname} done", f.loc(node) if node is not None else f.loc(),
                 "the rank restores nothing")
    cx.check(bad is None and done, "C31.own", f"{f.qualname} result", bad[0].loc() if bad else f.loc(), bad[1] if bad else "")


def alone(yes, sh):
    """Is no source rank given?"""
    return any(d[0] == "cmp" and d[1] == "Is" and NONE in d[2:] and any(x[0] == "param" and x[1] in sh for x in d[2:]) and v
               for d, v in yes)


def check(p, cx):
    cx.rule("C31.enter", "functions with collectives: the sequence of collectives depends only on what all ranks share")
    cx.rule("C31.who", "source and destination ranks and the process group are shared by all ranks")
    cx.rule("C31.lists", "the lists given to a collective have a place per rank and are present on the rank torch expects them")
    cx.rule("C31.own", "a rank contributes its own state and restores its own state")
    fs = sorted(entries(p), key=lambda f: f.qualname)
    n = 0
    called = {(n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id, g) for g in fs for n in ast.walk(g.node)
              if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) or isinstance(n.func, ast.Attribute) and
                                              isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls"))}
    for f in fs:
        if any(name == f.name and g is not f for name, g in called):
            continue            # seen from there
        cx.fn(f)
        sh, m = shared_params(p, f, f.cls)
        m = Coll(sh)
        o = run(p, m, f, f.cls)
        if not m.calls:
            continue
        n += len(m.calls)
        rounds(p, cx, f, f.cls, m, o)
        arguments(p, cx, f, f.cls, m)
        buffers(p, cx, f, m)
    cx.floor("collective operations", n, 3)
    c = p.cls("SavableDataLoader", must=True)
    saved(p, cx, c)
    restored(p, cx, c)
