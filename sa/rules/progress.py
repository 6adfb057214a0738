"""C13: at every hand-out the saved progress already accounts for the sample."""
from ..flow import Interp, Monitor, MUTATORS, subterms
from ..model import AnalysisBroken
from ..statemodel import apath
from . import state as S

#: operations of savable members which take something out of them (or only look)
READS = {"pop", "flush", "__getitem__"}
REMOVES = {"clear", "__delitem__", "remove"}


def own_attr(b):
    q = apath(b)
    return q[1] if q and q[0] == "self" and len(q) > 1 else None


def increments(value, base, index):
    """Is value the old content plus something?"""
    for t in value:
        if t[0] in ("binop", "aug"):
            for x in subterms(t):
                if x[0] == "sub" and x[1] in base and x[2] in index:
                    return True
    return False


class HandOut(Monitor):
    """mon = (phase, loops entered since the hand-out, counters advanced since the fetch,
    attributes changed before the first hand-out or None after it)"""

    def __init__(self, k, watch=frozenset()):
        self.watch = watch
        self.own = set(k.adv)
        self.members = set(k.touched) | set(k.ds_attrs)
        self.buffers = {a for a in self.members if a not in k.ds_attrs or
                        S.savable_type(k.p.attr_type(k.cls, a)).find_method("flush") is not None}
        self.late = {}
        self.sites = {}
        self.firsts = []
        self.yields = 0

    def init(self):
        return ("run", frozenset(), frozenset(), frozenset())

    def update(self, a, ev, st, adv=False):
        ph, loops, up, first = st.mon
        if ph == "after" and a in self.own | self.buffers:
            self.late.setdefault((a, id(ev.node)), ev)
        return (ph, loops, up | {a} if adv else up, first if first is None else first | {(a, id(ev.node))} & self.watch)

    def event(self, ev, st, ip):
        ph, loops, up, first = st.mon
        fetch = ("run", frozenset(), frozenset(), first)
        k = ev.kind
        if k in ("yield", "yield_from"):
            self.yields += 1
            if first is not None:
                self.firsts.append(first)
            self.sites.setdefault((id(ev.node), ev.stack), []).append((up, ev))
            return ("after", frozenset(), frozenset(), None)
        if k == "loop_enter" and ph == "after":
            return (ph, loops | {id(ev.node)}, up, first)
        if k == "loop_exit" and ph == "after":
            return (ph, loops - {id(ev.node)}, up, first) if id(ev.node) in loops else ("run", frozenset(), up, first)
        if k in ("next", "iter", "exhausted"):
            # a loop over something local (constants, ranges) fetches nothing
            if all(self.local(t) for t in (ev.value or ())):
                return NotImplemented
            return fetch
        if k == "call" and ev.tag != "inlined":
            if ev.func == ("ext", "next"):
                return fetch
            r = ev.recv
            a = own_attr(r) if r is not None else None
            if a in self.buffers:
                if ev.name in REMOVES:
                    return self.update(a, ev, st)
                return fetch
            if a in self.own and ev.name in MUTATORS:
                if ev.name in ("pop", "popitem", "popleft"):
                    return fetch
                return self.update(a, ev, st)
            for v in ev.args or ():
                if any(own_attr(t) in self.buffers for t in v):
                    return fetch
        if k == "load_sub" and any(own_attr(b) in self.buffers for b in ev.base):
            return fetch
        if k == "store_attr" and ("self",) in ev.base and ev.attr in self.own:
            return self.update(ev.attr, ev, st)
        if k in ("store_sub", "del_sub"):
            for b in ev.base:
                a = own_attr(b)
                if a in self.own or a in self.buffers:
                    return self.update(a, ev, st, k == "store_sub" and increments(ev.value, ev.base, ev.index))
        return NotImplemented

    @staticmethod
    def local(t):
        if t[0] == "call" and t[1] in (("ext", "range"),):
            return True
        if t[0] == "call" and t[1] == ("ext", "list") and len(t[2]) == 1:
            return HandOut.local(t[2][0])
        return t[0] == "const" or t[0] == "obj"


def check(p, cx):
    cx.rule("C13.late", "between handing out a sample and fetching the next one (or leaving the loop) no saved progress "
            "attribute of the dataset changes: the change belongs before the hand-out")
    cx.rule("C13.always", "a counter advanced before a hand-out on one path is advanced on every path to that hand-out")
    cx.rule("C13.shard", "the reader of a shard advances the position exactly once for the sample it returns, and the byte "
            "position with it")
    n = 0
    for k in S.facts(p):
        if k.helper:
            continue
        c = k.cls
        f = c.find_method("__iter__")
        if f is None or f.is_abstract:
            continue
        m = HandOut(k)
        Interp(p, m).run(f, c)
        if m.late:
            # once more, following the suspicious changes only
            m2 = HandOut(k, frozenset(m.late))
            Interp(p, m2).run(f, c)
            m.firsts = m2.firsts
        cx.fn(f)
        n += len(m.sites)
        late = {a: ev for (a, site), ev in m.late.items() if any((a, site) not in x for x in m.firsts)}
        for a, ev in late.items():
            cx.bad("C13.late", f"{c.name}.{a}", ev.where(),
                   f"{c.name}.{a} changes only after the sample was handed out: a state saved in between repeats it")
        for a in sorted(m.own - set(late)):
            cx.ok("C13.late", f"{c.name}.{a}", f.loc())
        for (_, stack), lst in m.sites.items():
            every = set.intersection(*[set(u) for u, _ in lst])
            some = set.union(*[set(u) for u, _ in lst])
            ev = lst[0][1]
            for a in sorted(some):
                cx.check(a in every, "C13.always", f"{c.name}.{a}@{ev.fn.name}", ev.where(),
                         f"a sample is handed out without advancing {c.name}.{a} on some path")
    cx.floor("hand-outs", n, 20)
    cx.rule("C13.moves", "every attribute saved as progress is changed somewhere while iterating")
    for k in S.facts(p):
        saved = {}
        for fld, lst in k.saved().items():
            for attrs, v, st in lst:
                for a in attrs:
                    saved.setdefault(a, fld)
        for a in sorted(set(saved) - set(k.ds_attrs)):
            cx.check(a in k.adv or a in k.touched, "C13.moves", f"{k.cls.name}.{a}", S.where(k.m.save_fn),
                     f"{k.cls.name}.{a} is saved as progress, but nothing changes it while iterating")
    shard(p, cx)


class Reader(Monitor):
    """mon = (steps counted, byte position written since the last one, inside the exclusion)"""

    def __init__(self, fields):
        self.fields = fields
        self.bad = {}

    def init(self):
        return (0, 0, False)

    def event(self, ev, st, ip):
        n, b, ex = st.mon
        if ev.kind == "branch":
            for t in ev.cond:
                if t[0] == "cmp" and t[1] in ("In", "NotIn") and any(x[0] == "attr" and x[2] == "exclude"
                                                                     for x in subterms(t[3])):
                    return (n, b, (t[1] == "In") == bool(ev.taken))
        if ev.kind == "call" and ev.func == ("ext", "next"):
            return (n, b, False)
        if ev.kind == "store_attr" and any(x[0] == "attr" and x[2] == "shard_state" for t in ev.base for x in subterms(t)):
            if ev.attr == "offset":
                if ex:
                    return NotImplemented
                return (min(n + 1, 2), b, ex)
            if ev.attr == "byte_offset":
                return (n, min(b + 1, 2), ex)
        return NotImplemented


def shard(p, cx):
    c = p.cls("SingleShardReader")
    f = c.find_method("read_next")
    if f is None:
        raise AnalysisBroken("SingleShardReader.read_next not found")
    m = Reader(None)
    o = Interp(p, m).run(f, c)
    cx.fn(f)
    bad = None
    for st, v, node in o.ret:
        n, b, ex = st.mon
        if n != 1 or b != 1:
            bad = bad or (n, b, node)
    cx.floor("returns of the shard reader", len(o.ret), 1)
    cx.check(bad is None, "C13.shard", "SingleShardReader.read_next", f.loc(bad[2]) if bad else f.loc(),
             f"a sample is returned after advancing the position {bad and bad[0]} time(s) and the byte position "
             f"{bad and bad[1]} time(s)")
