"""C01: what iterating keeps in its own frame (being past the end of the inner dataset, the position
within what a user generator gives) must be recoverable from the saved attributes."""
from ..flow import Interp, Monitor, MUTATORS, subterms
from ..statemodel import apath
from . import keys
from . import state as S


def own_attr(b):
    q = apath(b)
    return q[1] if q and q[0] == "self" and len(q) > 1 else None


#: calls which fetch everything there is
DRAIN = {("ext", x) for x in ("list", "tuple", "sorted", "set", "collections.deque")}


class Phase(Monitor):
    """mon = None while an inner dataset has more samples, else the saved attributes stored since it ended"""

    def __init__(self, k):
        self.k = k
        self.own = set(k.adv)
        self.sites = {}
        self.ends = 0
        self.fetches = 0
        self.late = {}

    def init(self):
        return None

    def aged(self, st):
        """The state in which the samples fetched so far are marked as such."""
        memo = {}

        def fresh(t):
            if t[0] == "elem":
                return self.draws(t[1])
            return t[0] == "call" and t[1] == ("ext", "next") and len(t[2]) > 0 and self.draws(t[2][0])

        def one(t):
            if t not in memo:
                memo[t] = ("old", t) if t[0] != "old" and any(fresh(x) for x in subterms(t)) else t
            return memo[t]

        def all_(v):
            return frozenset(one(t) for t in v) if any(one(t) != t for t in v) else v
        env = {k: all_(v) if isinstance(v, frozenset) else v for k, v in st.env.items()}
        heap = {o: (sh, frozenset((k, all_(v)) for k, v in items)) for o, (sh, items) in st.heap.items()}
        return st.copy(env=env, heap=heap, mon=None)

    def is_old(self, t, st):
        """Is this (one of) the samples fetched before the last one? (collections of them are not)"""
        if t[0] == "old":
            return True
        if t[0] == "call" and t[1][0] in ("attr", "bm") and t[1][1][0] == "obj" and t[1][2] in ("pop", "popleft"):
            return self.holds_old(t[1][1], st)
        if t[0] in ("sub", "elem") and t[1][0] == "obj":
            return self.holds_old(t[1], st)
        if t[0] == "any":
            return any(self.is_old(x, st) for x in t[1])
        if t[0] == "call":
            return any(self.is_old(x, st) for x in t[2])
        return False

    def holds_old(self, obj, st):
        return any(t[0] == "old" for k, v in st.heap.get(obj, (None, ()))[1] for t in v)

    def inner(self, terms):
        """Do these terms draw from a wrapped dataset?"""
        return any(self.draws(t) for t in terms or ())

    def draws(self, t):
        k = t[0]
        a = own_attr(t)
        if k == "attr" and a in self.k.ds_attrs:
            ty = self.k.p.attr_type(self.k.cls, a)
            return bool(ty) and ty[0] == "cls"
        if k in ("sub", "elem", "val"):
            # one of several wrapped datasets; not a sample of the one, nor part of a buffer
            if a in self.k.ds_attrs:
                ty = self.k.p.attr_type(self.k.cls, a)
                return bool(ty) and ty[0] != "cls"
            return False
        if k == "call":
            if t[1] in DRAIN:
                return False
            return any(self.draws(x) for x in (t[1],) + tuple(t[2]))
        if k in ("bm", "star"):
            return self.draws(t[1])
        if k == "attr":
            return self.draws(t[1])
        if k == "tuple":
            return any(self.draws(x) for x in t[1])
        return False

    def stored(self, ev):
        """Own saved attributes this event writes (members keep their own state)."""
        if ev.kind == "store_attr" and ("self",) in ev.base:
            a = {ev.attr}
        elif ev.kind == "store_sub":
            a = {own_attr(b) for b in ev.base}
        else:
            return set()
        return {x for x in a & self.own if x not in self.k.ds_attrs
                and S.savable_type(self.k.p.attr_type(self.k.cls, x)) is None}

    def event(self, ev, st, ip):
        k = ev.kind
        if k == "next" and self.inner(ev.value):
            self.fetches += 1
            return self.aged(st)
        if k in ("loop_enter", "iter") and self.inner(ev.value):
            return None
        if k == "exhausted" and self.inner(ev.value):
            self.ends += 1
            return frozenset()
        if k == "call" and ev.tag != "inlined":
            if ev.func == ("ext", "next") and self.inner(ev.arg(0)):
                self.fetches += 1
                return self.aged(st)
            if ev.func in DRAIN and self.inner(ev.arg(0)):
                self.ends += 1
                return frozenset()
        if k == "catch" and "StopIteration" in (ev.value or ()):
            self.ends += 1
            return frozenset()
        if k in ("yield", "yield_from"):
            for t in ev.value or ():
                if self.is_old(t, st):
                    self.late.setdefault(id(ev.node), ev)
        if st.mon is not None:
            a = self.stored(ev)
            if a:
                return st.mon | a
            if k in ("yield", "yield_from"):
                self.sites.setdefault((ev.fn.name, id(ev.node)), []).append((st.mon, ev))
        return NotImplemented


class Parts(Phase):
    """mon = (generator loops of user functions being in, saved attributes stored since the last part)"""

    def __init__(self, k):
        super().__init__(k)
        self.fns = keys.user_fn_attrs(k.cls)
        self.loops = set()

    def init(self):
        return (frozenset(), frozenset())

    def of_user(self, terms):
        for t in terms or ():
            for x in subterms(t):
                # a function over the whole stream of samples has no sample it is within
                if x[0] == "call" and own_attr(x[1]) in self.fns and not any(
                        a[0] == "gen" or a[0] == "call" and a[1] == ("ext", "iter") for a in x[2]):
                    return x
        return None

    def event(self, ev, st, ip):
        loops, done = st.mon
        k = ev.kind
        if k == "next":
            u = self.of_user(ev.value)
            if u is not None:
                self.loops.add(id(ev.node))
                return (loops | {id(ev.node)}, frozenset())
        if id(ev.node) in loops and k in ("exhausted", "loop_exit"):
            return (loops - {id(ev.node)}, frozenset())
        if loops:
            a = self.stored(ev)
            if a:
                return (loops, done | a)
            if k in ("yield", "yield_from"):
                self.sites.setdefault((ev.fn.name, id(ev.node)), []).append((done, ev))
        return NotImplemented


def check(p, cx):
    cx.rule("C01.resume", "a sample handed out after the inner dataset has ended is preceded by storing that in a saved attribute "
            "(else a state saved there iterates the inner dataset once more)")
    cx.rule("C01.ahead", "a sample is handed out before the next one is fetched from the inner dataset, unless it is kept in a saved buffer")
    cx.rule("C01.parts", "between two parts of what a user's generator gives for one sample, a saved position advances")
    ends = parts = aheads = 0
    for k in S.facts(p):
        if k.helper or not k.ds_attrs:
            continue
        f = k.cls.find_method("__iter__")
        if f is None or f.is_abstract:
            continue
        cx.fn(f)
        m = Phase(k)
        Interp(p, m).run(f, k.cls)
        if m.ends:
            ends += 1
            bad = [ev for l in m.sites.values() for done, ev in l if not done]
            cx.check(not bad, "C01.resume", k.cls.name, (bad[0] if bad else f).loc(),
                     f"{k.cls.name} hands out samples after its inner dataset ended without recording that in what is saved: "
                     "after restoring such a state it iterates the inner dataset once more")
        if m.fetches:
            aheads += 1
            bad = list(m.late.values())
            cx.check(not bad, "C01.ahead", k.cls.name, (bad[0] if bad else f).loc(),
                     f"{k.cls.name} hands out a sample after fetching a later one which only the iteration itself holds: "
                     "a state saved then loses the later one")
        m = Parts(k)
        Interp(p, m).run(f, k.cls)
        for l in m.sites.values():
            parts += 1
            bad = [ev for done, ev in l if not done]
            cx.check(not bad, "C01.parts", k.cls.name, l[0][1].loc(),
                     f"{k.cls.name} hands out one of the parts a user's generator gave without advancing a saved position: "
                     "the remaining parts are lost after restoring")
    cx.floor("datasets which see their inner dataset end", ends, 8)
    cx.floor("datasets which fetch from their inner dataset", aheads, 8)
    cx.floor("hand-outs of parts", parts, 4)
