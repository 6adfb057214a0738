"""C32: positions count exactly what was handed out, and iteration goes on exactly there."""
from ..flow import Interp, Monitor, subterms
from ..model import AnalysisBroken
from . import arith, keys
from . import state as S
from .resume import own_attr

DELTAS = frozenset(arith.SPAN)
NS = frozenset(range(4))


def counters(k):
    """Saved attributes of the class which are not members with a state of their own."""
    return {a for a in k.adv if a not in k.ds_attrs and S.savable_type(k.p.attr_type(k.cls, a)) is None}


def range_of(t):
    """The range call behind an iterable (through copies)."""
    while t[0] == "call" and t[1] in (("ext", "list"), ("ext", "tuple"), ("ext", "iter")) and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == "call" and t[1] == ("ext", "range") and t[2]:
        return t
    return None


def bounds(r):
    """(start, stop, step) of a range call."""
    a = r[2]
    if len(a) == 1:
        return ("const", 0), a[0], ("const", 1)
    return a[0], a[1], a[2] if len(a) > 2 else ("const", 1)


class Steps(Monitor):
    """mon = (range loops being in, counters overwritten so far)"""

    def __init__(self, k):
        self.k = k
        self.own = counters(k)
        self.gates = set()   # counters deciding how far to go
        self.ends = []       # [(counters advanced and not set back, event or node)]
        self.steps = {}      # attr -> [(what is wrong or None, event)]
        self.ranges = {}

    def init(self):
        return (frozenset(), frozenset())

    def not_last(self, c, taken, loops):
        """Loops in which this branch is only taken this way before the last round."""
        out = set()
        for l in loops:
            r = self.ranges.get(l)
            if r is None:
                continue
            lo, hi, step = bounds(r)
            h = arith.holds(c, taken, lambda f: arith.pair(f, lambda x: x[0] == "index" and range_of(x[1]) == r, lambda y: y == hi))
            if h is not None and -1 not in h:
                out.add(("more", l))
        return out

    def of(self, t, a):
        """Is t the content of counter a?"""
        return t[0] in ("sub", "attr") and own_attr(t) == a

    def judge(self, t, a, st):
        """What is wrong with storing t in counter a, None if nothing, NotImplemented if it is no number."""
        if t[0] == "const":
            if isinstance(t[1], bool) or not isinstance(t[1], int):
                return NotImplemented
            return None if t[1] == 0 else f"set to {t[1]}"
        if self.of(t, a):
            return "left as it was"
        if t[0] not in ("binop", "aug", "index"):
            return NotImplemented
        mod = None
        if t[0] == "binop" and t[1] == "Mod":
            mod, t = t[3], t[2]
        if t[0] == "binop" and t[1] not in ("Add", "Sub"):
            return NotImplemented
        x, c = arith.one_atom(t)
        if x is None:
            form = {y: n for y, n in arith.linear(t).items() if n and y != 1}
            if any(self.of(y, a) for y in form) and any(y[0] == "index" for y in form):
                return "changed by an index instead of one per step"
            return NotImplemented
        if self.of(x, a):
            return None if c == 1 else f"changed by {c} per step"
        if x[0] == "index":
            if c != 1:
                return f"set to {c} more than the index of what is handed out (instead of 1)"
            r = range_of(x[1])
            if r is not None:
                lo, hi, step = bounds(r)
                if step != ("const", 1):
                    return "counted in steps other than 1"
                if not self.of(lo, a):
                    return "counted from somewhere else than where it stands"
                if mod is not None:
                    self.mods |= set(arith.spread(mod))
                    self.his |= set(arith.spread(hi))
            return None
        if x[0] in ("elem", "sub", "attr", "param", "call"):
            return NotImplemented
        return NotImplemented

    def event(self, ev, st, ip):
        loops, over = st.mon
        k = ev.kind
        if k == "branch":
            more = set().union(*[self.not_last(c, ev.taken, loops) for c in ev.cond])
            if more - loops:
                return (loops | more, over)
            for c in ev.cond:
                if c[0] in ("cmp", "not"):
                    self.gates |= {a for x in subterms(c) for a in self.own if self.of(x, a)}
        if k == "call" and ev.func == ("ext", "range"):
            for v in ev.args:
                self.gates |= {a for x in v for y in subterms(x) for a in self.own if self.of(y, a)}
        if k == "next":
            for t in ev.value or ():
                for x in subterms(t):
                    r = range_of(x)
                    if r is not None:
                        self.ranges[id(ev.node)] = r
                        return ((loops | {id(ev.node)}) - {("more", id(ev.node))}, over)
        if k == "exhausted" and ("more", id(ev.node)) in loops:
            return []
        if k in ("exhausted", "loop_exit") and id(ev.node) in loops:
            return (loops - {id(ev.node), ("more", id(ev.node))}, over)
        if k == "store_attr" and ("self",) in ev.base:
            names = {ev.attr} & self.own
        elif k == "store_sub":
            names = {own_attr(b) for b in ev.base} & self.own
        else:
            return NotImplemented
        for a in names:
            self.mods, self.his = set(), set()
            for v in ev.value:
                for t in arith.spread(v):
                    w = self.judge(t, a, st)
                    if w is NotImplemented:
                        continue
                    if w is None and t[0] != "const":
                        for l in loops & set(self.ranges):
                            lo, hi, step = bounds(self.ranges[l])
                            if not self.of(lo, a) and not any(self.of(x, a) for x in arith.linear(hi)):
                                w = "advanced in a loop which does not start where it stands"
                    self.steps.setdefault(a, []).append((w, ev, t[0] != "const"))
            if self.mods != self.his:
                self.steps.setdefault(a, []).append(("wrapped at another number than the one counted to", ev, True))
        far = {a for a in names if any(t[0] in ("binop", "aug", "index") and t[1] not in ("Mod", "Mult") for v in ev.value for t in arith.spread(v))}
        return (loops, (over - names) | far) if names else NotImplemented


class Parts(Monitor):
    """Resuming within the parts of a user generator: mon = (resume loop, its index, what its index minus the saved
    count can be, handed out since the last part)"""

    def __init__(self, k):
        self.k = k
        self.own = counters(k)
        self.fns = keys.user_fn_attrs(k.cls)
        self.handed = {}
        self.skipped = {}
        self.where = {}

    def init(self):
        return (None, None, DELTAS, False, frozenset())

    def restored(self, t, st, depth=0):
        """Does the term contain samples restored from the inner dataset?"""
        for x in subterms(t):
            if x[0] == "call" and x[1][0] in ("bm", "attr") and self.name(x[1]) == "restore_sample":
                return True
            if x[0] == "obj" and depth < 3:
                for key, v in st.heap.get(x, (None, ()))[1]:
                    if any(self.restored(y, st, depth + 1) for y in v):
                        return True
        return False

    def name(self, f):
        if f[0] == "attr":
            return f[2]
        fi = self.ip.func_of(f)
        return fi.name if fi is not None else None

    def resume_loop(self, terms, st):
        for t in terms or ():
            for x in subterms(t):
                if x[0] == "call" and own_attr(x[1]) in self.fns and any(self.restored(a, st) for a in x[2]):
                    return True
        return False

    def loaded(self, t, st, ip):
        a = own_attr(t) if t[0] in ("sub", "attr") else None
        if a in st.mon[4]:
            return ("late", t)
        return t

    def event(self, ev, st, ip):
        self.ip = ip
        loop, it, ds, out, over = st.mon
        k = ev.kind
        if k == "next" and self.resume_loop(ev.value, st):
            self.where[id(ev.node)] = ev
            return (id(ev.node), None, DELTAS, False, over)
        if k in ("store_sub", "store_attr"):
            names = ({ev.attr} if ("self",) in ev.base else set()) if k == "store_attr" else {own_attr(b) for b in ev.base}
            names &= self.own
            if names and loop is None:
                return (loop, it, ds, out, over | names)
        if loop is None:
            return NotImplemented
        if k == "branch":
            def diff(form):
                return arith.pair(form, lambda x: x[0] == "index", lambda y: y[0] in ("sub", "attr") and own_attr(y) in self.own)
            for c in ev.cond:
                h = arith.holds(c, ev.taken, diff)
                if h is not None:
                    if not ds & h:
                        return []
                    return (loop, it, ds & h, out, over)
        if k in ("yield", "yield_from"):
            self.handed[loop] = self.handed.get(loop, frozenset()) | ds
            return (loop, it, ds, True, over)
        if k in ("loop_back", "exhausted", "loop_exit") and id(ev.node) == loop:
            if k == "loop_back" and not out:
                self.skipped[loop] = self.skipped.get(loop, frozenset()) | ds
            return (None if k != "loop_back" else loop, None, DELTAS, False, over)
        return NotImplemented


def is_total(t, k):
    return t[0] == "attr" and t[1] == ("self",)


class Share(Monitor):
    """mon = (numbers of workers possible, worker number minus remainder of the total)"""

    def __init__(self, k):
        self.k = k
        self.stops = []

    def init(self):
        return (NS, DELTAS)

    def event(self, ev, st, ip):
        self.ip = ip
        ns, ds = st.mon
        if ev.kind == "branch":
            for c in ev.cond:
                h = arith.holds(c, ev.taken, lambda f: arith.single(f, is_n), NS)
                if h is not None:
                    return (ns & h, ds) if ns & h else []
                h = arith.holds(c, ev.taken, self.against_rest)
                if h is not None:
                    return (ns, ds & h) if ds & h else []
        if ev.kind == "call" and ev.func == ("ext", "range") and ev.args:
            stop = ev.args[0] if len(ev.args) == 1 else ev.args[1]
            for v in stop:
                for t in arith.spread(v):
                    self.stops.append((t, ns, ds, ev))
        return NotImplemented

    def worker(self, t):
        if t[0] != "call":
            return False
        f = self.ip.func_of(t[1])
        return (f.name if f is not None else t[1][2] if t[1][0] == "attr" else None) == "rank_worker_id"

    def against_rest(self, form):
        return arith.pair(form, self.worker, is_rest)

    def wrong(self, t, ns, ds):
        """What is wrong with handing out t samples in this worker."""
        d = {k: v for k, v in arith.linear(t).items() if v}
        c = d.pop(1, 0)
        extra = 0
        for x in list(d):
            # int(worker < rest)
            if x[0] == "cmp" and d[x] == 1:
                h = arith.holds(x, True, self.against_rest)
                if h is not None:
                    if h != frozenset(i for i in DELTAS if i < 0):
                        return "the remainder is given to the wrong workers"
                    del d[x]
                    extra = None
        if len(d) != 1 or list(d.values()) != [1]:
            return "not a share of the total"
        x = next(iter(d))
        if is_total(x, self.k):
            if c:
                return f"{c:+d} sample(s)"
            return None if ns <= {0, 1} else "every worker hands out the total"
        q = divided(x)
        if q is None:
            return "not a share of the total"
        num = {k: v for k, v in arith.linear(q).items() if v}
        if extra is None:
            return None if c == 0 else f"{c:+d} sample(s)"
        if len(num) == 1 and list(num.values()) == [1]:
            if c == 0:
                # the last ones get the rounded down share
                return None if all(i >= 0 for i in ds) or ns == {1} else "the remainder is given to nobody"
            if c == 1:
                return None if all(i < 0 for i in ds) else "the remainder is given to the wrong workers"
            return f"{c:+d} sample(s)"
        # rounded up: (total - worker + n - 1) // n
        cc = num.pop(1, 0)
        if c == 0 and cc == -1 and sorted(num.values()) == [-1, 1, 1] and any(self.worker(y) and v == -1 for y, v in num.items()) \
                and any(is_n(y) for y in num):
            return None
        return "not a share of the total"


def is_n(t):
    return t[0] == "attr" and t[2] == "num_workers" or \
        t[0] == "call" and t[1] == ("ext", "max") and any(is_n(x) for x in t[2]) and ("const", 1) in t[2]


def divided(t):
    if t[0] == "binop" and t[1] == "FloorDiv" and is_n(t[3]):
        return t[2]
    if t[0] == "sub" and t[2] == ("const", 0) and t[1][0] == "call" and t[1][1] == ("ext", "divmod") and is_n(t[1][2][1]):
        return t[1][2][0]
    return None


def is_rest(t):
    if t[0] == "binop" and t[1] == "Mod" and is_n(t[3]):
        return True
    return t[0] == "sub" and t[2] == ("const", 1) and t[1][0] == "call" and t[1][1] == ("ext", "divmod") and is_n(t[1][2][1])


def check(p, cx):
    cx.rule("C32.step", "a saved count changes by exactly one per step: to one more than the index of what is handed out, "
            "or one more than it was; loops over indexes start where it stands")
    cx.rule("C32.wrap", "a count which decides where to go on is back at its start when an iteration has come to its end")
    cx.rule("C32.resume", "when going on within the parts of a user generator, exactly the parts already counted are skipped")
    cx.rule("C32.share", "a total split between workers: the shares differ by one at most and add up (total // n, plus one for the "
            "first total % n workers; one worker gets all)")
    n = resumes = shares = 0
    for k in S.facts(p):
        if k.helper:
            continue
        f = k.cls.find_method("__iter__")
        if f is None or f.is_abstract:
            continue
        cx.fn(f)
        m = Steps(k)
        o = Interp(p, m).run(f, k.cls)
        left = {a for st in o.normal + [x[0] for x in o.ret] for a in st.mon[1]} & m.gates
        for a, lst in sorted(m.steps.items()):
            if not any(num for w, ev, num in lst):
                continue
            n += 1
            bad = [(w, ev) for w, ev, num in lst if w]
            cx.check(not bad, "C32.step", f"{k.cls.name}.{a}", (bad[0][1] if bad else lst[0][1]).loc(),
                     f"{k.cls.name}.{a} is {bad[0][0] if bad else ''}: a restored state continues at another sample")
            if a in m.gates:
                cx.check(a not in left, "C32.wrap", f"{k.cls.name}.{a}", lst[0][1].loc(),
                         f"{k.cls.name}.{a} is not set back when the iteration ends: the next one starts at the end")
        m = Parts(k)
        Interp(p, m).run(f, k.cls)
        for loop, ev in m.where.items():
            resumes += 1
            h, s = m.handed.get(loop, frozenset()), m.skipped.get(loop, frozenset())
            late = {d for d in h if d < 0}
            lost = {d for d in DELTAS if d >= 0} - h | {d for d in s if d >= 0}
            cx.check(not late and not lost, "C32.resume", k.cls.name, ev.loc(),
                     f"{k.cls.name}: going on within the parts of a generator " +
                     ("hands out parts again which were handed out already" if late else "leaves out parts not handed out yet"))
        m = Share(k)
        Interp(p, m).run(f, k.cls)
        if any(divided(x) is not None for t, ns, ds, ev in m.stops for x in subterms(t)):
            shares += 1
            bad = None
            for t, ns, ds, ev in m.stops:
                # a range which has nothing to do with a total
                if not any(own_attr(x) for x in subterms(t)):
                    continue
                w = m.wrong(t, ns, ds)
                if w:
                    bad = bad or (w, ev)
            cx.check(bad is None, "C32.share", k.cls.name, (bad[1] if bad else m.stops[0][3]).loc(),
                     f"{k.cls.name}: the samples handed out by the workers do not add up to the total: {bad and bad[0]}")
    cx.floor("counters", n, 7)
    cx.floor("resumed generators", resumes, 2)
    cx.floor("shares", shares, 2)
