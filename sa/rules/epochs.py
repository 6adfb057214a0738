"""C36: within an epoch the sample loader reads each slice of the worker exactly once, each at a place of its own
(its reader, its weight and the state which is saved for it), and the places are resumed as they were saved."""
import ast

from ..flow import Interp, Monitor, subterms
from ..model import AnalysisBroken
from . import arith
from .resume import own_attr
from .takes import plain

SELF = ("self",)
SIZES = range(0, 4)


def is_call(t, *names):
    if t[0] != "call":
        return False
    f = t[1]
    return f[0] == "attr" and f[2] in names or f[0] == "ext" and f[1].rsplit(".", 1)[-1] in names


def emptiness(cond, taken, is_x):
    """(True: empty, False: not empty, None: not known) for the container a condition is about, or nothing at all."""
    cond, taken = plain(cond, taken)
    if cond[0] == "cmp" and cond[1] in arith.TEST or cond[0] != "cmp":
        def one(x):
            if is_x(x):
                return True
            return x[0] == "call" and x[1] == ("ext", "len") and len(x[2]) == 1 and is_x(x[2][0])
        d = arith.holds(cond, taken, lambda form: arith.single(form, one), SIZES)
        if d is None:
            return None
        if d == {0}:
            return True
        if d and 0 not in d:
            return False
    return None


def each(t):
    return list(arith.spread(t))


class Epoch(Monitor):
    """mon = (slices taken without a reader, step: frozenset of (what, place, slices), any place left?, pending empty?,
    drawn with replacement?, list reversed?, any place saved?, has the worker slices?, (places filled since the last
    read?, are the places the saved ones?, the pending slices?), all weights set to zero?)"""

    def __init__(self, p, c, reader):
        self.p, self.c, self.reader = p, c, reader
        self.bad, self.good = {}, {}
        self.iters, self.weights, self.actives = set(), set(), set()
        self.lists = set()        # the terms slices are taken from
        self.elems = set()        # the lists states are resumed from
        self.steps = {}
        self.reads_at = {}
        self.ranges, self.sizes, self.ends = [], [], {}
        self.tested = self.counted = self.replaces = False

    def init(self):
        return (frozenset(), frozenset(), None, None, None, False, None, None, (False, False, False), False)

    def inline(self, fi, recv, ip, stack):
        if fi is self.reader:
            return False
        return NotImplemented

    def say(self, rule, what, ev, msg):
        if {what, rule} & self.about:
            self.bad.setdefault((rule, what), (ev.loc(), msg))

    def fine(self, rule, what, ev):
        if {what, rule} & self.about:
            self.good.setdefault((rule, what), ev.loc())

    # --------------------------------------------------------------- terms
    def is_reader(self, t, ip):
        return t[0] in ("call", "gen") and ip.func_of(t[1] if t[0] == "call" else t) is self.reader

    def reads(self, t, ip, st):
        """The states a reader was made for."""
        if t[0] == "call" and t[1][0] == "bm" and ip.func_of(t[1]) is self.reader:
            return t[2][0] if t[2] else dict(t[3]).get("shard_states")
        return None

    def slices(self, states, st):
        """The slices states are for: {("fresh", slice)} or {("saved", entry)}; None if not followed."""
        res = set()
        for t in each(states):
            if t[0] == "obj" and t in st.heap:
                shape, content = st.heap[t]
                recs = {x for _, v in content for x in v}
                if not recs:
                    return None
                for r in recs:
                    if r not in st.heap or not str(st.heap[r][0]).startswith("rec:"):
                        return None
                    f = dict(st.heap[r][1])
                    for s in f.get("shard", ()):
                        for y in each(s):
                            if y[0] != "elem":
                                return None
                            res |= {("fresh", z) for z in each(y[1])}
            elif t[0] in ("elem", "sub") and any(own_attr(x) for x in subterms(t)):
                res.add(("saved", t))
            else:
                return None
        return frozenset(res) or None

    def weight_of(self, v):
        """The slices whose size a weight is: as in slices(); 0 for none; None if not followed."""
        res = set()
        for t in (y for x in v for y in each(x)):
            while is_call(t, "float", "int") and len(t[2]) == 1:
                t = t[2][0]
            if t[0] == "const" and t[1] in (0, 0.0) and not isinstance(t[1], bool):
                res.add(0)
            elif t[0] == "attr" and t[2] == "count":
                b = t[1]
                if b[0] == "attr" and b[2] == "shard" and b[1][0] == "sub":
                    res |= {("saved", x) for x in each(b[1][1])}
                elif b[0] == "sub":
                    res |= {("fresh", x) for x in each(b[1])}
                else:
                    return None
            else:
                return None
        return frozenset(res) or None

    def place(self, v, st, appended):
        """("end",) for the place the next append is for, else the index terms."""
        res = set()
        for t in v:
            d = {k: x for k, x in arith.linear(t).items() if x}
            c = d.pop(1, 0)
            if len(d) == 1 and list(d.values()) == [1]:
                a = next(iter(d))
                if is_call(a, "index") and a[1][0] == "attr":
                    res.add(("found", a[1][1], c))   # where a reader is found
                    continue
                if a[0] == "call" and a[1] == ("ext", "len") and a[2] and a[2][0] in self.iters:
                    res.add(("end", c + 1 if appended else c))
                    continue
                if a[0] == "index" and a[1][0] != "call":
                    res.add(("end", c))
                    continue
            res.add(t)
        return frozenset(res)

    def pending(self, t):
        return t in self.lists or t[0] == "any" and any(self.pending(x) for x in t[1])

    # --------------------------------------------------------------- steps
    def close(self, mon, ev):
        """The end of a step: what was put at one place is compared at the end of the analysis."""
        if mon[1]:
            self.steps.setdefault(mon[1], ev)
        return mon[:1] + (frozenset(),) + mon[2:]

    def put(self, mon, what, place, val, ev):
        if "step" not in self.track:
            return mon
        if any(w == what for w, _, _ in mon[1]):
            mon = self.close(mon, ev)
        mon = mon[:1] + (mon[1] | {(what, place, val)},) + mon[2:]
        if {w for w, _, _ in mon[1]} >= {"reader", "weight", "state"}:
            mon = self.close(mon, ev)
        return mon

    NAMES = ("taken", "step", "left", "empty", "repl", "rev", "saved", "mine", "keep", "zero")

    def with_(self, mon, **kw):
        return tuple(kw[n] if n in kw and n in self.track else x for n, x in zip(self.NAMES, mon))

    def appended(self, mon):
        return any(w == "reader" and pl == frozenset({("end", 0)}) for w, pl, _ in mon[1])

    def is_mine(self, t):
        """The slices of this worker as they were set."""
        return own_attr(t) == "shards" and t[0] == "sub"

    def reader_value(self, v, ip, st):
        """slices the readers in a value are for, 0 for none, None when it is something else."""
        res = set()
        for t in (y for x in v for y in each(x)):
            if t == ("const", None):
                res.add(0)
                continue
            a = self.reads(t, ip, st)
            if a is None:
                return None
            for x in a if isinstance(a, (set, frozenset)) else [a]:
                s = self.slices(x, st)
                if s is None:
                    res.add(("other", t))
                else:
                    res |= s
        return frozenset(res) or None

    def stored(self, v, st):
        res = set()
        for t in (y for x in v for y in each(x)):
            if t == ("const", None):
                res.add(0)
                continue
            s = self.slices(t, st)
            if s is None:
                return None
            res |= s
        return frozenset(res) or None

    def event(self, ev, st, ip):
        mon = st.mon
        f = getattr(self, "on_" + ev.kind, None)
        if f is None:
            return NotImplemented
        r = f(ev, st, ip, mon)
        return NotImplemented if r is None or r == mon else r

    # ---- places
    def on_call(self, ev, st, ip, mon):
        fn = ev.func
        if ev.callee is self.reader and not ev.tag == "inlined":
            for v in ev.args[:1]:
                for t in v:
                    s = self.slices(t, st)
                    if s is None:
                        continue
                    self.fresh(t, s, ev, st)
                    done = {x for k, x in s if k == "fresh"}
                    if done & mon[0]:
                        mon = self.with_(mon, taken=mon[0] - done)
                    for k, x in s:
                        if k == "fresh" and is_call(x, "pop", "popleft"):
                            self.lists |= set(each(x[1][1]))
            return mon
        if fn is None:
            return mon
        name = fn[2] if fn[0] == "attr" else None
        if name == "append" and ev.args:
            return self.append(ev, st, ip, mon, fn[1])
        if name in ("pop", "popleft") and any(x in self.lists for x in each(fn[1])):
            return self.pop(ev, st, ip, mon, fn[1], name)
        if name in ("reverse", "sort", "clear", "remove", "append", "extend", "insert", "pop") and any(
                self.is_mine(x) for x in each(fn[1])):
            self.say("C36.order", "own", ev, "the slices of the worker themselves are changed, so that later epochs have others")
        if is_call(("call", fn), "zeros", "zeros_like", "zero_", "fill_", "full"):
            mon = self.with_(mon, zero=True)
        if fn == ("ext", "range") and len(ev.args) == 2:
            self.ranges.append((ev.args[0], ev.args[1], ev))
        if is_call(("call", fn), "zeros", "empty", "full") and fn[0] == "ext" and ev.args:
            self.sizes.append((ev.args[0], ("call", fn), ev))
        if name == "reverse":
            return self.with_(mon, rev=None if mon[5] is None else not mon[5])
        if name == "shuffle" or fn[0] == "bm" and ip.func_of(fn) is not None and ip.func_of(fn).name == "shuffle":
            for t in (y for v in ev.args[:1] for x in v for y in each(x)):
                self.shuffled(t, ev)
        if fn == ("ext", "next") and ev.args and any(self.is_reader(y, ip) or is_call(y, "choice") or self.drawn(y, ip)
                                                    for x in ev.args[0] for y in each(x)):
            mon = self.close(mon, ev)
            self.reads_at.setdefault(ev.loc(), ev)
            if mon[2] is False:
                self.say("C36.end", "read", ev, "a sample is read although no place has a slice left")
            if mon[0]:
                self.say("C36.once", "taken", ev, "a slice taken from those pending gets no reader: its samples are lost")
            filled, a, b = mon[8]
            if filled and self.pending_attrs() and self.active_attrs():
                if not a:
                    self.say("C36.saved", "state", ev, "the places in use are not those which are saved")
                elif not b:
                    self.say("C36.saved", "pending", ev, "the pending slices are not those which are saved")
                else:
                    self.fine("C36.saved", "all", ev)
            return self.with_(mon, saved=None, taken=frozenset(), keep=(False, False, False), zero=True, rev=None, empty=None, repl=None)
        return mon

    def drawn(self, t, ip):
        f = ip.func_of(t[1]) if t[0] == "call" and t[1][0] == "bm" else None
        return f is not None and f.name == "choice"

    def append(self, ev, st, ip, mon, base):
        v = ev.args[0]
        bases = set(each(base))
        r = self.reader_value(v, ip, st)
        if r is not None and r != {0}:
            self.iters |= bases
        if bases & self.iters:
            if r is None:
                return mon
            if any(isinstance(x, tuple) and x[0] == "fresh" for x in r):
                mon = self.with_(mon, keep=(True,) + mon[8][1:])
            kw = {"fill": True} if r == {0} and mon[6] is False else {}
            mon = self.put(mon, "reader", frozenset({("end", 0)}), r, ev)
            if kw:
                mon = self.put(mon, "fill", frozenset(), frozenset(), ev)
            if r == {0} and not mon[9]:
                mon = self.put(mon, "garbage", frozenset(), frozenset(), ev)
            return mon
        s = self.stored(v, st)
        if s is not None and s != {0}:
            self.actives |= bases
        if bases & self.actives and s is not None:
            return self.put(mon, "state", frozenset({("end", 0)}), s, ev)
        return mon

    def on_store_sub(self, ev, st, ip, mon):
        idx = ev.index or frozenset()
        bases = {y for x in ev.base for y in each(x)}
        own = {own_attr(b) for b in bases if b[0] == "attr"}
        if own & (self.pending_attrs() | self.active_attrs()) and not any(x[0] == "index" for t in idx for x in subterms(t)):
            if mon[6] is True:
                self.say("C36.resume", "new", ev, "a new epoch is started although there still are saved slices: their samples are lost")
            else:
                self.fine("C36.resume", "new", ev)
            if mon[2] is False:
                if (("attr", SELF, "loop"), "true") not in st.facts:
                    self.say("C36.end", "again", ev, "another epoch is started whether or not the dataset is to loop")
                else:
                    self.fine("C36.end", "again", ev)
            vals = {y for x in ev.value for y in each(x)}
            filled, a, b = mon[8]
            if own & self.active_attrs():
                a = vals <= self.actives
            if own & self.pending_attrs():
                b = vals <= self.lists
            mon = self.with_(mon, keep=(filled, a, b))
            return self.with_(mon, saved=False if mon[6] is False else None)
        if any(t[0] == "slice" for t in idx):
            if self.weight_of(ev.value) == {0} and all(str(t[-1]).strip() == ":" for t in idx):
                return self.with_(mon, zero=True) if bases & self.weights else mon
            return mon
        place = self.place(idx, st, self.appended(mon))
        r = self.reader_value(ev.value, ip, st)
        if r is not None and (bases & self.iters or r != {0}):
            if r != {0}:
                self.iters |= bases
            mon = self.put(mon, "reader", place, r, ev)
            if 0 in r and not any(x[0] == "end" for x in place):
                self.emptied(ev, st, mon)
                return self.with_(mon, left=None)
            return self.with_(mon, left="full")
        s = self.stored(ev.value, st)
        if s is not None and (bases & (self.actives | self.saved_lists()) or s != {0} and not bases & self.weights):
            if s != {0}:
                self.actives |= bases
            return self.put(mon, "state", place, s, ev)
        w = self.weight_of(ev.value)
        if w is not None and (bases & self.weights or w != {0}):
            self.weights |= bases
            return self.put(mon, "weight", place, w, ev)
        if bases & self.weights:
            for t in (y for x in ev.value for y in each(x)):
                less = {x[3][1] for x in subterms(t) if x[0] == "binop" and x[1] == "Sub" and x[3][0] == "attr" and x[3][2] == "offset"}
                if any(x[0] == "attr" and x[2] == "count" and x[1] in less for x in subterms(t)):
                    self.say("C36.place", "less", ev, "the weight of a place is the size of the slice less where it begins in its shard: "
                                                      "it may be nothing although the slice has samples")
            return self.put(mon, "weight", place, frozenset({("other", min(ev.value, key=repr))}), ev)
        return mon

    def saved_lists(self):
        return {t for t in self.elems if t[0] != "obj"}

    def emptied(self, ev, st, mon):
        if not self.tested:
            return
        if mon[3] is not True:
            self.say("C36.once", "pending", ev, "a place is emptied although slices may still be pending: the epoch ends without them")
        elif mon[4] is not False and self.replaces and not st.facts & ONCE:
            self.say("C36.once", "replacement", ev, "a place is emptied although slices are drawn with replacement")
        else:
            self.fine("C36.once", "pending", ev)

    def pending_attrs(self):
        return {own_attr(t) for t in self.lists} - {None, "shards"}

    def active_attrs(self):
        return {own_attr(t) for t in self.elems} - {None, "shards"}

    def fresh(self, t, s, ev, st):
        """A reader for new states starts at the first sample of the slice."""
        for k, x in s:
            if k == "saved":
                self.elems |= {y[1] for y in each(x) if y[0] in ("elem", "sub")}
        for o in each(t):
            if o[0] != "obj" or o not in st.heap:
                continue
            for r in {x for _, v in st.heap[o][1] for x in v}:
                f = dict(st.heap[r][1])
                for a in ("offset", "byte_offset"):
                    for v in f.get(a, ()):
                        if v[0] == "const" and v[1] != 0:
                            self.say("C36.start", a, ev, f"a slice is started at {a} {v[1]!r} instead of its first sample")
                        elif v[0] == "const":
                            self.fine("C36.start", a, ev)
                        elif not any(y in self.elems for y in subterms(v)):
                            self.say("C36.start", a, ev, f"a slice is started at another {a} than that of its first sample")

    def pop(self, ev, st, ip, mon, base, name):
        if mon[0]:
            self.say("C36.once", "taken", ev, "a slice taken from those pending gets no reader: its samples are lost")
        a = ev.args[0] if ev.args else None
        end = None
        if name == "popleft":
            end = False
        elif a is None or a == frozenset({("const", -1)}) or a == frozenset({("unop", "USub", ("const", 1))}):
            end = True
        elif a == frozenset({("const", 0)}):
            end = False
        if end is not None:
            self.ends.setdefault(end, ev)
        for t in each(base) if mon[5] is not None else ():
            core, odd = self.core(t, mon[5])
            if not self.is_mine(core) or end is None:
                continue
            if core == t and t not in self.lists - {t}:
                self.say("C36.order", "own", ev, "slices are taken from the list of the worker itself, so that later epochs miss them")
            if odd != end:
                self.say("C36.order", "order", ev, "without shuffling the slices are read in reverse order")
            else:
                self.fine("C36.order", "order", ev)
        return self.with_(mon, empty=None, saved=None, taken=frozenset({("call", ev.func, tuple(min(x, key=repr) for x in ev.args), ())}))

    @staticmethod
    def core(core, odd):
        """The list another one was made of, and whether it is in reverse."""
        while True:
            if core[0] == "call" and core[1][0] == "ext" and core[1][1] in ("list", "tuple", "collections.deque") and len(core[2]) == 1:
                core = core[2][0]
            elif core[0] == "call" and core[1] == ("ext", "reversed") and len(core[2]) == 1:
                core, odd = core[2][0], not odd
            elif core[0] == "slice" and str(core[2]).replace(" ", "") == "::-1":
                core, odd = core[1], not odd
            else:
                return core, odd

    def shuffled(self, t, ev):
        while is_call(t, "list", "tuple") and len(t[2]) == 1:
            t = t[2][0]
        if t[0] == "slice" and own_attr(t[1]) == "shards":
            self.say("C36.once", "shuffle", ev, "only some of the slices of the worker are shuffled into the epoch")
        elif self.is_mine(t):
            self.say("C36.once", "shuffle", ev, "each slice of the worker is shuffled in once instead of once per epoch shuffled over")
        elif t[0] == "binop" and t[1] == "Mult":
            a, b = t[2], t[3]
            if self.is_mine(b):
                a, b = b, a
            if not self.is_mine(a):
                if a[0] == "slice" and own_attr(a[1]) == "shards":
                    self.say("C36.once", "shuffle", ev, "only some of the slices of the worker are shuffled into the epoch")
                return
            if arith.minus(b, ("attr", SELF, "shuffle_over_epochs")):
                self.say("C36.once", "shuffle", ev, "each slice is not repeated as often as there are epochs to shuffle over")
            else:
                self.fine("C36.once", "shuffle", ev)

    def on_load_sub(self, ev, st, ip, mon):
        for i in ev.index or ():
            f = ip.func_of(i[1]) if i[0] == "call" and i[1][0] == "bm" else None
            if f is None or f.name != "randbelow" or not i[2]:
                continue
            for b in (y for x in ev.base for y in each(x)):
                if not self.is_mine(b):
                    continue
                self.replaces = True
                if mon[4] is False:
                    self.say("C36.once", "drawn", ev, "slices are drawn with replacement although each is to be read once")
                d = arith.minus(i[2][0], ("call", ("ext", "len"), (b,), ()))
                if set(d) <= {1} and d:
                    self.say("C36.once", "draw", ev, "a slice is not drawn from all the slices of the worker")
                elif not d:
                    self.fine("C36.once", "draw", ev)
        return mon

    # ---- conditions
    def on_branch(self, ev, st, ip, mon):
        for c in ev.cond or ():
            x, tk = plain(c, ev.taken)
            f = ip.func_of(x[1]) if x[0] == "call" and x[1][0] == "bm" else None
            if f is not None and f.name == "should_log" and tk:
                return []   # what is logged is not looked at
            mon = self.cond(c, ev.taken, ev, st, ip, mon)
            if mon == []:
                return mon
        return mon

    def is_count(self, t):
        while True:
            if is_call(t, "item") or is_call(t, "bool", "int", "float") and not t[2]:
                t = t[1][1]
            elif is_call(t, "int", "float", "bool") and len(t[2]) == 1:
                t = t[2][0]
            else:
                break
        if is_call(t, "count_nonzero", "any", "sum", "max"):
            over = [x for a in t[2] for x in each(a)] + (each(t[1][1]) if t[1][0] == "attr" else [])
            over += [y for x in over if x[0] == "cmp" and x[1] in ("Gt", "NotEq") and x[3][0] == "const" and x[3][1] == 0 for y in each(x[2])]
            return any(x in self.weights for x in over)
        return False

    def cond(self, c, taken, ev, st, ip, mon):
        e = emptiness(c, taken, self.is_count)
        if e is not None:
            self.counted = True
            if e and mon[2] == "full":
                return []   # a place has just got a slice
            return self.with_(self.close(mon, ev), left=not e, rev=False if e else mon[5])
        e = emptiness(c, taken, self.is_pending)
        if e is not None:
            self.tested = True
            if not e and any(own_attr(y) in self.pending_attrs() for x in subterms(c) for y in each(x)):
                mon = self.with_(mon, saved=True)
            if mon[3] is False and e:
                return []   # tested before
            return self.with_(mon, empty=e)
        e = emptiness(c, taken, self.is_mine)
        if e is not None:
            return self.with_(mon, mine=not e)
        x, tk = plain(c, taken)
        if x[0] == "cmp" and x[1] in ("Eq", "NotEq") and ("attr", SELF, "shuffle_over_epochs") in x[2:] and ("const", -1) in x[2:]:
            return self.with_(mon, repl=tk == (x[1] == "Eq"))
        if x == ("cmp", "Is", ("attr", SELF, "shuffle_over_epochs"), ("const", None)) and tk:
            return self.with_(mon, repl=False)
        if x == ("attr", SELF, "loop"):
            mon = self.close(mon, ev)
            if mon[2] is True or mon[2] == "full" and self.counted:
                self.say("C36.end", "left", ev, "an epoch is ended although places still have slices: their samples are lost")
            else:
                self.fine("C36.end", "left", ev)
            return self.with_(mon, rev=None)
        if x[0] == "call" and x[1] in (("ext", "any"), ("ext", "all")) and len(x[2]) == 1:
            s = self.any_saved(x, tk, st)
            if s is not None:
                return self.with_(mon, saved=s)
        return mon

    def is_pending(self, t):
        return any(x in self.lists for x in each(t))

    def any_saved(self, x, taken, st):
        o = x[2][0]
        if o[0] != "obj" or o not in st.heap:
            return None
        items = {t for _, v in st.heap[o][1] for t in v}
        pol = set()
        for t in items:
            t, yes = plain(t, True)
            if t[0] != "cmp" or t[1] not in ("Is", "IsNot") or t[3] != ("const", None) or t[2][0] != "elem" or t[2][1] not in self.elems:
                return None
            pol.add((t[1] == "IsNot") == yes)
        if len(pol) != 1:
            return None
        some = pol.pop()
        if x[1] == ("ext", "any"):
            return taken if some else None
        return None if some else not taken

    def on_loop_back(self, ev, st, ip, mon):
        return self.close(mon, ev)

    on_loop_exit = on_yield = on_loop_back


#: slices are known not to be drawn with replacement
ONCE = frozenset({(("attr", SELF, "shuffle_over_epochs"), "none"),
                  (("cmp", "Eq", ("attr", SELF, "shuffle_over_epochs"), ("const", -1)), "false"),
                  (("cmp", "NotEq", ("attr", SELF, "shuffle_over_epochs"), ("const", -1)), "true")})


def rigid(places):
    return len(places) == 1 and not any(x[0] in ("top", "any", "aug", "binop") for t in places for x in subterms(t) if isinstance(x, tuple))


def differ(a, b):
    """Are these places definitely different ones?"""
    if a == b or not rigid(a) or not rigid(b):
        return False
    return (min(a)[0] == "end") == (min(b)[0] == "end")


def words(s):
    return {"reader": "the reader", "weight": "the weight", "state": "the saved state"}[s]


def kind_of(d, m, ev, alone):
    """A place filled with nothing."""
    if "fill" in d and "state" not in d and "state" not in alone and any("fill" not in {w for w, _, _ in s} and "state" in {w for w, _, _ in s}
                                                                        for s in m.steps):
        m.say("C36.place", "state:fill", ev, "a place without a slice has no saved state: the saved places are fewer than the places")
        return True
    if "garbage" in d and "weight" not in d and m.weights and "weight" not in alone:
        m.say("C36.place", "weight:garbage", ev, "a place without a slice has a weight which never was set")
        return True
    return False


def compare(m, cx, where):
    alone = {next(iter(s))[0] for s in m.steps if len(s) == 1}
    alone |= {w for s in m.steps for w, _, _ in s} if all(not any(w == "reader" for w, _, _ in s) for s in m.steps) else set()
    n = 0
    for step, ev in m.steps.items():
        d = {w: (pl, v) for w, pl, v in step}
        n += 1
        r = d.get("reader")
        if kind_of(d, m, ev, alone):
            continue
        kind = "none" if r and r[1] == {0} else "slice"
        for other in ("weight", "state"):
            if other not in d:
                if r and kind == "slice" and other not in alone:
                    saved = all(isinstance(x, tuple) and x[0] == "saved" for x in r[1])
                    used = any(other == w for s in m.steps for w, _, _ in s)
                    if not used or saved and other == "state":
                        continue
                    m.say("C36.place", f"{other}:missing", ev, f"a place gets the reader of a slice, but {words(other)} is still the one of another")
                elif r and kind == "none" and not any(x[0] == "end" for x in r[0]) and other not in alone:
                    m.say("C36.place", f"{other}:kept", ev, f"a place is emptied, but {words(other)} is still the one of its last slice")
                continue
            if r is None:
                continue
            o = d[other]
            if differ(r[0], o[0]):
                m.say("C36.place", f"{other}:place", ev, f"the reader of a slice and {words(other)} are put at different places")
            elif any(isinstance(x, tuple) and x[0] == "other" for x in r[1] | o[1]):
                if r[1] == {0} and other == "weight":
                    m.say("C36.place", "weight:none", ev, "a place without a slice keeps a weight")
            elif not r[1] & o[1]:
                m.say("C36.place", f"{other}:slice", ev, f"the reader put at a place is of one slice, and {words(other)} is of another")
            else:
                m.fine("C36.place", f"{other}:{kind}", ev)
    return n


#: what is looked at in one run, and what is told apart for it
PARTS = [
    ({"C36.place", "C36.start", "own", "shuffle", "draw"}, {"step", "zero", "saved"}),
    ({"pending", "replacement", "drawn", "read", "left"}, {"left", "empty", "repl", "mine"}),
    ({"order", "taken"}, {"rev", "taken"}),
    ({"C36.saved", "C36.resume", "again"}, {"saved", "keep", "left"}),
]


def known(m):
    return [len(x) for x in (m.iters, m.weights, m.actives, m.lists, m.elems)]


def shards(p, cx):
    c = p.cls("WebdatasetSampleLoaderDataset", must=True)
    reader = next((f for f in (c.find_method(n) for x in c.mro() for n in x.methods) if f.is_generator and f.name != "__iter__" and any(
        isinstance(x, ast.Name) and x.id == "SingleShardReader" for x in ast.walk(f.node))), None)
    it = c.find_method("__iter__")
    if reader is None or it is None:
        raise AnalysisBroken("the reader of slices was not found")
    m = Epoch(p, c, reader)
    todo = [PARTS[0]] * 3 + PARTS[1:]
    for k, (about, track) in enumerate(todo):
        if k == 2 and before == known(m):
            continue
        m.about, m.track = about, track
        before = known(m)
        if k < 3:
            m.bad, m.good, m.steps = {}, {}, {}
        m.ranges, m.sizes, m.ends = [], [], {}
        ip = Interp(p, m)
        ip.MAXSTEPS = 2_000_000
        o = ip.run(it, c)
        m.spent = getattr(m, "spent", 0) + ip.steps
        if "mine" in track:
            for st in o.normal + [x[0] for x in o.ret]:
                if (("attr", SELF, "loop"), "true") in st.facts:
                    m.bad.setdefault(("C36.end", "loop"), (it.loc(it.node), "iterating ends after an epoch although the dataset is to loop"))
                elif st.mon[7] is True and st.mon[2] is None and (("attr", SELF, "loop"), "false") not in st.facts:
                    m.bad.setdefault(("C36.end", "none"), (it.loc(it.node), "iterating ends at once although the worker has slices"))
                else:
                    m.good.setdefault(("C36.end", "loop"), it.loc(it.node))
    m.about = PARTS[0][0]
    cx.fn(it)
    n = compare(m, cx, it)
    if len(m.ends) > 1:
        m.bad.setdefault(("C36.order", "ends"), (m.ends[False].loc(), "the pending slices are taken from both ends"))
    for lo, hi, ev in m.ranges:
        if any(x[0] == "call" and x[1] == ("ext", "len") and x[2] and set(each(x[2][0])) & m.iters for t in lo for x in each(t)):
            for h in (y for t in hi for y in each(t)):
                for size in (y for v, _, _ in m.sizes for t in v for y in each(t)):
                    d = arith.minus(h, size)
                    if d and set(d) == {1}:
                        m.bad.setdefault(("C36.place", "count"), (ev.loc(), "the places filled are not as many as there are weights"))
    return m, n, reader, c


class Columns(Monitor):
    """mon = (phase: None / "read" (the primary column was read) / "end" (it has ended), a column failed?, a column went on after the end?,
    the columns asked?)"""

    def __init__(self):
        self.bad, self.good = {}, {}
        self.readers = set()
        self.asks = set()
        self.last = self.lastcol = None

    say, fine = Epoch.say, Epoch.fine
    about = {"C36.columns"}

    def init(self):
        return (None, False, False, False)

    def inline(self, fi, recv, ip, stack):
        return False if fi.name == "read_next" else NotImplemented

    def raises(self, ev, st, ip):
        return ("StopIteration", "Exception") if self.read_next(ev) else ()

    @staticmethod
    def read_next(ev):
        return ev.kind == "call" and ev.func is not None and (ev.func[0] == "attr" and ev.func[2] == "read_next"
                                                              or ev.callee is not None and ev.callee.name == "read_next")

    def column(self, t):
        """("first",), ("rest", place of the first of them) or None."""
        if t[0] == "elem" and t[1][0] == "slice":
            lo = str(t[1][2]).split(":")
            if len(lo) == 2 and not lo[1].strip() and lo[0].strip().isdigit():
                return ("rest", int(lo[0]))
            if len(lo) == 2 and not lo[0].strip() and not lo[1].strip():
                return ("rest", 0)
        return None

    def event(self, ev, st, ip):
        phase, failed, went, asked = st.mon
        if ev.kind == "load_sub":
            i = ev.index
            self.last = (frozenset(ev.result or ()), i)
            return NotImplemented
        if self.read_next(ev):
            f = ev.func
            base = f[1]
            col = self.column(base)
            if col is None and self.last is not None and base in self.last[0] and self.last[1] == frozenset({("const", 0)}):
                col = ("first",)
            self.lastcol = col
            if col is None:
                return NotImplemented
            self.asks.add(ev.loc())
            if col == ("first",):
                return ("read", False, False, False)
            if phase == "end":
                return (phase, failed, True, True)
            if col[1] != 1:
                self.say("C36.columns", "rest", ev, "the further columns read are not all those after the first one" if col[1] else
                         "the first column is read again as a further one")
                return (phase, failed, went, True)
            key = ev.args[0] if ev.args else ev.kwargs.get("key_name", ev.kwargs.get("key"))
            must = ev.args[1] if len(ev.args) > 1 else ev.kwargs.get("must_match")
            if key is None or key == frozenset({("const", None)}):
                self.say("C36.columns", "key", ev, "a further column is read without the key of the sample of the first one")
            elif any(self.of_primary(k) == 1 for k in key):
                self.say("C36.columns", "key", ev, "a further column is read by something else than the key of the sample of the first one")
            elif must is None or must == frozenset({("const", False)}):
                self.say("C36.columns", "match", ev, "a further column may give the sample of another key")
            else:
                self.fine("C36.columns", "key", ev)
            return (phase, failed, went, True)
        if ev.kind == "catch":
            if phase == "read" and not asked:
                return ("end" if "StopIteration" in str(ev.tag) else None, False, False, False)
            if phase == "end":
                return (phase, failed, False, True)
            return (phase, True, went, asked)
        if ev.kind == "store_sub":
            for v in ev.value:
                self.store(v, ev)
            return NotImplemented
        if ev.kind == "yield":
            if failed:
                self.say("C36.columns", "failed", ev, "a sample is handed out although one of its columns could not be read")
            elif phase == "end":
                self.say("C36.columns", "ended", ev, "a sample is handed out although the first column has ended")
            elif phase is None:
                self.say("C36.columns", "twice", ev, "a sample is handed out again without the first column having been read")
            else:
                self.fine("C36.columns", "yield", ev)
            return (None, False, False, False)
        return NotImplemented

    def of_primary(self, t):
        """Which part of what the first column gave a term is."""
        if t[0] == "sub" and t[1][0] == "call" and t[1][1][0] == "attr" and t[1][1][2] == "read_next" and self.column(t[1][1][1]) is None:
            return t[2][1] if t[2][0] == "const" else None
        return None

    def store(self, v, ev):
        if v[0] != "sub" or v[1][0] != "call" or v[1][1][0] != "attr" or v[1][1][2] != "read_next" or v[2][0] != "const":
            return
        col = self.column(v[1][1][1])
        if v[2][1] != 1:
            self.say("C36.columns", "part", ev, "the key of a sample is put where its data belongs")
            return
        for i in ev.index:
            d = {k: x for k, x in arith.linear(i).items() if x}
            c = d.pop(1, 0)
            if col is None:
                if self.lastcol != ("first",):
                    continue
                if not d and c != 0:
                    self.say("C36.columns", "place", ev, "the first column is put at the place of another")
                elif not d:
                    self.fine("C36.columns", "place", ev)
            elif len(d) == 1 and next(iter(d))[0] == "index" and list(d.values()) == [1]:
                if next(iter(d))[1] == v[1][1][1][1] and c != col[1]:
                    self.say("C36.columns", "place", ev, "a column is put at the place of another")
                else:
                    self.fine("C36.columns", "place", ev)
            elif not d:
                self.say("C36.columns", "place", ev, "all further columns are put at one place")


def columns(p, c, reader):
    m = Columns()
    o = Interp(p, m).run(reader, c)
    for st in o.normal + [x[0] for x in o.ret]:
        if st.mon[0] == "end" and st.mon[2]:
            m.bad.setdefault(("C36.columns", "longer"), (reader.loc(reader.node), "reading ends silently although a further column has samples left"))
    return m


class Draws(Monitor):
    """Draws are over all of what is given, and nothing else."""

    about = {"C36.draw"}
    say, fine = Epoch.say, Epoch.fine

    def __init__(self, f):
        self.f = f
        self.bad, self.good = {}, {}
        self.n = 0
        self.params = {a.arg for a in f.all_params()} - {"self"}

    def off(self, t, of):
        """The constant by which a number differs from the length of a parameter (or a parameter which is a number)."""
        res = set()
        for a in self.params:
            for x in (("call", ("ext", "len"), (("param", a),), ()),) + ((("param", a),) if of else ()):
                d = arith.minus(t, x)
                if set(d) <= {1}:
                    res.add(d.get(1, 0))
        return res

    def bound(self, v, what, ev, of=False):
        for t in (y for x in v for y in each(x)):
            d = self.off(t, of)
            if d and 0 not in d:
                self.say("C36.draw", f"{self.f.name}:{what}", ev, f"{what} is not over all there is")
            elif d:
                self.fine("C36.draw", f"{self.f.name}:{what}", ev)

    def event(self, ev, st, ip):
        fn = ev.func
        if ev.kind == "call" and fn is not None and fn[0] == "ext":
            name = fn[1].rsplit(".", 1)[-1]
            if name == "randint" and ev.args:
                self.n += 1
                two = len(ev.args) > 1 and not any(x[0] == "tuple" for x in ev.args[1])
                if two and any(x[0] == "const" and x[1] != 0 for x in ev.args[0]):
                    self.say("C36.draw", f"{self.f.name}:start", ev, "the first of those to draw from is never drawn")
                self.bound(ev.args[1 if two else 0], "the draw", ev, True)
            elif name == "randperm" and ev.args:
                self.n += 1
                self.bound(ev.args[0], "the permutation", ev)
            elif name == "range" and len(ev.args) == 1:
                self.bound(ev.args[0], "the range", ev)
        if ev.kind == "load_sub":
            for b in ev.base:
                if b[0] != "param" or b[1] not in self.params:
                    continue
                for i in (y for x in ev.index for y in each(x)):
                    d = {k: v for k, v in arith.linear(i).items() if v}
                    c = d.pop(1, 0)
                    if len(d) == 1 and c and any(is_call(x, "randint", "randperm", "multinomial") for x in subterms(next(iter(d)))):
                        self.say("C36.draw", f"{self.f.name}:index", ev, "another one than the one drawn is taken")
        return NotImplemented


def draws(p, cx):
    c = p.cls("WorkerRng", must=True)
    n = 0
    for f in c.methods.values():
        if f.name.startswith("_") or f.is_static:
            continue
        m = Draws(f)
        Interp(p, m).run(f, c)
        if m.n:
            n += 1
            cx.fn(f)
        for (rule, what), (loc, msg) in sorted(m.bad.items()):
            cx.bad(rule, f"{c.name}.{what}", loc, f"{c.name}.{f.name}: {msg}")
        for (rule, what), loc in sorted(m.good.items()):
            if (rule, what) not in m.bad:
                cx.ok(rule, f"{c.name}.{what}", loc)
    cx.floor("methods drawing", n, 3)


def check(p, cx):
    cx.rule("C36.place", "whatever is put at a place of the sample loader belongs together: the reader, the weight it is drawn with and the "
            "state saved for it are of the same slice, and an emptied place has none of them")
    cx.rule("C36.once", "each slice taken from those pending gets a reader; a place is emptied only when none is pending; an epoch is made of "
            "each slice of the worker the wanted number of times")
    cx.rule("C36.start", "a slice is started at its first sample")
    cx.rule("C36.order", "without shuffling the slices are read in the order they have, and the list of them stays as it is")
    cx.rule("C36.end", "an epoch ends when, and only when, no place has a slice left, and another one follows if and only if the dataset loops")
    cx.rule("C36.resume", "a new epoch is started only when neither a pending slice nor a place was saved")
    cx.rule("C36.saved", "what places and pending slices are taken from are the saved lists themselves, so that every change is saved")
    cx.rule("C36.columns", "each further column is read with the key of the first one's sample, is put at its own place, and a sample is "
            "handed out only if all its columns were read; a column that has more samples than the first is reported")
    cx.rule("C36.draw", "random draws are over all of what is given and in range, and a shuffle returns each entry once")
    draws(p, cx)
    m, n, reader, c = shards(p, cx)
    m2 = columns(p, c, reader)
    cx.fn(reader)
    m.bad.update(m2.bad)
    m.good.update(m2.good)
    cx.floor("reads of columns", len(m2.asks), 2)
    for (rule, what), (loc, msg) in sorted(m.bad.items()):
        cx.bad(rule, f"{c.name}:{what}", loc, f"{c.name}: {msg}")
    for (rule, what), loc in sorted(m.good.items()):
        if (rule, what) not in m.bad:
            cx.ok(rule, f"{c.name}:{what}", loc)
    cx.floor("things put at places", n, 4)
