"""C25: buffered samples and their restore keys never get out of step."""
import ast

from ..flow import Interp, Monitor, subterms
from ..model import AnalysisBroken
from . import keys
from .state import self_attr_names

SELF = ("self",)
KEY = "get_sample_restore_key"
MUTATORS = {"append", "extend", "insert", "pop", "popleft", "appendleft", "remove", "clear", "sort", "reverse", "rotate",
            "__setitem__", "__delitem__", "__iadd__", "update", "add", "discard", "setdefault"}
#: external functions changing the list given to them
CHANGES = {"random.shuffle", "heapq.heappush", "heapq.heappop", "heapq.heapify", "bisect.insort", "bisect.insort_left", "bisect.insort_right"}
EMPTY = frozenset({("clear",)})


def self_attr(t):
    return t[2] if t[0] == "attr" and t[1] == SELF else None


class Pair:
    """The two lists of the buffer class"""

    def __init__(self, p):
        self.c = c = p.cls("SavableSampleBuffer")
        self.keys = self.find(p, c, "save_state", rec=True)
        self.items = self.find(p, c, "__getitem__")
        if not self.keys or not self.items or self.keys == self.items:
            raise AnalysisBroken("the lists of SavableSampleBuffer were not found")

    @staticmethod
    def find(p, c, name, rec=False):
        f = c.find_method(name)
        if f is None:
            raise AnalysisBroken(f"SavableSampleBuffer.{name} not found")
        o = Interp(p, Monitor()).run(f, c)
        for st, v, _ in o.ret:
            for t in v:
                todo = [t]
                if t in st.heap:
                    todo += [x for _, vs in st.heap[t][1] for x in vs]
                for x in list(todo):
                    if x in st.heap and x is not t:
                        todo += [y for _, vs in st.heap[x][1] for y in vs]
                for x in todo:
                    for y in subterms(x):
                        if y[0] == "sub" and self_attr(y[1]):
                            return self_attr(y[1])
        return None

    def side(self, t):
        a = self_attr(t)
        return "K" if a == self.keys else "B" if a == self.items else None

    def slot(self, t):
        """(side, slot) of a worker's list"""
        if t[0] == "sub" and self.side(t[1]):
            return self.side(t[1]), t[2]
        if t[0] in ("elem",) and self.side(t[1]):
            return self.side(t[1]), "each"
        return None


class Ops(Monitor):
    """mon = (unmatched changes, restore pending?, refilled?, changed lists)"""

    def __init__(self, pair, pending=None):
        self.pair = pair
        self.pending = pending
        self.bad = []
        self.given = []
        self.n = 0

    def init(self):
        return ((), None, "no", frozenset())

    def key_of(self, vs, ip):
        """Samples whose keys these are, or None"""
        out = set()
        for t in vs:
            f = ip.func_of(t[1]) if t[0] == "call" and t[1][0] in ("func", "bm") else None
            if f is None or f.name != KEY or len(t[2]) != 1:
                return None
            out.add(t[2][0])
        return frozenset(out)

    def mapped(self, vs, st, ip):
        """Lists of samples of whose elements these are the keys"""
        out = set()
        for t in vs:
            t = keys.strip(t)
            while t[0] == "call" and t[1] in (("ext", "list"), ("ext", "tuple"), ("ext", "iter")) and len(t[2]) == 1:
                t = t[2][0]
            if t[0] == "call" and t[1] == ("ext", "map") and len(t[2]) == 2:
                f = ip.func_of(t[2][0])
                if f is None or f.name != KEY:
                    return None
                out.add(t[2][1])
            elif t in st.heap and isinstance(st.heap[t][0], tuple) and st.heap[t][0][0] == "map" and len(st.heap[t][0]) == 2:
                src = st.heap[t][0][1]
                el = {x for _, v in st.heap[t][1] for x in v}
                got = self.key_of(el, ip)
                if got is None or not all(x[0] in ("elem", "index", "val") and x[1] == src or src in st.heap for x in got):
                    return None
                out.add(src)
            elif t in st.heap and st.heap[t][0] == "built" or t in st.heap and st.heap[t][0] == "any":
                got = self.key_of({x for _, v in st.heap[t][1] for x in v}, ip)
                if got is None or not all(x[0] == "elem" for x in got):
                    return None
                out |= {x[1] for x in got}
            else:
                return None
        return frozenset(out)

    def signature(self, side, name, args, st, ip, slot):
        if name == "append" and len(args) == 1:
            if side == "K":
                k = self.key_of(args[0], ip)
                return ("append", slot, k) if k is not None else ("append keys", slot, args[0])
            return ("append", slot, args[0])
        if name == "insert" and len(args) == 2:
            if side == "K":
                k = self.key_of(args[1], ip)
                return ("insert", slot, args[0], k) if k is not None else ("insert keys", slot, args[0], args[1])
            return ("insert", slot, args[0], args[1])
        if name in ("extend", "__iadd__") and len(args) == 1:
            if side == "K":
                k = self.mapped(args[0], st, ip)
                if k is not None:
                    return ("extend", slot, k)
                return ("extend keys", slot, frozenset(("mapped", self.mapped({t}, st, ip)) if self.mapped({t}, st, ip) else t for t in args[0]))
            return ("extend", slot, frozenset(keys.strip(t) for t in args[0]))
        if name == "set" and len(args) == 2:
            if side == "K":
                k = self.mapped(args[1], st, ip)
                k = self.key_of(args[1], ip) if k is None else k
                return ("set", slot, args[0], k) if k is not None else ("set keys", slot, args[0], args[1])
            return ("set", slot, args[0], args[1])
        if name == "pop" and not args:
            return ("pop", slot, frozenset({("const", -1)}))
        if name == "del":
            # removing a single place, like pop
            return ("pop", slot, args[0])
        if name in ("remove", "sort"):
            return (name + side, slot) + tuple(args)    # depends on the content of the one list
        return (name, slot) + tuple(args)

    def same(self, a, b, ip):
        """Do the change of the samples (a) and that of the keys (b) belong together?"""
        if a == b:
            return True
        if a[0] == "extend" and b[0] == "extend keys" and a[1] == b[1] and all(t[0] == "param" or t == ("mapped", a[2]) for t in b[2]) \
                and all(t[0] == "param" for t in a[2]):
            self.given.append((a[2], frozenset(t for t in b[2] if t[0] == "param")))
            return True
        if a[0] == b[0] == "set" and a[1:3] == b[1:3] and a[3] == b[3]:
            return True
        return False

    def change(self, ev, side, slot, name, args, st, ip):
        q, pend, fill, mut = st.mon
        self.n += 1
        if name == "extend" and args and all(t in st.heap and not st.heap[t][1] for t in args[0]):
            return st.mon
        mut = (mut | {(side, slot)}) - {("empty " + side, slot)}
        if name == "clear":
            mut = mut | {("empty " + side, slot)}
        if name == "clear" and q and q[-1] == (side, ("clear", slot)):
            return (q, pend, fill, mut)
        sig = self.signature(side, name, args, st, ip, slot)
        if q and q[0][0] != side:
            a, b = (q[0][1], sig) if side == "K" else (sig, q[0][1])
            if self.same(a, b, ip):
                return (q[1:], pend, fill, mut)
            self.bad.append((ev, f"the change '{a[0]}' of the samples is paired with the change '{b[0]}' of the keys"
                             if a[0] != b[0] else f"'{a[0]}' is applied differently to samples and keys"))
            return (q[1:], pend, fill, mut)
        if len(q) > 3:
            return (q, pend, fill, mut)
        return (q + ((side, sig),), pend, fill, mut)

    def restores(self, vs, st, ip, d=0):
        """Samples restored from the elements of the worker's keys: 'one', 'all' or None"""
        out = set()
        for t in vs:
            t = keys.strip(t)
            m = keys.meth(t, ip)
            if m and m[1] == "restore_sample" and t[2]:
                a = t[2][0]
                src = a[1] if a[0] in ("elem", "index", "val", "sub") else None
                while src is not None and src[0] == "call" and src[1] in (("ext", "list"), ("ext", "tuple")) and src[2]:
                    src = src[2][0]
                s = self.pair.slot(src) if src is not None else None
                if s and s[0] == "K":
                    out.add("one")
                    continue
            if m and m[1] == "restore_samples" and t[2] and (self.pair.slot(t[2][0]) or "?")[0] == "K":
                out.add("all")
                continue
            if t[0] == "sub" and t[1][0] == "call" and self.restores({t[1]}, st, ip, d + 1) == "all":
                out.add("all")
                continue
            if t in st.heap and d < 4:
                sh = st.heap[t][0]
                el = {x for _, v in st.heap[t][1] for x in v}
                if sh in ("built", "any") and el and self.restores(el, st, ip, d + 1) == "one":
                    out.add("all")
                    continue
                if isinstance(sh, tuple) and sh[0] == "map" and len(sh) == 2 and (self.pair.slot(sh[1]) or "?")[0] == "K" \
                        and self.restores(el, st, ip, d + 1) == "one":
                    out.add("all")
                    continue
            return None
        return out.pop() if len(out) == 1 else None

    def event(self, ev, st, ip):
        pr = self.pair
        q, pend, fill, mut = st.mon
        if ev.kind == "call" and ev.func is not None and ev.func[0] == "attr" and ev.func[2] in MUTATORS:
            s = pr.slot(ev.func[1])
            if s is None and ev.func[1][0] == "any":
                hit = [pr.slot(x) for x in ev.func[1][1] if pr.slot(x)]
                if hit:
                    self.bad.append((ev, "changes one of several lists"))
            if s:
                args = list(ev.args or ())
                if s[0] == "B" and pend and ev.func[2] in ("append", "extend") and args:
                    r = self.restores(args[0], st, ip)
                    if r == "one" and ev.func[2] == "append":
                        return (q, pend, "one" if fill in ("no", "round") else "extra", mut | {s})
                    if r == "all" and ev.func[2] == "extend":
                        return (q, pend, "all" if s not in mut else "extra", mut | {s})
                return self.change(ev, s[0], s[1], ev.func[2], args, st, ip)
            return NotImplemented
        if ev.kind == "call" and ev.func is not None and ev.func[0] == "ext" and ev.func[1] in CHANGES:
            for v in (ev.args or ())[:1]:
                for t in v:
                    s = pr.slot(t)
                    if s:
                        return self.change(ev, s[0], s[1], ev.func[1] + " " + s[0], [], st, ip)
        if ev.kind == "call" and ev.func in COPIES and ev.args or ev.kind == "load_slice":
            for t in ev.base if ev.kind == "load_slice" else ev.args[0]:
                s = pr.slot(t)
                if s and ("empty " + s[0], s[1]) in mut:
                    self.bad.append((ev, "copies the list only after it was emptied"))
        if ev.kind in ("store_sub", "del_sub"):
            for b in ev.base or ():
                s = pr.slot(b)
                if s:
                    if ev.kind == "del_sub":
                        return self.change(ev, s[0], s[1], "del", [ev.index], st, ip)
                    return self.change(ev, s[0], s[1], "set", [ev.index, ev.value], st, ip)
                side = pr.side(b)
                if side and ev.kind == "store_sub":
                    return self.rebind(ev, side, next(iter(ev.index)) if len(ev.index) == 1 else ("any", tuple(ev.index)), st, ip)
        if ev.kind == "store_attr" and SELF in (ev.base or ()):
            if ev.attr in (pr.keys, pr.items):
                return self.rebind(ev, "K" if ev.attr == pr.keys else "B", "all", st, ip)
            if ev.attr == self.pending:
                v = ev.value
                new = True if v == frozenset({("const", True)}) else False if v == frozenset({("const", False)}) else None
                return (q, ("set", new), fill, mut)
        if ev.kind == "branch" and self.pending and ev.cond is not None and len(ev.cond) == 1 and pend is None:
            t = next(iter(ev.cond))
            if self_attr(t) == self.pending:
                return (q, ev.taken, fill, mut)
        if ev.kind == "next" and fill in ("one", "missed one"):
            return st.mon
        if ev.kind == "loop_back" and pend and self.over_keys(ev):
            return (q, pend, {"one": "round", "round": "missed", "no": "missed"}.get(fill, fill), mut)
        if ev.kind == "loop_enter":
            return NotImplemented
        if ev.kind == "exhausted" and pend and self.over_keys(ev) and isinstance(ev.node, (ast.For, ast.AsyncFor)):
            return (q, pend, {"no": "all", "round": "all", "one": "missed"}.get(fill, fill), mut)
        if ev.kind in ("yield", "return") and False:
            return NotImplemented
        if ev.kind == "yield" and q:
            self.bad.append((ev, "hands out a sample while samples and keys are out of step"))
        return NotImplemented

    def over_keys(self, ev):
        vs = ev.value or ()
        for t in vs:
            while t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("list", "tuple", "iter", "enumerate", "len") and t[2] or \
                    t[0] == "call" and t[1] == ("ext", "range") and len(t[2]) == 1:
                t = t[2][0]
            if (self.pair.slot(t) or "?")[0] == "K":
                return True
        return False

    def rebind(self, ev, side, slot, st, ip):
        q, pend, fill, mut = st.mon
        vs = ev.value
        self.n += 1
        kind = "rebind"
        if side == "B" and pend and self.restores(vs, st, ip) == "all":
            return (q, pend, "all" if fill == "no" else "extra", mut)
        mut = mut - {("empty " + side, slot)}
        if self.empty(vs, st, slot == "all"):
            kind = "clear"
            mut = mut | {("empty " + side, slot)}
        elif side == "K" and slot == "all":
            kind = "load"
        sig = (kind, slot)
        if q and q[0][0] != side:
            other = q[0][1]
            if other == sig or {other[0], kind} == {"clear", "load"} and other[1] == sig[1]:
                return (q[1:], pend if "load" not in (other[0], kind) else pend, "loaded" if "load" in (other[0], kind) else fill, mut)
            self.bad.append((ev, f"'{kind}' of the {'keys' if side == 'K' else 'samples'} is paired with '{other[0]}' of the other list"))
            return (q[1:], pend, fill, mut)
        return (q + ((side, sig),), pend, fill, mut)

    def empty(self, vs, st, all_slots):
        """Only empty lists"""
        for t in vs:
            if t not in st.heap:
                return False
            shape, items = st.heap[t]
            els = {x for _, v in items for x in v}
            if not els:
                continue
            if not all_slots or not all(x in st.heap and not st.heap[x][1] for x in els):
                return False
        return True


def check(p, cx):
    cx.rule("paired", "every change of the buffered samples is matched by the same change of the keys, at the same place")
    cx.rule("restored", "restoring empties the samples, takes over the keys and turns each key into its sample, in order, before the buffer is used")
    cx.rule("copied", "what is handed out of the buffer is not emptied with it")
    cx.rule("given", "keys handed to the buffer together with samples belong to those samples")
    cx.rule("started", "a dataset restores its buffers before it uses them")
    cx.rule("private", "nobody else changes the lists of the buffer")
    pr = Pair(p)
    c = pr.c
    pending = pending_attr(p, c, pr)
    called = {x.attr for f in p.all_functions() if f.cls is None or not f.cls.issubclass(c) for x in ast.walk(f.node)
              if isinstance(x, ast.Attribute)}
    n = 0
    for k in [c] + [x for x in p.subclasses(c) if x is not c]:
        for name, f in sorted(k.methods.items()):
            if name.startswith("_") and not name.startswith("__") and name not in called:
                continue      # a helper: seen where it is used
            mon = Ops(pr, pending)
            ip = Interp(p, mon, no_inline={KEY})
            o = ip.run(f, k)
            if not mon.n:
                continue
            cx.fn(f)
            n += 1
            ends = [(s, v, nd) for s, v, nd in o.ret] + [(s, frozenset(), f.node) for s in o.normal or ()]
            for ev, why in mon.bad:
                cx.bad("paired", f"{k.name}.{name}", ev.where(), why)
            left = [(s, nd) for s, v, nd in ends if s.mon[0]]
            what = left[0][0].mon[0][0] if left else None
            cx.check(not left, "paired", f"{k.name}.{name}", f.loc(left[0][1]) if left else f.loc(),
                     f"'{what[1][0]}' of the {'samples' if what[0] == 'B' else 'keys'} without the same for the "
                     f"{'keys' if what[0] == 'B' else 'samples'}" if what else "")
            restored(cx, pr, k, f, name, ends)
            copied(cx, pr, k, f, name, ends)
            if mon.given:
                given(p, cx, k, f, mon.given)
    cx.floor("operations changing the buffer", n, 9)
    started(p, cx, pr)
    private(p, cx, pr)
    lengths(p, cx, pr)


def pending_attr(p, c, pr):
    f = c.find_method("restore_state")
    if f is None:
        raise AnalysisBroken("SavableSampleBuffer.restore_state not found")
    out = {x.targets[0].attr for m in c.methods.values() for x in ast.walk(m.node)
           if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute)
           and isinstance(x.value, ast.Constant) and isinstance(x.value.value, bool)}
    # tested where the buffer is started
    g = c.find_method("worker_start")
    if g is None:
        raise AnalysisBroken("SavableSampleBuffer.worker_start not found")
    seen = set()

    class Tests(Monitor):
        def event(self, ev, st, ip):
            if ev.kind == "branch":
                seen.update(self_attr(t) for t in ev.cond or () if self_attr(t))
            return NotImplemented
    Interp(p, Tests()).run(g, c)
    hit = sorted(seen & {x.attr for m in c.methods.values() for x in ast.walk(m.node) if isinstance(x, ast.Attribute)
                         and isinstance(x.ctx, ast.Store)} if not out & seen else out & seen)
    if len(hit) != 1:
        raise AnalysisBroken("the mark of a pending restore was not found")
    return hit[0]


def restored(cx, pr, k, f, name, ends):
    if name == "worker_start":
        todo = [(s, nd) for s, v, nd in ends if s.mon[1] not in (None, False, ("set", True), ("set", None))]
        cx.check(any(s.mon[1] for s, _, _ in ends), "restored", f"{k.name}.{name} restores", f.loc(), "pending keys are not turned into samples")
        for s, v, nd in ends:
            if s.mon[1] in (None, False):
                continue
            fill = s.mon[2]
            cx.check(fill in ("all",), "restored", f"{k.name}.{name} refill", f.loc(),
                     "not every pending key is turned into a sample, in order")
            cx.check(s.mon[1] == ("set", False), "restored", f"{k.name}.{name} done", f.loc(), "the restore stays pending")
        return
    loads = [(s, nd) for s, v, nd in ends if s.mon[2] == "loaded"]
    if name == "restore_state":
        cx.check(bool(loads), "restored", f"{k.name}.{name} keys", f.loc(), "the keys of the state are not taken over")
    for s, nd in loads:
        cx.check(s.mon[1] == ("set", True), "restored", f"{k.name}.{name} pending", f.loc(nd),
                 "the keys are taken over without noting that the samples have to be restored")


def copied(cx, pr, k, f, name, ends):
    for s, v, nd in ends:
        for t in v:
            for x in naked(t, s):
                sl = pr.slot(x)
                if sl:
                    cx.check(sl not in s.mon[3], "copied", f"{k.name}.{name} {'samples' if sl[0] == 'B' else 'keys'}", f.loc(nd),
                             "hands out the list itself and then changes it")


def naked(t, st, d=0):
    """The value itself and the members of the structures it consists of (not what was copied)"""
    if d > 4:
        return
    yield t
    if t[0] in ("tuple", "any"):
        for x in t[1]:
            yield from naked(x, st, d + 1)
    elif t in st.heap:
        for _, vs in st.heap[t][1]:
            for x in vs:
                yield from naked(x, st, d + 1)


class Extends(Monitor):
    def __init__(self, f):
        self.f = f
        self.calls = []

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.callee is not None and ev.callee.name == self.f.name and \
                (ev.callee is self.f or ev.callee.cls is self.f.cls):
            self.calls.append((ev, st))
        return NotImplemented


def given(p, cx, k, f, pairs):
    ps = [a.arg for a in f.all_params()][1:]
    for samples, ks in set(pairs):
        sp = {t[1] for t in samples}
        kp = {t[1] for t in ks}
        for g in p.all_functions():
            if g.cls is not None and g.cls.issubclass(k) or not any(
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == f.name for x in ast.walk(g.node)):
                continue
            m = Extends(f)
            Interp(p, m, no_inline={KEY}).run(g, g.cls)
            for ev, st in m.calls:
                b = dict(zip(ps, ev.args or ()))
                b.update(ev.kwargs or {})
                kv = frozenset().union(*[b.get(x, frozenset()) for x in kp])
                sv = frozenset().union(*[b.get(x, frozenset()) for x in sp])
                if not kv or kv == frozenset({("const", None)}):
                    cx.ok("given", f"{g.qualname} {f.name}", ev.where())
                    continue
                src = {x[1] for t in kv for x in [keys.strip(t)] if x[0] == "sub"}
                src2 = {x[1] for t in sv for x in [keys.strip(t)] if x[0] == "sub"}
                cx.check(bool(src) and src == src2, "given", f"{g.qualname} {f.name}", ev.where(),
                         "the keys given do not come with the samples given")


# ---------------------------------------------------------------------------------------------------------------
class Started(Monitor):
    """mon = attributes of self whose buffers are started"""

    def __init__(self, p, pr, c):
        self.p, self.pr = p, pr
        self.bad = []
        self.n = 0
        #: attributes holding neither a single buffer nor a dataset: they may hold several buffers
        self.many = {a for a in self_attr_names(p, c) if not single(p, c, a)}

    def init(self):
        return frozenset()

    def buffer(self, ev, ip):
        """Attribute of self under which the buffer the method is called on is kept, if it is one"""
        r = ev.recv
        if r is None:
            return None
        c = None
        t = ip.type_of(r)
        if t and t[0] == "cls":
            c = t[1]
        if c is None or not c.issubclass(self.pr.c):
            return None
        return self.root(r)

    def root(self, t):
        """Attribute of self the value is reached from"""
        while self_attr(t) is None:
            if t[0] in ("attr", "sub", "elem", "val", "index"):
                t = t[1]
            elif t[0] == "call" and t[1][0] == "attr":
                t = t[1][1]
            elif t[0] == "any":
                got = {self.root(x) for x in t[1]} - {None}
                return got.pop() if got else None
            else:
                return None
        return self_attr(t)

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.tag != "inlined":
            a = self.buffer(ev, ip)
            if a is not None:
                if ev.name == "worker_start":
                    self.n += 1
                    direct = self_attr(ev.recv) == a
                    return st.mon | {("one" if direct else "got", a)}
                if ev.name in ("restore_sample", "restore_samples", "restore_state", "save_state", "merge_states", "config"):
                    return NotImplemented
                if ("one", a) not in st.mon and ("all", a) not in st.mon:
                    self.bad.append((ev, a))
            elif ev.name == "worker_start" and self.many:
                return st.mon | {("got", "*")}
            return NotImplemented
        if ev.kind == "next":
            return frozenset(x for x in st.mon if x[0] != "got")
        if ev.kind in ("loop_back", "exhausted"):
            m = st.mon
            for t in ev.value or ():
                for x in subterms(t):
                    a = self_attr(x)
                    if a is None or a not in self.many:
                        continue
                    if ev.kind == "loop_back" and ("got", a) not in m and ("got", "*") not in m:
                        m = m | {("missed", a)}
                    if ev.kind == "exhausted" and ("missed", a) not in m:
                        m = m | {("all", a)}
            return m
        return NotImplemented


def single(p, c, a):
    t = p.attr_type(c, a)
    return t is None or t[0] not in ("list", "dict", "tuple")


def started(p, cx, pr):
    base = p.cls("SavableDataset")
    n = 0
    for c in p.subclasses(base):
        if c.issubclass(pr.c):
            continue
        it = c.find_method("__iter__")
        if it is None or it.is_abstract or not uses(p, c, pr):
            continue
        m = Started(p, pr, c)
        Interp(p, m).run(it, c)
        n += 1
        cx.fn(it)
        for ev, a in m.bad:
            cx.bad("started", f"{c.name}.{a}", ev.where(), "the buffer is used before the samples of its saved keys were restored")
        cx.check(m.n > 0, "started", c.name, it.loc(), "the buffers are never started")
    cx.floor("datasets with a sample buffer", n, 3)


def uses(p, c, pr):
    return any(isinstance(x, ast.Name) and x.id == pr.c.name for k in c.mro() for m in k.methods.values() for x in ast.walk(m.node))


def private(p, cx, pr):
    n = 0
    for f in p.all_functions():
        if f.cls is not None and f.cls.issubclass(pr.c) or f.outer is not None:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and (x.attr == pr.keys or x.attr == pr.items and
                                                 not (isinstance(x.value, ast.Name) and x.value.id == "self")):
                cx.bad("private", f"{f.qualname} {x.attr}", f.loc(x), "reaches into the lists of a sample buffer")
        n += 1
    cx.ok("private", f"{pr.c.name} lists")


# ---------------------------------------------------------------------------------------------------------------
def lengths(p, cx, pr):
    """Datasets keeping the lengths of the groups in a buffer next to it (PackingDataset)."""
    cx.rule("grouped", "the lengths of groups of buffered samples change together with the buffer")
    base = p.cls("SavableDataset")
    n = 0
    for c in p.subclasses(base):
        it = c.methods.get("__iter__")
        if it is None or not uses(p, c, pr):
            continue
        m = Lengths(p, pr)
        Interp(p, m).run(it, c)
        if not m.hits:
            continue
        n += 1
        cx.fn(it)
        for ev, why in m.bad:
            cx.bad("grouped", f"{c.name}.{why[0]}", ev.where(), why[1])
        for h in m.hits:
            cx.ok("grouped", f"{c.name} {h}", it.loc())
    cx.floor("datasets with groups in a buffer", n, 1)


COPIES = {("ext", x) for x in ("list", "tuple", "sorted", "reversed", "copy.copy", "copy.deepcopy")}
FIRST = frozenset({("const", 0)})


class Lengths(Monitor):
    """mon = unmatched changes of a grouped buffer / its list of lengths"""

    def __init__(self, p, pr):
        self.p, self.pr = p, pr
        self.bad = []
        self.hits = set()

    def init(self):
        return ()

    def is_buffer(self, t, ip):
        ty = ip.type_of(t)
        return bool(ty and ty[0] == "cls" and ty[1].issubclass(self.pr.c))

    def first_group(self, ev):
        """Is the slice exactly the first group: up to its length?"""
        lo, up, step = ev.args
        return lo <= {("const", None), ("const", 0)} and step <= {("const", None), ("const", 1)} and bool(up) and all(
            t[0] == "sub" and self.length_list(t[1]) and t[2] == ("const", 0) or
            t[0] == "call" and t[1][0] == "attr" and self.length_list(t[1][1]) and
            (t[1][2] == "popleft" or t[1][2] == "pop" and t[2] == (("const", 0),)) for t in up)

    @staticmethod
    def length_list(t):
        return t[0] == "sub" and self_attr(t[1]) is not None and "length" in self_attr(t[1])

    def event(self, ev, st, ip):
        sig = None
        if ev.kind == "call" and ev.tag != "inlined" and ev.name == "extend" and ev.recv is not None and self.is_buffer(ev.recv, ip):
            sig = ("B", ("add", frozenset(ev.args[0])))
        elif ev.kind == "call" and ev.func and ev.func[0] == "attr" and self.length_list(ev.func[1]) and ev.func[2] in MUTATORS:
            if ev.func[2] == "clear":
                return st.mon
            if ev.func[2] == "append" and ev.args and all(t[0] == "call" and t[1] == ("ext", "len") for t in ev.args[0]):
                sig = ("L", ("add", frozenset(t[2][0] for t in ev.args[0])))
            elif ev.func[2] == "popleft" or ev.func[2] == "pop" and ev.args and ev.args[0] == FIRST:
                sig = ("L", ("drop",))
            else:
                sig = ("L", (ev.func[2],))
        elif ev.kind == "del_sub":
            for b in ev.base or ():
                if self.is_buffer(b, ip):
                    sig = ("B", ("drop",) if self.first_group(ev) else ("drop other",))
                elif self.length_list(b):
                    sig = ("L", ("drop",) if ev.index == FIRST else ("drop other",))
        elif ev.kind == "load_slice" and ev.base and all(self_attr(b) and self.is_buffer(b, ip) for b in ev.base) and not self.first_group(ev):
            self.bad.append((ev, ("group", "the samples read from the buffer are not those of the first group")))
        elif ev.kind == "load_sub" and ev.base and all(self.length_list(b) for b in ev.base) and ("L", ("drop",)) in st.mon:
            self.bad.append((ev, ("group", "reads the length of the next group for samples of the group before")))
        if sig is None:
            if ev.kind in ("yield", "loop_back") and st.mon:
                self.bad.append((ev, ("lengths", "samples were put into / taken from the buffer without noting it in the list of lengths"
                                      if st.mon[0][0] == "B" else "the list of lengths changes without the buffer")))
                return ()
            return NotImplemented
        if sig[0] == "L":
            self.hits.add(sig[1][0])
        q = st.mon
        if q and q[0][0] != sig[0]:
            if q[0][1] != sig[1]:
                self.bad.append((ev, ("lengths", "the list of lengths changes differently from the buffer")))
            return q[1:]
        return q + (sig,) if len(q) < 4 else q
