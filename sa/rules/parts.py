"""C27: the reader of a part of a file hands out the bytes of its part, in order, and none of the rest."""
from ..flow import Interp, Monitor, V, subterms
from ..model import AnalysisBroken
from .streams import clean, lin

SELF = ("self",)
CLASS = "SubFileReader"
LESS = {"Lt", "LtE"}
FLIP = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE", "Eq": "Eq", "NotEq": "NotEq"}
NOT = {"Lt": "GtE", "GtE": "Lt", "Gt": "LtE", "LtE": "Gt", "Eq": "NotEq", "NotEq": "Eq"}


def alts(t):
    return [y for x in t[1] for y in alts(x)] if t[0] == "any" else [t]


class Part(Monitor):
    """mon: (position now, bounds known, bytes fetched, how far the bytes were counted, where the stream is)"""

    def __init__(self, pos, stream, size, start, keep_pos=True):
        self.pos, self.stream, self.size, self.start = pos, stream, size, start
        self.rem = {size: 1, pos: -1}
        self.bad = {}

    def init(self):
        return (self.pos, frozenset(), None, 0, None)

    def sub(self, t, cur):
        if t == self.pos:
            return cur
        if isinstance(t, tuple):
            return tuple(self.sub(x, cur) for x in t)
        return t

    def facts(self, ev, st):
        """(linear form, relation to 0) known by the branch"""
        out = set()
        for t in ev.cond:
            taken = ev.taken
            while t[0] == "not":
                t, taken = t[1], not taken
            if t[0] == "cmp" and t[1] in FLIP:
                d = lin(self.sub(t[2], st.mon[0]))
                lin(self.sub(t[3], st.mon[0]), -1, d)
                op = t[1] if taken else NOT[t[1]]
                d = clean(d)
                out.add((tuple(sorted(d.items(), key=repr)), op))
                out.add((tuple(sorted(((k, -v) for k, v in d.items()), key=repr)), FLIP[op]))
            elif not taken:
                out.add((tuple(sorted(clean(lin(self.sub(t, st.mon[0]))).items(), key=repr)), "Eq"))
        return out

    def event(self, ev, st, ip):
        cur, known, got, counted, at = st.mon
        if ev.kind == "branch":
            f = self.facts(ev, st)
            return (cur, known | f, got, counted, at) if f - known else NotImplemented
        if ev.kind == "call" and ev.func[0] == "attr" and ev.func[1] == self.stream and ev.tag != "inlined":
            if ev.func[2] == "read":
                ev2 = ("call", ev.func, (), ())
                if got is not None:
                    self.bad.setdefault("the bytes of an earlier fetch are dropped", ev)
                args = ev.args[0] if ev.args else ()
                if not args or not all(self.upper(self.sub(x, cur), known) for t in args for x in alts(t)):
                    self.bad.setdefault("more than the rest of the part may be fetched", ev)
                return (cur, known, ev2, 0, at)
            if ev.func[2] == "seek":
                args = {self.sub(x, cur) for t in (ev.args[0] if ev.args else ()) for x in alts(t)}
                return (cur, known, got, counted, next(iter(args)) if len(args) == 1 and len(ev.args) == 1 else ("?",))
        if ev.kind == "store_attr" and SELF in ev.base and ("attr", SELF, ev.attr) == self.pos:
            if ev.op is not None and ev.index:
                vals = {("binop", ev.op, cur, self.sub(x, cur)) for x in ev.index}
            else:
                vals = {self.sub(x, cur) for t in ev.value for x in alts(t)}
            v = next(iter(vals)) if len(vals) == 1 else ("any", tuple(sorted(vals, key=repr)))
            if got is not None:
                d = lin(v)
                lin(cur, -1, d)
                d = clean(d)
                ok = len(d) == 1 and all(self.is_len(k) and c == 1 for k, c in d.items())
                return (v, known, got, counted + 1 if ok else 9, at)
            return (v, known, got, counted, at)
        return NotImplemented

    def is_len(self, t):
        return t[0] == "call" and t[1] == ("ext", "len") and len(t[2]) == 1 and self.is_bytes(t[2][0])

    def is_bytes(self, t):
        return t[0] == "call" and t[1] == ("attr", self.stream, "read")

    def upper(self, t, known):
        """At most the rest of the part"""
        if clean(lin(t)) == self.rem or t == ("const", 0):
            return True
        if t[0] == "call" and t[1] == ("ext", "min"):
            return any(self.upper(x, known) for x in t[2])
        if t[0] == "call" and t[1] == ("ext", "max"):
            return all(self.upper(x, known) for x in t[2])
        d = lin(t)
        for k, c in self.rem.items():
            d[k] = d.get(k, 0) - c
        d = tuple(sorted(clean(d).items(), key=repr))
        return any(x == d and op in LESS | {"Eq"} for x, op in known)

    def nothing(self, known):
        """Known that nothing is wanted or left"""
        for x, op in known:
            c = dict(x).get("1", 0)
            rest = [(k, n) for k, n in x if k != "1"]
            raw = len(rest) == 1 and rest[0][0][0] == "param"
            if not rest or any(k == self.start for k, _ in rest):
                continue
            raw = raw and not any(o == "GtE" and dict(y).get("1", 0) <= 0 and [z for z in y if z[0] != "1"] == rest for y, o in known)
            if op == "Eq" and c == 0 or not raw and (op == "LtE" and c >= 0 or op == "Lt" and c >= -1) and \
                    (dict(rest) == self.rem or len(rest) == 1 and rest[0][1] == 1):
                return True
        return False


def setup(p):
    c = p.cls(CLASS, must=True)
    for m in ("__init__", "read", "seek", "tell"):
        if m not in c.methods:
            raise AnalysisBroken(f"{CLASS}.{m} not found")
    pos = {t for _, v, _ in Interp(p).run(c.methods["tell"], c).ret for t in v if t[0] == "attr" and t[1] == SELF}
    if len(pos) != 1:
        raise AnalysisBroken(f"{CLASS}: position not recognised")
    f = c.methods["__init__"]
    ps = [a.arg for a in f.all_params()][1:4]
    if len(ps) < 3:
        raise AnalysisBroken(f"{CLASS}: parameters not recognised")
    last = {}

    class M(Monitor):
        def event(self, ev, st, ip):
            if ev.kind == "store_attr" and SELF in ev.base:
                last.setdefault(ev.attr, set()).update(ev.value)
            return NotImplemented
    Interp(p, M()).run(f, c)
    attrs = []
    for a in ps:
        s = [k for k, v in last.items() if v == {("param", a)}]
        if len(s) != 1:
            raise AnalysisBroken(f"{CLASS}: the attribute keeping {a} is not recognised")
        attrs.append(("attr", SELF, s[0]))
    return c, next(iter(pos)), attrs, ps, last


def check(p, cx):
    cx.rule("C27.part", "the reader of a part of a file fetches only bytes of its part, counts what it got, and is moved with its stream")
    c, pos, (stream, start, size), ps, last = setup(p)
    f = c.methods["__init__"]
    cx.fn(f)
    cx.check(last.get(pos[2]) == {("const", 0)}, "C27.part", "start", f.loc(), "a new part does not start at its beginning")

    class Moved(Monitor):
        def event(self, ev, st, ip):
            if ev.kind == "call" and ev.func[0] == "attr" and ev.func[2] == "seek" and ev.func[1] in (stream, ("param", ps[0])):
                return (len(ev.args) == 1 and all(clean(lin(x)) in ({start: 1}, {("param", ps[1]): 1}, {start: 1, pos: 1})
                                                  for t in ev.args[0] for x in alts(t)),)
            return NotImplemented
    o = Interp(p, Moved()).run(f, c)
    ends = [st.mon for st, *_ in o.ret] + [st.mon for st in o.normal] if o.normal else [st.mon for st, *_ in o.ret]
    cx.check(all(m == (True,) for m in ends), "C27.part", "moved", f.loc(), "the stream is not moved to the beginning of the part")
    f = c.methods["read"]
    cx.fn(f)
    m = Part(pos, stream, size, start)
    ip = Interp(p, m)
    ip.bool_branches = True
    o = ip.run(f, c)
    for what, ev in m.bad.items():
        cx.bad("C27.part", what, ev.loc(), f"read: {what}")
    if not any(st.mon[2] for st, _, _ in o.ret):
        raise AnalysisBroken(f"{CLASS}.read does not read")
    for st, v, node in o.ret:
        cur, known, got, counted, at = st.mon
        if got is None:
            cx.check(cur == pos and m.nothing(known) and all(t in (("const", b""), ("const", "b''")) or t[:2] == ("call", ("ext", "bytes")) and not t[2] for t in v), "C27.part", "nothing", f.loc(node),
                     "read: ends without fetching although something is left")
        else:
            cx.check(counted == 1, "C27.part", "counted", f.loc(node), "read: the position is not advanced by the number of bytes fetched")
            cx.check(all(m.is_bytes(t) for t in v), "C27.part", "returned", f.loc(node), "read: returns something else than what was fetched")
    f = c.methods["seek"]
    cx.fn(f)
    args = [a.arg for a in f.all_params()][1:]
    off = ("param", args[0])
    want = {0: {off: 1}, 1: {off: 1, pos: 1}, 2: {off: 1, size: 1}}
    for whence, form in want.items():
        m = Part(pos, stream, size, start)
        o = Interp(p, m).run(f, c, bind={args[1]: V(("const", whence))} if len(args) > 1 else {})
        exact = 0
        for st, v, node in o.ret:
            cur, known, got, counted, at = st.mon
            for x in alts(cur):
                t, lo, hi = unclamp(x, size)
                d = lin(t)
                for k, n in form.items():
                    d[k] = d.get(k, 0) - n
                cmps = [(y, op) for y, op in known if len(y) > 1 or y and y[0][0] != "1"]
                if clean(d) == {}:
                    exact += 1
                    inner = tuple(sorted(clean({**{k: n for k, n in form.items()}, size: form.get(size, 0) - 1}).items(), key=repr))
                    low = tuple(sorted(form.items(), key=repr))
                    hi = hi or any(y == inner and op in ("Lt", "LtE") for y, op in cmps)
                    lo = lo or any(y == low and op in ("Gt", "GtE") for y, op in cmps)
                    cx.check(lo and hi, "C27.part", f"seek {whence} bounds", f.loc(node), "seek: the position may leave the part")
                else:
                    cx.check(t in (size, ("const", 0)) and bool(cmps), "C27.part", f"seek {whence}", f.loc(node),
                             "seek: goes to another position than the one asked for")
            d = lin(at) if at else {}
            lin(cur, -1, d)
            cx.check(clean(d) == {start: 1}, "C27.part", f"seek {whence} stream", f.loc(node),
                     "seek: the stream is left at another place than the position in the part")
            cx.check(all(t in (pos, cur) or m.sub(t, cur) == cur for t in v), "C27.part", f"seek {whence} returned", f.loc(node),
                     "seek: does not return the position")
        cx.check(exact > 0, "C27.part", f"seek {whence} ends", f.loc(), "seek never goes to the position asked for")


def unclamp(t, size):
    lo = hi = False
    while t[0] == "call" and t[1] in (("ext", "min"), ("ext", "max")) and len(t[2]) == 2:
        b = [x for x in t[2] if x == (size if t[1][1] == "min" else ("const", 0))]
        if len(b) != 1:
            break
        if t[1][1] == "min":
            hi = True
        else:
            lo = True
        t = next(x for x in t[2] if x != b[0])
    return t, lo, hi
