"""C27: the retrying stream delivers the bytes at its position, once and in order."""
import ast

from ..flow import Interp, Monitor, NONE, V, subterms
from ..model import AnalysisBroken, walk_own
from .keys import alts

SELF = ("self",)
FILE = ("tok", "file")
CLASS = "RetryReadStream"


def lin(t, sign=1, out=None):
    out = {} if out is None else out
    if t[0] in ("binop", "aug") and t[1] in ("Add", "Sub") and len(t) >= 4:
        lin(t[2], sign, out)
        lin(t[3], sign if t[1] == "Add" else -sign, out)
    elif t[0] == "const" and type(t[1]) is int:
        out["1"] = out.get("1", 0) + sign * t[1]
    else:
        out[t] = out.get(t, 0) + sign
    return out


def clean(d):
    return {k: c for k, c in d.items() if c}


class Names:
    """What the class keeps where"""

    def __init__(self, p):
        self.c = c = p.cls(CLASS, must=True)
        for m in ("read", "seek", "tell", "__init__"):
            if m not in c.methods:
                raise AnalysisBroken(f"{CLASS}.{m} not found")
        self.pos = self.one("position", {t[2] for _, v, _ in Interp(p).run(c.methods["tell"], c).ret for t in v
                                         if t[0] == "attr" and t[1] == SELF})
        opened, size = set(), set()
        for f in c.methods.values():
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Call, ast.Name)):
                    attrs = {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
                    if isinstance(n.value, ast.Name):
                        if any(isinstance(m, ast.Assign) and isinstance(m.value, ast.Call) and called(m.value) == "open" and
                               any(isinstance(t, ast.Name) and t.id == n.value.id for t in m.targets) for m in walk_own(f.node)):
                            opened |= attrs
                    elif called(n.value) == "open":
                        opened |= attrs
                    elif called(n.value) == "size":
                        size |= attrs
                    elif isinstance(n.value.func, ast.Attribute) and n.value.func.attr in c.methods and \
                            any(called(x) == "open" for x in walk_own(c.methods[n.value.func.attr].node)):
                        opened |= attrs
        self.file = self.one("open file", opened)
        self.size = self.one("size", size)

    @staticmethod
    def one(what, s):
        if len(s) != 1:
            raise AnalysisBroken(f"{CLASS}: the attribute holding the {what} is not recognised: {sorted(s)}")
        return next(iter(s))


def called(n):
    return n.func.attr if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) else None


RES, RESLEN, KEPT, WRONG = ("bytes fetched",), ("number of bytes fetched",), ("bytes kept",), ("bytes in the wrong order",)


#: counters of what has arrived and of what is missing
GOT, MISSING = ("count of bytes fetched",), ("count of bytes missing",)


class Bytes(Interp):
    """Bytes fetched are added to the ones kept"""

    def builtin_effect(self, ft, args, kwargs, st, node):
        st = super().builtin_effect(ft, args, kwargs, st, node)
        if ft[0] == "attr" and ft[2] in ("read", "read1"):
            # what was known of the bytes fetched before does not hold for the new ones
            old = (RES, RESLEN, KEPT)
            st = st.copy(facts=frozenset(f for f in st.facts if not any(x in old for x in subterms(f[0]))))
        return st

    def binop(self, op, a, b, st, node):
        if op == "Add" and RES in b:
            return V(KEPT)
        if op == "Add" and RES in a:
            return V(WRONG)
        if RESLEN in b and op == "Add" and set(a) <= {("const", 0), GOT}:
            return V(GOT)
        if RESLEN in b and op == "Sub" and set(a) <= {self.mon.amount(), MISSING}:
            return V(MISSING)
        return super().binop(op, a, b, st, node)


F = ("attr", "file", "pend", "buf", "full", "sign", "some", "loop", "just", "caught", "posv", "fresh")
# attr:   is a file stored in the attribute?           file:  where the open file is
# pend:   bytes fetched, not yet added to the position  buf:   bytes fetched, not yet kept
# full:   all bytes asked for are there, or the end     sign:  is the amount asked for negative?
# some:   bytes may have been kept                      loop:  state of the loop over a known number of attempts
# just:   the operation which may have failed           caught: an error was caught
# posv:   value stored in the position                  fresh: the last read is not known to have returned something


class Stream(Monitor):
    names = True

    def __init__(self, n, attr, arg, keeps=()):
        self.n = n
        self.attr0 = attr
        self.arg = arg
        self.keeps = set(keeps)
        self.found = set()      # names / objects keeping the bytes
        self.problems = {}
        self.reads = 0
        self.retried = False
        self.seeks = []

    def init(self):
        return tuple({"attr": self.attr0, "file": "at" if self.attr0 else "none", "pend": False, "buf": False, "full": False,
                      "sign": None, "some": False, "loop": None, "just": None, "caught": False, "posv": None,
                      "fresh": False}[k] for k in F)

    def note(self, what, ev):
        self.problems.setdefault(what, ev)

    def loaded(self, t, st, ip):
        if t == ("attr", SELF, self.n.file):
            return FILE if st.mon[0] else NONE
        return t

    def is_file(self, t):
        return t == FILE

    def op(self, ev):
        """open / read / seek / close of the file"""
        if ev.kind != "call" or ev.tag == "inlined" or not ev.func:
            return None
        if ev.callee is not None and ev.callee.name == "open" or ev.func[0] == "attr" and ev.func[2] == "open":
            return "open"
        if ev.func[0] == "attr" and self.is_file(ev.func[1]) and ev.func[2] in ("read", "seek", "close", "readinto", "read1", "tell"):
            return ev.func[2]
        return None

    def inline(self, fi, recv, ip, stack):
        return False if fi.cls is not None and fi.cls.name == "EPath" else NotImplemented

    def raises(self, ev, st, ip):
        return ("OSError",) if self.op(ev) in ("open", "read", "read1", "seek", "close") else ()

    def result(self, ev, st, ip):
        if self.op(ev) in ("read", "read1"):
            return RES
        if ev.func == ("ext", "len") and ev.args and set(ev.args[0]) == {RES}:
            return RESLEN
        return FILE if self.op(ev) == "open" else None

    @staticmethod
    def is_res(t):
        return t == RES

    def amount(self):
        return ("param", self.arg)

    def is_kept_len(self, t):
        return t == GOT or t[0] == "call" and t[1] == ("ext", "len") and len(t[2]) == 1 and not self.is_res(t[2][0])

    def is_pos(self, t, s):
        return t == ("attr", SELF, self.n.pos) or s["posv"] is not None and t in s["posv"]

    def event(self, ev, st, ip):
        s = dict(zip(F, st.mon))
        old = dict(s)
        r = self.step(ev, s, st, ip)
        if r is False:
            return []
        if s == old:
            return NotImplemented
        return tuple(s[k] for k in F)

    def step(self, ev, s, st, ip):
        k = ev.kind
        if k == "catch":
            if s["just"] in ("read", "seek"):
                s["file"] = "unknown"
                s["pend"] = s["buf"] = s["fresh"] = False
            elif s["just"] == "open":
                s["file"] = "none"
            elif s["just"] == "close":
                s["file"] = "closed"
            s["just"] = None
            s["caught"] = True
            if s["pend"] or s["buf"]:
                self.note("bytes are lost when an error follows their arrival", ev)
                s["pend"] = s["buf"] = False
            return
        if k in ("call", "store_attr", "store_name", "aug_name", "branch", "next", "loop_back", "return", "raise"):
            s["just"] = None
        op = self.op(ev)
        if op:
            self.operation(op, ev, s, st)
            s["just"] = op
            return
        if k == "store_attr" and SELF in ev.base:
            if ev.attr == self.n.file:
                s["attr"] = set(ev.value) != {NONE}
                if not s["attr"]:
                    s["file"] = "none"
            elif ev.attr == self.n.pos:
                self.moved(ev, s)
        elif k in ("store_name", "aug_name", "call"):
            self.kept(ev, s, st)
        elif k == "branch":
            for t in ev.cond or ():
                self.learn(t, ev.taken, s)
                if self.last_round(t, ev.taken):
                    s["loop"] = "more"
        elif k == "next" and isinstance(ev.node, ast.For) and any(rounds(t) for t in ev.value or ()):
            s["loop"] = "round"
        elif k == "exhausted" and isinstance(ev.node, ast.For) and any(rounds(t) for t in ev.value or ()):
            if s["loop"] in ("more", None):
                return False

    def operation(self, op, ev, s, st):
        if op == "open":
            s["file"] = "start"
            s["fresh"] = False
        elif op == "close":
            s["file"] = "closed"
        elif op == "seek":
            a, w = ev.arg(0, "offset"), ev.arg(1, "whence")
            self.seeks.append(ev)
            if s["pend"]:
                self.note("the file is moved before the bytes fetched are counted", ev)
            if a is not None and (w is None or set(w) == {("const", 0)}) and all(self.is_pos(t, s) for t in a):
                s["file"] = "at"
            elif a is not None and (w is None or set(w) == {("const", 0)}):
                s["file"] = ("sought", frozenset(a))
            else:
                s["file"] = "unknown"
        elif op in ("read", "read1"):
            self.reads += 1
            if s["pend"] or s["buf"]:
                self.note("bytes fetched are not kept or not counted before more are fetched", ev)
            if s["file"] != "at":
                self.note({"closed": "reads from a closed file", "start": "reads from a file opened anew without going to the position",
                           "none": "reads without a file"}.get(s["file"], "reads although the file may not be at the position"), ev)
            if s["fresh"]:
                self.note("reads again although the last read may have returned nothing", ev)
            if s["caught"]:
                self.retried = True
            self.asked(ev, s)
            s["pend"] = s["buf"] = True
            s["full"] = False
            s["fresh"] = True

    def asked(self, ev, s):
        """Never more than what is missing"""
        a = ev.arg(0, "n") or ev.arg(0, "size")
        all_ = a is None or set(a) <= {NONE, ("const", -1)}
        n = ("param", self.arg)
        if all_:
            if s["sign"] != "neg":
                self.note("reads everything although an amount was asked for", ev)
            return
        for t in a:
            for x in alts(t):
                d = clean(lin(x))
                kept = [k for k in d if not isinstance(k, str) and self.is_kept_len(k)]
                if x == MISSING:
                    continue
                if x == n or d == {n: 1}:
                    if s["sign"] != "neg" and s["some"]:
                        self.note("asks again for the whole amount after a part of it has arrived", ev)
                elif x[0] == "const" and x[1] == -1 and s["sign"] == "neg":
                    pass
                elif not (d.get(n) == 1 and len(kept) == 1 and d[kept[0]] == -1 and len(d) == 2):
                    self.note("the amount requested is not what is missing", ev)

    def moved(self, ev, s):
        old = ("attr", SELF, self.n.pos)
        v = set(ev.value)
        adv = all(clean(lin(t)) == {old: 1, RESLEN: 1} for t in v)
        if s["pend"] and adv:
            s["pend"] = False
            return
        if adv:
            self.note("the same bytes are counted twice", ev)
        s["posv"] = frozenset(v)
        if isinstance(s["file"], tuple) and s["file"][1] == v:
            s["file"] = "at"
        elif s["attr"] and not v <= {old}:
            s["file"] = "off"

    def kept(self, ev, s, st):
        if ev.kind == "aug_name":
            if ev.op == "Add" and RES in ev.value:
                self.found.add(ev.attr)
                self.arrived(s, ev)
            return
        if ev.kind == "store_name":
            v = getattr(ev.node, "value", None)
            if isinstance(v, ast.BinOp) and (KEPT in ev.value or WRONG in ev.value):
                self.found.add(ev.attr)
                if WRONG in ev.value:
                    self.note("bytes are put before the ones which have arrived earlier", ev)
                self.arrived(s, ev)
            elif ev.attr in self.keeps and s["some"] and KEPT not in ev.value:
                self.note("bytes which have arrived are thrown away", ev)
            return
        f = ev.func
        if f and f[0] == "attr" and f[2] in ("append", "extend", "write") and ev.args and set(ev.args[0]) == {RES}:
            for n, v in self.holders(st, f[1]):
                self.found.add(n)
            self.arrived(s, ev)

    @staticmethod
    def holders(st, t):
        """Local names holding the object"""
        return [(k[1], v) for k, v in st.env.items() if isinstance(k, tuple) and v == frozenset({t})] if hasattr(st, "env") else []

    def arrived(self, s, ev):
        if not s["buf"]:
            self.note("the same bytes are kept twice", ev)
        s["buf"] = False
        s["some"] = True

    def learn(self, t, taken, s):
        n = ("param", self.arg)
        if t[0] == "not":
            return self.learn(t[1], not taken, s)
        if t in (RES, RESLEN):
            self.got(s, taken)
            return
        if t[0] != "cmp":
            return
        op, a, b = t[1], t[2], t[3]
        neg = {"Lt": "GtE", "GtE": "Lt", "Gt": "LtE", "LtE": "Gt", "Eq": "NotEq", "NotEq": "Eq"}
        flip = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE", "Eq": "Eq", "NotEq": "NotEq"}
        if op not in neg:
            return
        if not taken:
            op = neg[op]
        for o, x, y in ((op, a, b), (flip[op], b, a)):
            if x == n and y[0] == "const" and type(y[1]) is int:
                lo = {"Lt": y[1] <= 0, "LtE": y[1] <= -1, "Eq": y[1] < 0}.get(o)
                hi = {"GtE": y[1] >= 0, "Gt": y[1] >= -1, "Eq": y[1] >= 0}.get(o)
                if lo:
                    s["sign"] = "neg"
                if hi:
                    s["sign"] = "amount"
            if self.is_kept_len(x) and y == n and o in ("Eq", "GtE"):
                s["full"] = True
            if x == MISSING and y == ("const", 0) and o in ("Eq", "LtE"):
                s["full"] = True
            d = clean(lin(x)) if x[0] in ("binop", "aug") else {}
            if y[0] == "const" and y[1] == 0 and d.get(n) == 1 and len(d) == 2 and o in ("Eq", "LtE") and \
                    any(not isinstance(k, str) and self.is_kept_len(k) and c == -1 for k, c in d.items()):
                s["full"] = True
            if y[0] == "const" and y[1] == 0 and x == n and o == "Eq":
                s["full"] = True
            if x == ("attr", SELF, self.n.pos) and y == ("attr", SELF, self.n.size) and o in ("Eq", "GtE"):
                if s["pend"]:
                    return
                s["full"] = True
            if x == RESLEN and y[0] == "const":
                if (o, y[1]) in (("Gt", 0), ("GtE", 1), ("NotEq", 0), ("LtE", 0), ("Lt", 1), ("Eq", 0)):
                    self.got(s, o in ("Gt", "GtE", "NotEq"))
            if x == RES and y == ("const", "b''"):
                self.got(s, o == "NotEq")

    @staticmethod
    def got(s, something):
        if something:
            s["fresh"] = False
        else:
            s["pend"] = s["buf"] = False

    def last_round(self, t, taken):
        """Is this, going by the condition, not the last round of a loop over range(constant)?"""
        v = self.at_last(t)
        return v is not None and bool(v) != taken

    def at_last(self, t):
        if t[0] == "const":
            return t[1]
        if t[0] in ("elem", "index") and rounds(t[1]):
            return rounds(t[1]) - 1
        if t[0] == "not":
            v = self.at_last(t[1])
            return None if v is None else not v
        if t[0] in ("binop", "cmp"):
            a, b = self.at_last(t[2]), self.at_last(t[3])
            if a is None or b is None:
                return None
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b,
                        "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[t[1]]()
            except (KeyError, TypeError):
                return None
        return None


def rounds(t):
    """N of range(N) / range(0, N)"""
    if t[0] == "call" and t[1] == ("ext", "range"):
        a = t[2]
        if len(a) == 1 and a[0][0] == "const" and type(a[0][1]) is int:
            return a[0][1]
        if len(a) == 2 and a[0] == ("const", 0) and a[1][0] == "const" and type(a[1][1]) is int:
            return a[1][1]
    return None


def run(p, n, name, attr, keeps=(), bind=None):
    f = n.c.methods[name]
    arg = [a.arg for a in f.all_params()][1:2]
    mon = Stream(n, attr, arg[0] if arg else None, keeps)
    ip = Bytes(p, mon)
    o = ip.run(f, n.c, bind=bind)
    return f, mon, o


def check(p, cx):
    cx.rule("C27.read", "each byte fetched is kept once, behind the earlier ones, and counted once, from a file at the position")
    cx.rule("C27.returned", "a read returns what was asked for, or up to the end")
    cx.rule("C27.retried", "errors are retried; the last one is raised once the attempts are used up")
    cx.rule("C27.seek", "seeking sets the position to what was asked for and moves the open file along")
    cx.rule("C27.start", "a new stream is at the beginning, without a file")
    n = Names(p)
    start(p, cx, n)
    read(p, cx, n)
    seek(p, cx, n)
    cx.notes.append(f"stream: position {n.pos}, file {n.file}, size {n.size}")


def start(p, cx, n):
    f = n.c.methods["__init__"]
    cx.fn(f)
    last = {}

    class M(Monitor):
        def event(self, ev, st, ip):
            if ev.kind == "store_attr" and SELF in ev.base:
                last.setdefault(ev.attr, set()).update(ev.value)
            return NotImplemented

    Interp(p, M(), no_inline={"size"}).run(f, n.c)
    cx.check(last.get(n.pos) == {("const", 0)}, "C27.start", n.pos, f.loc(), "a new stream does not start at its beginning")
    cx.check(last.get(n.file) == {NONE}, "C27.start", n.file, f.loc(), "a new stream does not start without a file")


def read(p, cx, n):
    f = n.c.methods["read"]
    cx.fn(f)
    keeps = set()
    for attr in (False, True):
        _, mon, _ = run(p, n, "read", attr)
        keeps |= mon.found
    retried, bad, ways, failed = False, {}, 0, set()
    reads = 0
    for attr in (False, True):
        _, mon, o = run(p, n, "read", attr, keeps)
        bad.update({k: v for k, v in mon.problems.items() if k not in bad})
        retried |= mon.retried
        reads += mon.reads
        for st, v, node in o.ret:
            s = dict(zip(F, st.mon))
            ways += 1
            if NONE in v:
                cx.bad("C27.retried", "no answer", f.loc(), "read ends without bytes and without an error once the attempts are used up")
                continue
            if s["pend"] or s["buf"]:
                bad.setdefault("returns with bytes that are not kept or not counted", None)
            if s["attr"] and s["file"] != "at":
                bad.setdefault("returns leaving the file at another place than the position", None)
            if not s["full"]:
                cx.bad("C27.returned", "short", f.loc(), "may return less than what was asked for before the end of the file")
        for st, tag, ev in o.exc:
            failed.add("OSError" if tag in ("IOError", "EnvironmentError") else tag)
    if not reads:
        raise AnalysisBroken(f"{CLASS}.read does not read")
    for what, ev in bad.items():
        cx.bad("C27.read", what, ev.loc() if ev is not None else f.loc(), f"read: {what}")
    if not bad:
        cx.ok("C27.read", f"{ways} ways out", f.loc())
    cx.ok("C27.returned", f"{ways} ways out", f.loc())
    cx.check(retried, "C27.retried", "retried", f.loc(), "after an error the read is not tried again")
    cx.check("OSError" in failed, "C27.retried", "raised", f.loc(), "the last error is never raised")
    other = sorted(str(t) for t in failed if t != "OSError")
    cx.check(not other, "C27.retried", "kind", f.loc(), f"another error than the last one may be raised: {other}")


def seek(p, cx, n):
    f = n.c.methods["seek"]
    cx.fn(f)
    args = [a.arg for a in f.all_params()][1:]
    off = ("param", args[0])
    want = {0: {off: 1}, 1: {off: 1, ("attr", SELF, n.pos): 1}, 2: {off: 1, ("attr", SELF, n.size): 1}}
    for whence, form in want.items():
        for attr in (False, True):
            _, mon, o = run(p, n, "seek", attr, bind={args[1]: V(("const", whence))} if len(args) > 1 else None)
            what = f"whence {whence}, " + ("file open" if attr else "no file")
            if not o.ret:
                cx.bad("C27.seek", f"{what}:ends", f.loc(), f"seek ({what}) never succeeds")
            good = True
            for st, v, node in o.ret:
                s = dict(zip(F, st.mon))
                if s["posv"] is None:
                    good = False
                    cx.bad("C27.seek", f"{what}:position", f.loc(), f"seek ({what}) does not change the position")
                    continue
                for t in s["posv"]:
                    for x in alts(t):
                        inner, low = unclamp(x, ("attr", SELF, n.size))
                        if clean(lin(inner)) != form:
                            good = False
                            cx.bad("C27.seek", f"{what}:position", f.loc(), f"seek ({what}) goes to another position than the one asked for")
                if s["attr"] and s["file"] != "at":
                    good = False
                    cx.bad("C27.seek", f"{what}:file", f.loc(), f"seek ({what}) leaves the open file at another place than the position")
                if not all(self_pos(t, n) or t in s["posv"] for t in v):
                    good = False
                    cx.bad("C27.seek", f"{what}:returned", f.loc(), f"seek ({what}) does not return the position")
            if good:
                cx.ok("C27.seek", what, f.loc())


def self_pos(t, n):
    return t == ("attr", SELF, n.pos)


def unclamp(t, size):
    low = False
    while t[0] == "call" and t[1] in (("ext", "min"), ("ext", "max")) and len(t[2]) == 2:
        b = [x for x in t[2] if x == size or x == ("const", 0)]
        if len(b) != 1:
            break
        bound = b[0]
        if bound == ("const", 0) and t[1][1] == "min" or bound == size and t[1][1] == "max":
            break
        t = next(x for x in t[2] if x != bound)
    return t, low
