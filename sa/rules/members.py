"""C15: which members of an archive make up a sample, decided alike by indexing and reading."""
import ast
import itertools
import re
import struct

from ..flow import Interp, Monitor, NONE, subterms
from ..model import AnalysisBroken, Ext, Global, walk_own
from .indexfile import FAIL, WRITER

SPLIT, META = "split", "meta"
FETCH = ("tok", "member")


# ---- the names -------------------------------------------------------------
def spec_split(name):
    """(key, extension) of a member, None if it is not part of a sample; ... where the statement leaves it open"""
    d, _, base = name.rpartition("/")
    d += "/" if "/" in name else ""
    if base.startswith("."):
        return ...
    if "." not in base:
        return None
    stem, _, ext = base.partition(".")
    return d + stem, ext


def spec_meta(name):
    c = name.split("/")[0]
    return len(c) >= 4 and c.startswith("__") and c.endswith("__")


def words(alphabet, n):
    for k in range(1, n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield "".join(w)


_kinds = {}


def kind_of(pattern, method):
    """What a regular expression decides, by its value on all short names."""
    key = (pattern, method)
    if key not in _kinds:
        _kinds[key] = classify(pattern, method)
    return _kinds[key]


def classify(pattern, method):
    try:
        rx = re.compile(pattern)
        fn = getattr(rx, method)
    except (re.error, AttributeError, TypeError):
        return None
    if rx.groups >= 2:
        for w in words("a./_", 6):
            s = spec_split(w)
            if s is ...:
                continue
            m = fn(w)
            if (m.group(1, 2) if m else None) != s:
                return "wrong split"
        return SPLIT
    for w in words("a._/", 7):
        if bool(fn(w)) != spec_meta(w):
            return "wrong meta"
    return META


def pattern_of(p, t):
    """Pattern text of a term denoting a compiled regular expression."""
    if t[0] == "global":
        mod = p.modules.get(t[1])
        g = mod.resolve_name(t[2]) if mod else None
        if isinstance(g, Global) and isinstance(g.value, ast.Call) and g.value.args and \
                isinstance(g.value.args[0], ast.Constant) and len(g.value.args) == 1 and not g.value.keywords:
            r = g.module.resolve_expr(g.value.func)
            if isinstance(r, Ext) and r.name == "re.compile":
                return g.value.args[0].value
    if t[0] == "call" and t[1] == ("ext", "re.compile") and len(t[2]) == 1 and t[2][0][0] == "const":
        return t[2][0][1]
    return None


# ---- the members -----------------------------------------------------------
class Members(Monitor):
    """mon = (regular, meta, split, key is the one of the sample at hand, used, dropped for a reason,
    offsets appended, samples counted, offsets appended after the last member)"""
    names = True

    def __init__(self, p, aliases=None, counters=()):
        self.p = p
        self.alias = aliases or {}
        self.stores = {}
        self.counters = set(counters)
        self.problems = {}
        self.other = {}
        self.accepts = 0
        self.yields = 0
        self.fetches = 0
        self.unknown = set()
        self.names_of = []

    def init(self):
        return ("prior",) * 3 + (None, False, False, 0, 0, 0)

    def inline(self, fi, recv, ip, stack):
        if fi.cls is not None and fi.cls.name in ("EPath", WRITER):
            return False
        if fi.name in ("should_log", "worker_log"):
            return False
        return NotImplemented

    # terms
    def a(self, t, what):
        return t[0] == "attr" and t[1] == ("self",) and t[2] in self.alias.get(what, ())

    def is_member(self, t):
        if t[0] == "any":
            return all(self.is_member(x) for x in t[1])
        if t == FETCH or self.a(t, "member"):
            return True
        return t[0] == "elem" and self.is_stream(t[1])

    def is_stream(self, t):
        if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("iter", "enumerate") and t[2]:
            return self.is_stream(t[2][0])
        if t[0] == "enter":
            return t[1] == ("tok", "tar")
        if t == ("attr", ("self",), "_stream"):
            return True
        return t == ("tok", "tar")

    def member_name(self, t):
        return t[0] == "attr" and t[2] == "name" and self.is_member(t[1])

    def match(self, t):
        """kind of a match on the name of the member"""
        if t[0] == "match":
            k = kind_of(t[1], t[2]) if t[1] is not None else None
            if not t[3]:
                k = None
            if k not in (SPLIT, META):
                self.unknown.add((t[1], t[2], k))
                return None
            return k
        return None

    def part(self, t):
        """1 for the key, 2 for the extension"""
        if t[0] == "any":
            r = {self.part(x) for x in t[1]}
            return r.pop() if len(r) == 1 else None
        if self.a(t, "key"):
            return 1
        if self.a(t, "ext"):
            return 2
        if t[0] == "group" and self.match(t[1]) == SPLIT:
            return t[2] if t[2] in (1, 2) else None
        if t[0] == "sub" and t[2][0] == "const":
            if t[1][0] == "groups" and self.match(t[1][1]) == SPLIT and t[2][1] in (0, 1):
                return t[2][1] + 1
            if self.match(t[1]) == SPLIT and t[2][1] in (1, 2):
                return t[2][1]
        return None

    def result(self, ev, st, ip):
        if ev.kind != "call":
            return None
        if ev.func == ("ext", "tarfile.open"):
            return ("tok", "tar")
        if ev.func == ("ext", "next") and ev.args and any(self.is_stream(t) for t in ev.args[0]):
            return FETCH
        if ev.func and ev.func[0] == "cls" and ev.func[1].split(".")[-1] == WRITER:
            return ("tok", "writer")
        if ev.name in ("match", "fullmatch", "search"):
            pat, arg = ev.recv, ev.args[0] if ev.args else frozenset()
            if ev.func and ev.func[0] == "ext" and len(ev.args) == 2:
                c = next(iter(ev.args[0]))
                pat, arg = c[1] if c[0] == "const" else None, ev.args[1]
            else:
                pat = pattern_of(self.p, pat) if pat is not None else None
            return ("match", pat, ev.name, all(self.member_name(t) for t in arg) and bool(arg))
        if ev.name == "group" and ev.recv and ev.recv[0] == "match":
            a = next(iter(ev.args[0])) if ev.args else ("const", 0)
            return ("group", ev.recv, a[1] if a[0] == "const" else None)
        if ev.name == "groups" and ev.recv and ev.recv[0] == "match":
            return ("groups", ev.recv)
        if ev.name == "extractfile":
            return ("tok", "file")
        return None

    def raises(self, ev, st, ip):
        if ev.kind == "call" and (ev.name in ("extractfile", "read") or ev.name == "part_filter"):
            return (FAIL,)
        return ()

    def problem(self, key, ev, msg):
        self.problems.setdefault(key, (ev, msg))

    def good(self, mon):
        if mon[0] == "prior":
            return None
        reg, meta, split = mon[:3]
        if reg is not True:
            return "members which are no regular files"
        if meta is not False:
            return "members whose name is reserved for meta data"
        if split is not True:
            return "members whose name has no key and extension"
        return None

    def drop(self, mon, ev):
        if mon[0] in ("prior", "none") or mon[4] or mon[5]:
            return
        self.problem("dropped", ev, "a member is left out although it is a regular file with a valid name")

    def flag(self, mon, i, v):
        return mon[:i] + (v,) + mon[i + 1:]

    def event(self, ev, st, ip):
        mon = st.mon
        k = ev.kind
        if k == "next" and any(self.is_stream(t) for t in ev.value) or \
                k == "call" and ev.func == ("ext", "next") and ev.args and any(self.is_stream(t) for t in ev.args[0]):
            self.fetches += 1
            self.drop(mon, ev)
            self.balance(mon, ev)
            return (None, None, None, None, False, False, 0, 0, mon[8])
        if k == "exhausted" and any(self.is_stream(t) for t in ev.value or ()) or \
                k == "catch" and ev.tag and str(ev.tag).startswith("StopIteration"):
            return ("none",) * 3 + (None, False, False, 0, 0, mon[8])
        if k == "catch" and ev.tag == FAIL:
            return self.flag(mon, 5, True)
        if k == "branch":
            return self.branch(ev, mon)
        if k == "store_attr" and ("self",) in ev.base:
            for t in ev.value:
                self.stores.setdefault(ev.attr, set()).add(t)
        if k == "call" and ev.name == "extractfile" and ev.args:
            if not all(self.is_member(t) for t in ev.args[0]):
                self.problem("content", ev, "the content is taken from something other than the member at hand")
            if self.alias.get("key") and mon[3] is not True:
                self.problem("group", ev, "a member enters a sample without having its key")
            return self.accept(mon, ev, None)
        if k == "store_sub" and any(self.part(t) == 2 for t in ev.index):
            return self.accept(mon, ev, None)
        if k == "call" and ev.name == "append" and ev.recv is not None and ("tok", "writer") in set(subterms(ev.recv)):
            v = ev.args[0] if ev.args else next(iter(ev.kwargs.values()))
            if all(t[0] == "attr" and self.is_stream(t[1]) and t[2] == "offset" for t in v):
                return self.flag(mon, 8, min(2, mon[8] + 1))
            if not all(t[0] == "attr" and t[2] == "offset" and self.is_member(t[1]) for t in v):
                self.problem("offset", ev, "the index gets something other than the offset at which the member starts")
            mon = self.accept(mon, ev, False)
            return self.flag(mon, 6, min(2, mon[6] + 1))
        if k in ("aug_name", "store_name") and ev.attr in self.counters:
            if k == "aug_name" and ev.op == "Add" and ev.value == frozenset({("const", 1)}):
                return self.flag(mon, 7, min(2, mon[7] + 1))
            if k == "store_name" and plus_one(ev.node, ev.attr):
                return self.flag(mon, 7, min(2, mon[7] + 1))
        if k == "yield":
            self.yields += 1
            if mon[0] not in ("none", "prior") and mon[3] is not False:
                self.problem("group", ev, "a sample is handed out although the member at hand has the same key")
        if k == "with_exit" and ev.tag == "normal" and ("tok", "writer") in {x for t in ev.value or () for x in subterms(t)}:
            self.drop(mon, ev)
            self.balance(mon, ev)
            if mon[8] != 1:
                self.problem("end", ev, "the end of the last sample is not appended exactly once after the offsets")
        return NotImplemented

    def balance(self, mon, ev):
        if self.counters and mon[6] != mon[7]:
            self.problem("count", ev, "the number of samples does not match the number of offsets in the index")

    def accept(self, mon, ev, same):
        self.accepts += 1
        g = self.good(mon)
        if mon[0] == "none":
            return mon
        if g:
            self.problem("filter", ev, f"{g} become part of a sample")
        if same is False and mon[3] is not False:
            self.problem("group", ev, "a sample starts without its key being known to differ from the last one")
        return self.flag(mon, 4, True)

    def branch(self, ev, mon):
        for t in ev.cond:
            pol = bool(ev.taken)
            while t[0] in ("not", "unop") and isinstance(t[-1], tuple):
                t, pol = t[-1], not pol
            if t[0] == "cmp" and t[1] in ("Is", "IsNot", "Eq", "NotEq") and NONE in t[2:4]:
                x = t[2] if t[3] == NONE else t[3]
                isnone = pol == (t[1] in ("Is", "Eq"))
                if self.member_name(x) and isnone:
                    mon = self.flag(mon, 5, True)
                if self.match(x):
                    mon = self.decide(mon, self.match(x), not isnone)
                if self.part(x) != 1:
                    continue
            if self.match(t):
                mon = self.decide(mon, self.match(t), pol)
            if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("isreg", "isfile") and self.is_member(t[1][1]):
                mon = self.flag(mon, 0, pol)
                if not pol:
                    mon = self.flag(mon, 5, True)
            if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "part_filter" and len(t[2]) == 1 and \
                    self.part(t[2][0]) == 2 and not pol:
                mon = self.flag(mon, 5, True)
            if t[0] == "cmp" and t[1] in ("In", "NotIn") and any(x[0] == "attr" and x[2] == "exclude" for x in subterms(t[3])):
                if pol == (t[1] == "In"):
                    mon = self.flag(mon, 5, True)
            if t[0] == "cmp" and t[1] in ("Eq", "NotEq") and any(self.part(x) == 1 for x in t[2:4]):
                a, b = t[2:4]
                other = a if self.part(b) == 1 else b
                if NONE != other:
                    self.other.setdefault(other, ev)
                same = pol == (t[1] == "Eq")
                mon = self.flag(mon, 3, same)
                if same and not self.alias.get("key"):
                    mon = self.flag(mon, 5, True)
        return mon

    def decide(self, mon, kind, yes):
        if kind == META:
            mon = self.flag(mon, 1, yes)
            return self.flag(mon, 5, True) if yes else mon
        mon = self.flag(mon, 2, yes)
        return mon if yes else self.flag(mon, 5, True)


def alts(t):
    if t[0] == "any":
        for x in t[1]:
            yield from alts(x)
    else:
        yield t


def report(cx, name, f, m, problems):
    for key, text in problems:
        ev, msg = m.problems.get(key, (None, text))
        cx.check(ev is None, f"C15.{key}", name, ev.where() if ev else f.loc(), msg)


def plus_one(n, name):
    v = n.value if isinstance(n, (ast.Assign, ast.AnnAssign)) else None
    if not (isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add)):
        return False
    a, b = v.left, v.right
    if isinstance(b, ast.Name):
        a, b = b, a
    return isinstance(a, ast.Name) and a.id == name and isinstance(b, ast.Constant) and b.value == 1


def reading(p, marks):
    """Functions which mention one of the marks, and the functions calling them."""
    fns = [f for f in p.all_functions() if f.outer is None]
    out = [f for f in fns if marks(f)]
    for f in out:
        for g in fns:
            if g not in out and g.module is f.module and g.name != f.name and \
                    any(isinstance(n, (ast.Attribute, ast.Name)) and (getattr(n, "attr", None) or getattr(n, "id", None)) == f.name
                        for n in walk_own(g.node)):
                out.append(g)
    return out


def count_names(f):
    """Local names stored as the number of samples."""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "count" for t in n.targets):
            out |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
    return out


def check(p, cx):
    cx.rule("C15.filter", "a member enters a sample (its offset is appended, its content read) only when it is known to be a regular "
            "file whose name is not reserved and has a key and an extension")
    cx.rule("C15.dropped", "a member is left out only for not meeting these conditions, because it continues the sample at hand, or "
            "because the user excluded it")
    cx.rule("C15.group", "a sample starts exactly where the key changes")
    cx.rule("C15.names", "the regular expressions give every short name the key up to the first dot of its base name, and skip the "
            "reserved names")
    cx.rule("C15.offset", "the index holds the offset of the first member of each sample, and after them the end of the last")
    cx.rule("C15.count", "the number of samples of a shard is the number of offsets appended")
    entries = reading(p, lambda f: any(isinstance(n, ast.Attribute) and n.attr == "extractfile" or
                                       isinstance(n, ast.Name) and n.id == WRITER for n in walk_own(f.node)))
    n = 0
    for f in entries:
        # the first run finds what the attributes of a reader hold
        al = {}
        for i in range(4):
            m = Members(p, al, count_names(f))
            o = Interp(p, m).run(f, f.cls)
            new = {"member": set(), "key": set(), "ext": set()}
            for a, vals in m.stores.items():
                vals = {x for t in vals for x in alts(t)} - {NONE}
                if vals and all(m.is_member(t) for t in vals):
                    new["member"].add(a)
                if vals and all(m.part(t) == 1 for t in vals):
                    new["key"].add(a)
                if vals and all(m.part(t) == 2 for t in vals):
                    new["ext"].add(a)
            if new == al:
                break
            al = new
        if not m.fetches or not m.accepts:
            continue
        n += 1
        cx.fn(f)
        name = f.qualname
        for pat, method, k in sorted(m.unknown, key=repr):
            if k is None and pat is None:
                raise AnalysisBroken(f"{name}: a test of the member name is not understood")
        wrong = sorted({k for _, _, k in m.unknown if isinstance(k, str) and k.startswith("wrong")})
        cx.check(not wrong, "C15.names", name, f.loc(), f"a regular expression does not decide the member names as stated ({wrong})")
        writes = any(isinstance(x, ast.Name) and x.id == WRITER for x in walk_own(f.node))
        report(cx, name, f, m, [("filter", ""), ("dropped", ""), ("group", ""), ("content", "")])
        if writes:
            report(cx, name, f, m, [("offset", ""), ("end", ""), ("count", "")])
            if not m.counters:
                cx.notes.append(f"{name}: the number of samples is not kept in a local variable")
        # what the key is compared with
        other = {x for t in m.other for x in alts(t)}
        keys = {t for t in other if m.part(t) == 1}
        rest = {t for t in other if t not in keys and t != NONE and t[0] != "param"}
        cx.check(m.other and keys and not rest, "C15.group", f"{name}.last", f.loc(),
                 "the key of a member is not compared with the key of the sample at hand")
    cx.floor("functions reading archive members", n, 3)
    index_format(p, cx)
    positions(p, cx)


# ---- the format of the index ----------------------------------------------
class Calls(Monitor):
    def __init__(self):
        self.calls = []

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.tag != "inlined":
            self.calls.append(ev)
        return NotImplemented


def consts(v):
    return {t[1] for t in v if t[0] == "const"}


def run_all(p, c):
    out, rets = [], {}
    for name, f in sorted(c.methods.items()):
        m = Calls()
        ip = Interp(p, m)
        o = ip.run(f, c)
        out += [(f, ev) for ev in m.calls]
        rets[name] = (f, {t for _, v, _ in o.ret for t in (v or ())})
    return out, rets


def index_format(p, cx):
    cx.rule("C15.format", "writer and reader of the index agree on the size and format of an entry")
    wc, rc = p.cls(WRITER), p.cls("TarIndexReader")
    wcalls, _ = run_all(p, wc)
    rcalls, rets = run_all(p, rc)
    pack = [(f, ev) for f, ev in wcalls if ev.func == ("ext", "struct.pack")]
    unpack = [(f, ev) for f, ev in rcalls if ev.func == ("ext", "struct.unpack")]
    if not pack or not unpack:
        raise AnalysisBroken("the format of index entries is not found")
    fmts = {x for _, ev in pack for x in consts(ev.args[0])}
    rfmts = {x for _, ev in unpack for x in consts(ev.args[0])}
    where = unpack[0][1].where()
    cx.check(len(fmts) == 1 and fmts == rfmts, "C15.format", "format", where,
             f"entries are written as {sorted(map(str, fmts))} and read as {sorted(map(str, rfmts))}")
    if len(fmts) != 1 or fmts != rfmts:
        return
    size = struct.calcsize(next(iter(fmts)))
    for f, ev in rcalls:
        cx.fn(f)
        if ev.name == "read" and ev.args:
            cx.check(consts(ev.args[0]) == {size}, "C15.format", f"{f.qualname}.read", ev.where(),
                     f"an entry has {size} bytes")
        if ev.name == "seek" and len(ev.args) == 1:
            ok = all(t[0] == "binop" and t[1] == "Mult" and ("const", size) in t[2:4] for t in ev.args[0])
            cx.check(ok, "C15.format", f"{f.qualname}.seek", ev.where(), f"entry number i starts at {size} * i")
    f, r = rets.get("__len__", (None, set()))
    if f is not None:
        ok = all(t[0] == "binop" and t[1] in ("FloorDiv", "Div") and t[3] == ("const", size) for t in r) and r
        cx.check(ok, "C15.format", f"{f.qualname}", f.loc(), f"the number of entries is the size of the file divided by {size}")


# ---- positions -------------------------------------------------------------
def leaf(t, init):
    if t[0] in ("attr",):
        path = []
        x = t
        while x[0] == "attr":
            path.append(x[2])
            x = x[1]
        path.reverse()
        if x == ("self",) and len(path) == 1 and path[0] in init:
            return init[path[0]]
        if x[0] == "param":
            path.insert(0, x[1])
        path = [q for q in path if q != "self"]
        if len(path) >= 2:
            own = path[-2]
            own = {"shard_state": "state", "shard": "shard"}.get(own, own)
            if own in ("state", "shard"):
                return f"{own}.{path[-1]}"
    return None


def lin(t, init, sign=1, out=None):
    out = {} if out is None else out
    if t[0] == "binop" and t[1] in ("Add", "Sub"):
        lin(t[2], init, sign, out)
        lin(t[3], init, sign if t[1] == "Add" else -sign, out)
        return out
    if t[0] == "const" and isinstance(t[1], int):
        out["1"] = out.get("1", 0) + sign * t[1]
        return out
    if t[0] == "gio":
        q = lin(t[2], init)
        k = "gio(" + "+".join(f"{c}*{n}" for n, c in sorted(q.items(), key=str) if c) + ")"
        if not t[1]:
            k += "?"
        out[k] = out.get(k, 0) + sign
        return out
    q = leaf(t, init)
    if isinstance(q, dict):
        for n, c in q.items():
            out[n] = out.get(n, 0) + sign * c
        return out
    k = q or t
    out[k] = out.get(k, 0) + sign
    return out


def forms(v, init):
    r = set()
    for t in v:
        for x in alts(t):
            r.add(frozenset((n, c) for n, c in lin(x, init).items() if c))
    return r


class Pos(Monitor):
    """mon = True when the key of the member at hand is known to differ"""

    def __init__(self):
        self.ev = []

    def init(self):
        return None

    def inline(self, fi, recv, ip, stack):
        if fi.name in ("should_log", "worker_log", "get_itar_byte_offset", "open_itar"):
            return False
        return NotImplemented

    def result(self, ev, st, ip):
        if ev.kind == "call" and ev.name == "get_itar_byte_offset":
            a = list(ev.args) + [v for n, v in ev.kwargs.items()]
            path = next(iter(ev.args[0])) if ev.args else ("const", None)
            off = ev.args[1] if len(ev.args) > 1 else ev.kwargs.get("sample_offset", frozenset({("const", 0)}))
            ok = path[0] == "attr" and path[2] == "path"
            return ("gio", ok, next(iter(off)))
        return None

    def event(self, ev, st, ip):
        if ev.kind in ("store_attr", "call"):
            self.ev.append((ev, st))
        if ev.kind == "call" and ev.func == ("ext", "next"):
            return "next"
        if ev.kind == "catch" and str(ev.tag).startswith("StopIteration"):
            return "end"
        return NotImplemented


def fs(**kw):
    return frozenset((k.replace("__", "."), v) for k, v in kw.items())


def positions(p, cx):
    cx.rule("C15.position", "the byte range of a shard is looked up by its first sample and the sample after its last; the archive "
            "is opened at the saved byte position in it, and the next position is where the next sample starts (or the end)")
    c = p.cls("SingleShardReader")
    f = c.find_method("__init__")
    m = Pos()
    Interp(p, m).run(f, c)
    cx.fn(f)
    lo = frozenset({("gio(1*shard.offset)", 1)})
    hi = "gio(1*shard.count+1*shard.offset)"
    init = {}
    n = 0
    for ev, st in m.ev:
        if ev.kind == "store_attr" and ("self",) in ev.base:
            init.setdefault(ev.attr, set()).update(ev.value)
        elif ev.kind == "store_attr" and ev.attr == "byte_offset":
            n += 1
            cx.check(forms(ev.value, {}) == {lo}, "C15.position", "shard.byte_offset", ev.where(),
                     "the start of a shard is not looked up by the number of its first sample")
        elif ev.kind == "store_attr" and ev.attr == "byte_size":
            n += 1
            ok = {frozenset({(hi, 1), ("shard.byte_offset", -1)}), frozenset({(hi, 1), ("gio(1*shard.offset)", -1)})}
            cx.check(forms(ev.value, {}) <= ok, "C15.position", "shard.byte_size", ev.where(),
                     "the size of a shard does not reach from its first sample to the one after its last")
        elif ev.kind == "call" and ev.name == "open_itar":
            n += 1
            known = {a: _one(v) for a, v in init.items()}
            known = {a: v for a, v in known.items() if v is not None}
            a = ev.args[1] if len(ev.args) > 1 else ev.kwargs.get("byte_offset", frozenset())
            b = ev.args[2] if len(ev.args) > 2 else ev.kwargs.get("byte_size", frozenset())
            sub = {"shard.byte_offset", "gio(1*shard.offset)"}
            good = {frozenset({(s, 1), ("state.byte_offset", 1)}) for s in sub}
            cx.check(forms(a, known) <= good, "C15.position", "open.offset", ev.where(),
                     "the shard is not opened at its start plus the saved byte position")
            good = {frozenset({("shard.byte_size", 1), ("state.byte_offset", -1)})} | \
                {frozenset({(hi, 1), (s, -1), ("state.byte_offset", -1)}) for s in sub}
            cx.check(forms(b, known) <= good, "C15.position", "open.size", ev.where(),
                     "the shard is not opened up to its end")
    cx.floor("positions of the reader", n, 3)
    # values fixed at the start, in terms of the position saved then
    fixed = {}
    for a, v in init.items():
        q = _one(v)
        if q is not None and not (len(q) == 1 and a in ("shard_state",)):
            fixed[a] = {(k + "@start" if k == "state.byte_offset" else k): w for k, w in q.items()}
    f = c.find_method("read_next")
    m = Pos()
    Interp(p, m).run(f, c)
    cx.fn(f)
    k = 0
    for ev, st in m.ev:
        if ev.kind == "store_attr" and ev.attr == "byte_offset":
            k += 1
            got = set()
            for q in forms(ev.value, fixed):
                got.add(frozenset(("member" if isinstance(x, tuple) and x[0] == "attr" and x[2] == "offset" else x, w) for x, w in q))
            good = {frozenset({("member", 1), ("state.byte_offset@start", 1)}), frozenset({("shard.byte_size", 1)})}
            cx.check(got <= good, "C15.position", "next", ev.where(),
                     "the saved byte position is not where the next sample starts")
            if st.mon == "end":
                cx.check(got == {frozenset({("shard.byte_size", 1)})}, "C15.position", "last", ev.where(),
                         "after the last sample the saved byte position is not the end of the shard")
    cx.floor("updates of the byte position", k, 2)
    opener(p, cx)


def _one(v):
    """Linear form of an attribute with a single value."""
    r = forms(v, {})
    if len(r) != 1:
        return None
    q = dict(next(iter(r)))
    return q if all(isinstance(k, str) for k in q) else None


class Known(Monitor):
    """mon: values of the parameters known on the path"""

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind == "branch":
            got = set()
            for t in ev.cond:
                taken = ev.taken
                while t[0] == "not":
                    t, taken = t[1], not taken
                if t[0] == "param" and not taken:
                    got.add((t, 0))
                if t[0] == "cmp" and t[1] in ("Eq", "NotEq") and taken == (t[1] == "Eq"):
                    for a, b in ((t[2], t[3]), (t[3], t[2])):
                        if a[0] == "param" and b[0] == "const":
                            got.add((a, b[1]))
                if t[0] == "cmp" and t[2][0] == "param" and t[3] == ("const", 0) and (t[1], taken) in (("LtE", True), ("Gt", False)):
                    got.add((t[2], 0))      # positions are not negative
                if t[0] == "cmp" and t[2][0] == "param" and t[3] == ("const", 1) and (t[1], taken) in (("Lt", True), ("GtE", False)):
                    got.add((t[2], 0))
            return st.mon | got if got - st.mon else NotImplemented
        return NotImplemented


def lookup(p, cx):
    cx.rule("C15.lookup", "the position of a sample is the entry of its own number in the index; only the first one is known without it")
    n = 0
    for f in p.all_functions():
        if f.cls is not None or f.outer is not None or "TarIndexReader" not in ast.unparse(f.node):
            continue
        o = Interp(p, Known()).run(f, None)
        if not any(t[0] == "sub" for _, v, _ in o.ret for t in v):
            continue
        n += 1
        cx.fn(f)
        nums = set()
        for st, v, node in o.ret:
            for t in v:
                if t[0] == "sub":
                    nums.add(t[2])
                    cx.check(t[2][0] == "param", "C15.lookup", f"{f.qualname} entry", f.loc(node), "another entry than that of the sample is read")
        for st, v, node in o.ret:
            for t in v:
                if t[0] == "const":
                    ok = t[1] == 0 and any((x, 0) in st.mon for x in nums)
                    cx.check(ok, "C15.lookup", f"{f.qualname} first", f.loc(node),
                             "a position is returned without the index for other samples than the first one")
    if not n:
        cx.notes.append("no function looking up positions in the index was found")


class Open(Monitor):
    def __init__(self):
        self.tars = []
        self.subs = []

    def inline(self, fi, recv, ip, stack):
        if fi.cls is not None and fi.cls.name in ("EPath", "SubFileReader", "RetryReadStream"):
            return False
        return NotImplemented

    def result(self, ev, st, ip):
        if ev.kind == "call" and ev.func and ev.func[0] == "cls":
            n = ev.func[1].split(".")[-1]
            if n in ("SubFileReader", "RetryReadStream"):
                return ("tok", n)
        return None

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.func == ("ext", "tarfile.open"):
            self.tars.append(ev)
        if ev.kind == "call" and ev.func and ev.func[0] == "cls" and ev.func[1].split(".")[-1] == "SubFileReader":
            self.subs.append(ev)
        return NotImplemented


def opener(p, cx):
    lookup(p, cx)
    cx.rule("C15.range", "a shard opened with a byte position or size is read through that range, and the range begins there")
    f = next((x for x in p.all_functions() if x.name == "open_itar" and x.cls is None), None)
    if f is None:
        raise AnalysisBroken("open_itar not found")
    cx.fn(f)
    c = p.cls("SubFileReader")
    params = [a.arg for a in c.find_method("__init__").all_params()][1:]
    for what, bind in (("size", {"byte_size": ("tok", "size")}),
                       ("offset", {"byte_size": NONE, "byte_offset": ("const", 512)})):
        m = Open()
        Interp(p, m).run(f, None, bind={k: frozenset({v}) for k, v in bind.items()})
        if not m.tars:
            raise AnalysisBroken("open_itar opens no archive")
        bad = None
        for ev in m.tars:
            obj = ev.kwargs.get("fileobj", frozenset())
            if not obj or any(("tok", "SubFileReader") not in set(subterms(t)) for t in obj):
                bad = ev
        cx.check(bad is None, "C15.range", f"open_itar.{what}", bad.where() if bad else f.loc(),
                 f"the archive is opened without regard to the byte {what}")
        for ev in m.subs:
            a = dict(zip(params, ev.args))
            a.update(ev.kwargs)
            off = bind.get("byte_offset", ("param", "byte_offset"))
            cx.check(a.get("offset") == frozenset({off}), "C15.range", f"open_itar.{what}.begin", ev.where(),
                     "the range does not begin at the byte position")
            sz = a.get("size", frozenset())
            if what == "size":
                ok = sz == frozenset({("tok", "size")})
            else:
                ok = len(sz) == 1
                for t in sz:
                    q = lin(t, {})
                    rest = [k for k in q if not isinstance(k, str)]
                    ok = ok and q.get("1") == -512 and len(rest) == 1 and q[rest[0]] == 1 and rest[0][0] == "call"
            cx.check(ok, "C15.range", f"open_itar.{what}.size", ev.where(), "the range does not end at the end of the shard")
