"""C30: excluded shards and samples are left out wherever a split is read."""
import ast

from ..flow import Interp, Monitor, V, subterms
from ..model import AnalysisBroken
from .keys import strip
from .members import Members, alts
from .claims import stored

SELF = ("self",)
LOADER, READER, META = "WebdatasetSampleLoaderDataset", "SingleShardReader", "WebdatasetMeta"
EXCLUDE = ("attr", ("tok", "WebdatasetSplits"), "exclude")
PARTS = ("attr", ("tok", "WebdatasetSplits"), "split_parts")


# ---- reading the definition of the split -----------------------------------
class Split(Monitor):
    """mon = (the shard name at hand is excluded: None, True, False; the excluded entry at hand is one of a sample: None, True, False)"""

    def __init__(self, p):
        self.p = p
        self.names = []
        self.used = set()

    def init(self):
        return (None, None)

    def inline(self, fi, recv, ip, stack):
        if fi.module.name.endswith("typed_converter"):
            return False
        return NotImplemented

    def result(self, ev, st, ip):
        if ev.callee is not None and ev.callee.module.name.endswith("typed_converter"):
            for a in list(ev.args or ()) + list((ev.kwargs or {}).values()):
                for t in a:
                    if t[0] == "cls":
                        return ("tok", t[1].split(".")[-1])
        if ev.func and ev.func[0] == "ext" and ev.func[1] in ("set", "frozenset", "list", "tuple", "sorted", "iter") and ev.args and \
                len(ev.args[0]) == 1:
            # a copy
            t = next(iter(ev.args[0]))
            if t[0] == "obj":
                return t
        return None

    @staticmethod
    def expanded(t, src):
        """Is it one of the names an entry of the list stands for?"""
        return t[0] == "elem" and t[1][0] == "call" and t[1][1] == ("ext", "braceexpand.braceexpand") and len(t[1][2]) == 1 and \
            src(t[1][2][0])

    @staticmethod
    def entry(t):
        return t == ("elem", EXCLUDE)

    @staticmethod
    def part(t):
        return t[0] == "elem" and t[1][0] == "sub" and t[1][1] == PARTS and t[1][2][0] == "param"

    def shard(self, t):
        return self.expanded(t, self.part)

    def excluded(self, t):
        return self.expanded(t, self.entry)

    def elements(self, t, st):
        h = st.heap.get(t)
        return {x for _, vs in h[1] for x in vs} if h is not None else None

    def collection(self, t, st, of):
        """Does the collection hold elements of the kind, unfiltered?"""
        if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("set", "frozenset", "list", "tuple", "sorted") and t[2]:
            return self.collection(t[2][0], st, of)
        els = self.elements(t, st)
        if els is None:
            return False
        return bool(els) and all(of(x) for x in els)

    def truth(self, t, st):
        """Value of a condition on the names at hand"""
        name, entry = st.mon
        if t[0] == "not":
            v = self.truth(t[1], st)
            return None if v is None else not v
        if t[0] == "cmp" and t[1] in ("In", "NotIn"):
            v = None
            if self.shard(t[2]) and name is not None and self.all_excluded(t[3], st):
                v = name
            elif self.excluded(t[2]) and t[3] == EXCLUDE:
                v = None
            elif t[2] == ("const", "/") and self.excluded(t[3]):
                v = entry
            return v if v is None else v == (t[1] == "In")
        return None

    def all_excluded(self, t, st):
        """A collection of all excluded names (a filtered one lacks those of the other kind)"""
        if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("set", "frozenset", "list", "tuple", "sorted") and t[2]:
            return self.all_excluded(t[2][0], st)
        h = st.heap.get(t)
        if h is None:
            return False
        els = {x for _, vs in h[1] for x in vs}
        if not all(self.excluded(x) for x in els):
            return False
        if isinstance(h[0], tuple) and h[0][0] == "filter":
            # only the entries of shards matter here
            self.used.add(t)
        return True

    def event(self, ev, st, ip):
        name, entry = st.mon
        k = ev.kind
        if k == "next":
            new = set()
            for t in ev.value or ():
                els = self.elements(t, st)
                if els is not None and not els and t[0] == "obj" and st.heap[t][0] != "any":
                    return []
                if self.shard(("elem", t)) or els and any(self.shard(x) for x in els):
                    new.add("name")
                if self.excluded(("elem", t)) or els and any(self.excluded(x) for x in els):
                    new.add("entry")
            if "entry" in new:
                return [(name, True), (name, False)]
            if "name" in new and name is None:
                return [(True, entry), (False, entry)]
        if k == "branch":
            vs = {self.truth(t, st) for t in ev.cond or ()}
            if len(vs) == 1 and None not in vs:
                return NotImplemented if vs.pop() == ev.taken else []
            if entry is True and any(self.excluded(x) for t in ev.cond or () for x in subterms(t)):
                return (name, "some")       # chosen among the excluded samples
        if k == "newrec":
            for t in [ev.result] if isinstance(ev.result, tuple) else ev.result or ():
                h = st.heap.get(t)
                if h is not None and h[0] == "rec:ShardInfo":
                    self.names.append((ev, st, dict(h[1]).get("name", frozenset())))
        return NotImplemented


def split(p, cx):
    c = p.cls(META, must=True)
    f = c.find_method("from_config")
    if f is None:
        raise AnalysisBroken(f"{META}.from_config not found")
    cx.fn(f)

    mon = Split(p)
    ip = Interp(p, mon)
    ip.folds = ip.bool_branches = True
    o = ip.run(f, c)
    if not mon.names or not o.ret:
        raise AnalysisBroken(f"{f.qualname}: the shards of the split are not found")
    bad = None
    for ev, st, vs in mon.names:
        for t in vs:
            if not left_out(mon, t, st):
                bad = ev
    cx.check(bad is None, "C30.shards", f.qualname, (bad.loc() if bad else f.loc()), "an excluded shard is part of the split")
    ok, seen = True, False
    n = 0
    for st, v, _ in o.ret:
        for t in v:
            h = st.heap.get(t)
            if h is None or not str(h[0]).startswith("rec:"):
                ok = False
                continue
            n += 1
            for x in dict(h[1]).get("sample_excludes", frozenset()) or ():
                if st.mon[1] is not True:
                    ok &= st.mon[1] != "some"
                    continue
                seen = True
                els = mon.elements(x, st)
                if x[0] == "binop" or els is None:
                    ok &= keeps(mon, x, st)
                else:
                    ok &= bool(els) and all(mon.excluded(e) for e in els)
    cx.check(ok and n and seen, "C30.samples", f.qualname, f.loc(), "an excluded sample is not among the excluded samples of the split")


def keeps(mon, t, st):
    if t[0] == "binop" and t[1] == "Sub":
        return keeps(mon, t[2], st)
    if t[0] == "binop" and t[1] == "BitOr":
        return keeps(mon, t[2], st) or keeps(mon, t[3], st)
    els = mon.elements(t, st)
    return bool(els) and all(mon.excluded(e) for e in els)


def left_out(mon, t, st):
    """Is a shard of this name none of the excluded ones?"""
    if t[0] == "any":
        return all(left_out(mon, x, st) for x in t[1])
    if mon.shard(t):
        return st.mon[0] is False
    if t[0] == "elem":
        return without(mon, t[1], st)
    return False


def without(mon, t, st):
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("sorted", "list", "tuple", "set") and t[2]:
        return without(mon, t[2][0], st)
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "difference" and t[2]:
        return mon.all_excluded(t[2][0], st)
    if t[0] == "binop" and t[1] == "Sub":
        return mon.all_excluded(t[3], st) or without(mon, t[2], st)
    els = mon.elements(t, st)
    if els is not None:
        return all(left_out(mon, x, st) for x in els)
    return False


# ---- members of a shard -----------------------------------------------------
def flat(t):
    """Parts of a text put together"""
    if t[0] == "fstr":
        return [y for x in t[1] for y in flat(x)]
    if t[0] == "binop" and t[1] == "Add":
        return flat(t[2]) + flat(t[3])
    if t[0] == "call" and t[1] == ("ext", "str") and len(t[2]) == 1:
        return flat(t[2][0])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and t[1][1][0] == "const" and t[2] and t[2][0][0] == "tuple":
        out = []
        for i, x in enumerate(t[2][0][1]):
            out += ([t[1][1]] if i else []) + flat(x)
        return out
    if t[0] == "binop" and t[1] == "Mod" and t[2] == ("const", "%s/%s") and t[3][0] == "tuple" and len(t[3][1]) == 2:
        return flat(t[3][1][0]) + [("const", "/")] + flat(t[3][1][1])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "format" and t[1][1] == ("const", "{}/{}") and len(t[2]) == 2:
        return flat(t[2][0]) + [("const", "/")] + flat(t[2][1])
    return [t]


class Skip(Members):
    """mon = (the member at hand: "start", "ex"cluded, "ok", "none", ..., attributes set from it since it was read,
    whether it belongs to another sample than the one before, how often the position was advanced since it was read)"""

    def __init__(self, p, aliases, attr):
        super().__init__(p, aliases)
        self.attr = attr
        self.bad = {}

    def init(self):
        return ("start", frozenset(), None, 0)

    def full(self, t, st):
        """Name of the shard, slash, key: as exclusions are written"""
        if t[0] == "any":
            return all(self.full(x, st) for x in t[1])
        if t[0] == "attr" and t[1] == SELF and t[2] in self.alias.get("full", ()):
            return t[2] in st.mon[1]
        parts = flat(t)
        if len(parts) != 3 or parts[1] != ("const", "/"):
            return False
        if not (parts[0][0] == "attr" and parts[0][2] == "name" and not self.member_name(parts[0]) or parts[0][0] == "param"):
            return False
        return self.key(parts[2], st)

    def key(self, t, st):
        if t[0] == "any":
            return all(self.key(x, st) for x in t[1])
        if t[0] == "attr" and t[1] == SELF:
            return t[2] in self.alias.get("key", ()) and t[2] in st.mon[1]
        return self.part(t) == 1

    def loaded(self, t, st, ip):
        if t[0] == "attr" and t[1] == SELF and t[2] not in st.mon[1] and \
                t[2] in set(self.alias.get("full", ())) | set(self.alias.get("key", ())):
            return ("tok", "name of an earlier member")
        return t

    def fetched(self, ev):
        return ev.kind == "next" and any(self.is_stream(t) for t in ev.value or ()) or \
            ev.kind == "call" and ev.func == ("ext", "next") and ev.args and any(self.is_stream(t) for t in ev.args[0])

    def event(self, ev, st, ip):
        now, fresh, new, n = st.mon
        k = ev.kind
        if self.fetched(ev):
            self.fetches += 1
            self.done(st.mon, ev)
            return [("ex", frozenset(), True, 0), ("ex", frozenset(), False, 0), ("ok", frozenset(), None, 0)]
        if k == "exhausted" and any(self.is_stream(t) for t in ev.value or ()) or \
                k == "catch" and ev.tag and str(ev.tag).startswith("StopIteration"):
            return ("none", frozenset(), None, 0)
        if k == "store_attr" and SELF in ev.base:
            for t in ev.value:
                self.stores.setdefault(ev.attr, set()).add(t)
            good = bool(ev.value) and now != "none" and all(self.full(t, st) or self.key(t, st) for t in ev.value)
            return (now, fresh | {ev.attr} if good else fresh - {ev.attr}, new, n)
        if k == "store_attr" and now in ("ex", "EX") and ev.attr == "offset":
            by = ev.index if ev.op == "Add" else None
            if ev.op is None:
                by = {t[3] if t[2][0] == "attr" else t[2] for t in ev.value if t[0] == "binop" and t[1] == "Add"}
            by = {self.amount(t, st) for t in by or ()}
            return (now, fresh, new, n + by.pop() if len(by) == 1 and None not in by else 9)
        if k == "branch":
            vs = {self.truth(t, st) for t in ev.cond or ()}
            if len(vs) == 1 and None not in vs and vs.pop() != ev.taken:
                return []
            if now == "ex" and any(self.asks(t, st) for t in ev.cond or ()):
                return ("EX", fresh, new, n)
        if k == "call" and ev.name == "extractfile":
            self.accepts += 1
            if now in ("ex", "EX"):
                self.bad.setdefault("content", (ev, "the content of an excluded member becomes part of a sample"))
        return NotImplemented

    def truth(self, t, st):
        if t[0] == "not":
            v = self.truth(t[1], st)
            return None if v is None else not v
        if self.given(t) or t[0] == "call" and t[1] in (("ext", "len"), ("ext", "bool")) and len(t[2]) == 1 and self.given(t[2][0]):
            return True if st.mon[0] in ("ex", "EX") else None      # there is one
        if t[0] == "cmp" and t[3] == ("const", 0) and t[1] in ("Gt", "NotEq", "Eq", "LtE"):
            v = self.truth(t[2], st)
            return v if v is None else v == (t[1] in ("Gt", "NotEq"))
        if t[0] == "cmp" and t[1] in ("In", "NotIn") and self.given(t[3]):
            now = st.mon[0]
            if now in ("ex", "EX", "ok") and self.full(t[2], st):
                return (now != "ok") == (t[1] == "In")
        if t[0] == "cmp" and t[1] in ("Eq", "NotEq") and st.mon[2] is not None:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if self.earlier(a) and (self.key(b, st) or self.full(b, st)):
                    return st.mon[2] == (t[1] == "NotEq")
        return None

    def amount(self, t, st):
        while t[0] == "call" and t[1] in (("ext", "int"), ("ext", "bool")) and len(t[2]) == 1:
            t = t[2][0]
        if t[0] == "const" and isinstance(t[1], int):
            return int(t[1])
        v = self.truth(t, st)
        return None if v is None else int(v)

    def asks(self, t, st):
        while t[0] == "not":
            t = t[1]
        return t[0] == "cmp" and t[1] in ("In", "NotIn") and self.given(t[3]) and self.full(t[2], st)

    def earlier(self, t):
        return t == ("tok", "name of an earlier member") or t[0] == "any" and all(self.earlier(x) for x in t[1])

    def done(self, mon, ev):
        now, fresh, new, n = mon
        if now == "EX":
            if n != (1 if new else 0):
                self.bad.setdefault("counted", (ev, "an excluded sample is not counted exactly once in the position, so that the "
                                                    "ones behind it get the number of another one"))

    def given(self, t):
        return t == ("attr", SELF, self.attr)


def skipped(p, cx, attr):
    c = p.cls(READER, must=True)
    entries = [f for f in c.methods.values() if any(isinstance(n, ast.Attribute) and n.attr == "extractfile" for n in ast.walk(f.node))]
    called = {n.attr for m in c.methods.values() for n in ast.walk(m.node)
              if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"}
    for f in list(entries):
        for g in c.methods.values():
            if g not in entries and any(isinstance(n, ast.Attribute) and n.attr == f.name for n in ast.walk(g.node)):
                entries.append(g)
    n = 0
    for f in entries:
        if f.name in called:
            continue        # seen from its callers
        al = {}
        for i in range(5):
            m = Skip(p, al, attr)
            ip = Interp(p, m)
            o = ip.run(f, c)
            new = {k: set() for k in ("member", "key", "ext", "full")}
            for a, vals in m.stores.items():
                vals = {x for t in vals for x in alts(t)} - {("const", None)}
                if not vals:
                    continue
                if all(m.is_member(t) for t in vals):
                    new["member"].add(a)
                if all(m.part(t) == 1 for t in vals):
                    new["key"].add(a)
                if all(m.part(t) == 2 for t in vals):
                    new["ext"].add(a)
                if all(len(flat(t)) == 3 and m.part(flat(t)[2]) == 1 and flat(t)[1] == ("const", "/") for t in vals):
                    new["full"].add(a)
            if new == al:
                break
            al = new
        if not m.fetches or not m.accepts:
            continue
        n += 1
        cx.fn(f)
        for what, (ev, msg) in m.bad.items():
            cx.bad("C30.skipped", f"{f.qualname}: {what}", ev.loc(), msg)
        if not m.bad:
            cx.ok("C30.skipped", f"{f.qualname}: content", f.loc())
        ends = {st.mon[0] for st, *_ in o.ret}
        cx.check(not ends & {"ex", "EX"}, "C30.skipped", f"{f.qualname}: pending", f.loc(),
                 "an excluded member is at hand when a sample is handed out")
    cx.floor("functions reading members", n, 1)


# ---- handing the exclusions on ----------------------------------------------
class Made(Monitor):
    def __init__(self):
        self.made = []

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.func and ev.func[0] == "cls" and ev.tag != "inlined":
            self.made.append((ev, st))
        return NotImplemented


def constructions(p, cls):
    """(function, event, state) of all constructions of a class in the package"""
    out = []
    for f in p.all_functions():
        if f.outer is not None or not any(isinstance(n, ast.Name) and n.id == cls or isinstance(n, ast.Attribute) and n.attr == cls
                                          for n in ast.walk(f.node)):
            continue
        if f.cls is not None and f.cls.name == cls:
            continue
        m = Made()
        Interp(p, m).run(f, f.cls)
        out += [(f, ev, st) for ev, st in m.made if ev.func[1].split(".")[-1] == cls]
    return out


def kept(p, cx, c, param):
    """Attribute in which the parameter is kept, unchanged"""
    f = c.find_method("__init__")
    names = [a.arg for a in f.all_params()][1:]
    st = stored(p, c, f)
    at = [a for a, vals in st.items() if vals_of([v for v, _ in vals]) == {("param", param)}]
    if param not in names or not at:
        return None, names.index(param) if param in names else None
    a = at[0]
    changed = [g for g in c.methods.values() if g is not f for n in ast.walk(g.node)
               if isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, (ast.Store, ast.Del)) or
               isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and
               n.func.value.attr == a and n.func.attr in ("clear", "discard", "remove", "pop", "difference_update", "intersection_update")]
    cx.check(not changed, "C30.given", f"{c.name}.{a}", f.loc(), f"{c.name} changes the exclusions it was given")
    return a, names.index(param)


def vals_of(v):
    out = set()
    for x in v:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            x = strip(x)
            if x[0] == "call" and x[1] in (("ext", "set"), ("ext", "frozenset")) and len(x[2]) == 1:
                x = x[2][0]
            out.add(x)
        else:
            out |= vals_of(x)
    return out


def given(p, cx):
    loader, reader = p.cls(LOADER, must=True), p.cls(READER, must=True)
    ra, ri = kept(p, cx, reader, "exclude")
    la, li = kept(p, cx, loader, "exclude")
    cx.check(ra is not None, "C30.given", READER, reader.methods["__init__"].loc(), "the reader of a shard does not keep its exclusions")
    cx.check(la is not None, "C30.given", LOADER, loader.methods["__init__"].loc(), "the loader of samples does not keep its exclusions")
    if ra is None or la is None:
        return ra
    sites = constructions(p, READER)
    for f, ev, st in sites:
        cx.fn(f)
        v = ev.arg(ri, "exclude")
        ok = v is not None and vals_of(v) == {("attr", SELF, la)} and f.cls is not None and f.cls.issubclass(loader)
        cx.check(ok, "C30.given", f"{READER} in {f.qualname}", ev.loc(), "a shard is read without the exclusions of the split")
    cx.floor("constructions of readers", len(sites), 1)
    sites = constructions(p, LOADER)
    for f, ev, st in sites:
        cx.fn(f)
        v = ev.arg(li, "exclude")
        owner = f.cls
        ok = v is not None and owner is not None
        srcs = vals_of(v) if ok else set()
        ok = ok and len(srcs) == 1 and all(t[0] == "attr" and t[1] == SELF for t in srcs)
        if ok:
            ok = origin(p, cx, owner, next(iter(srcs))[2])
        cx.check(ok, "C30.given", f"{LOADER} in {f.qualname}", ev.loc(),
                 "samples are loaded without the exclusions of the split")
    cx.floor("constructions of loaders", len(sites), 2)
    return ra


class Origin(Monitor):
    """mon = what all inner datasets are known to agree on"""

    def __init__(self, attr):
        self.attr = attr
        self.vals = set()
        self.agreed = []

    def init(self):
        return False

    def inline(self, fi, recv, ip, stack):
        if fi.cls is not None and fi.cls.name == META:
            return False
        return NotImplemented

    def event(self, ev, st, ip):
        if ev.kind == "store_attr" and ev.attr == self.attr and SELF in ev.base:
            self.vals |= {(t, ev.loc()) for t in ev.value}
        if ev.kind == "branch" and ev.taken is not None:
            for t in ev.cond or ():
                if self.equal(t, ev.taken, st):
                    return True
        return NotImplemented

    def equal(self, t, pos, st):
        """Does it say that all inner datasets have the same exclusions?"""
        if t[0] == "not":
            return self.equal(t[1], not pos, st)
        if t[0] == "call" and t[1] in (("ext", "all"), ("ext", "any")) and len(t[2]) == 1:
            if (t[1] == ("ext", "all")) != pos:
                return False
            h = st.heap.get(t[2][0])
            if h is None or not (isinstance(h[0], tuple) and h[0][0] == "map"):
                return False
            ok = all(rest(i) for i in h[0][1:])
            return ok and all(self.same(x, pos) for _, vs in h[1] for x in vs)
        return False

    def same(self, t, pos):
        if t[0] == "not":
            return self.same(t[1], not pos)
        if t[0] == "cmp" and t[1] in ("Eq", "NotEq") and (t[1] == "Eq") == pos:
            ex = [set(alts(x)) for x in t[2:4]]
            return all(about(x, "sample_excludes") or x == ("attr", SELF, self.attr) for xs in ex for x in xs) and \
                any(all(x[1][0] in ("elem", "val") for x in xs) for xs in ex)
        return False


def rest(t):
    """All datasets, or all but the first"""
    while t[0] == "call" and t[1] in (("ext", "list"), ("ext", "tuple"), ("ext", "iter")) and t[2]:
        t = t[2][0]
    if t[0] == "slice":
        return t[2] in ("1:", ":")
    if t[0] == "any":
        return all(rest(x) for x in t[1])
    return True


def about(t, name):
    return t[0] == "attr" and t[2] == name


class Looped(Origin):
    """A loop comparing them one by one"""

    def init(self):
        return (False, ())

    def event(self, ev, st, ip):
        done, loops = st.mon
        k = ev.kind
        if k == "loop_enter" and isinstance(ev.node, ast.For):
            return (done, loops + ((id(ev.node), True, True),))
        if k == "next" and loops and loops[-1][0] == id(ev.node):
            i, ok, here = loops[-1]
            return st.copy(mon=(done, loops[:-1] + ((i, ok, False),)),
                           facts=frozenset(x for x in st.facts if not any(y[0] == "elem" for y in subterms(x[0]))))
        if k == "loop_back" and loops and loops[-1][0] == id(ev.node):
            i, ok, here = loops[-1]
            return (done, loops[:-1] + ((i, ok and here, True),))
        if k == "exhausted" and loops and loops[-1][0] == id(ev.node):
            i, ok, here = loops[-1]
            if ok and ev.value and all(rest(t) for t in ev.value) and ("cmp", i) in self.seen:
                return (True, loops)
            return NotImplemented
        if k == "loop_exit" and loops and loops[-1][0] == id(ev.node):
            return (done, loops[:-1])
        if k == "branch":
            for t in ev.cond or ():
                if self.equal(t, ev.taken, st):
                    return (True, loops)
                if loops and self.same(t, ev.taken):
                    i, ok, here = loops[-1]
                    self.seen.add(("cmp", i))
                    return (done, loops[:-1] + ((i, ok, True),))
        if k == "store_attr" and ev.attr == self.attr and SELF in ev.base:
            self.vals |= {(t, ev.loc()) for t in ev.value}
        return NotImplemented


def origin(p, cx, c, attr):
    """Do the exclusions kept by a factory come from the definition of its split?"""
    f = next((x.methods["__init__"] for x in c.mro() if "__init__" in x.methods and
              any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) for n in ast.walk(x.methods["__init__"].node))), None)
    if f is None:
        return False
    cx.fn(f)
    others = [g for x in c.mro() for g in x.methods.values() if g is not f for n in ast.walk(g.node)
              if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, (ast.Store, ast.Del))]
    if others:
        return False
    m = Looped(attr)
    m.seen = set()
    ip = Interp(p, m)
    o = ip.run(f, c)
    ok = bool(m.vals) and bool(o.ret)
    for t, where in m.vals:
        t = strip(t)
        while t[0] == "call" and t[1] in (("ext", "set"), ("ext", "frozenset")) and len(t[2]) == 1:
            t = strip(t[2][0])
        if not about(t, "sample_excludes"):
            if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "union":
                continue
            return False
        b = t[1]
        fn = ip.func_of(b[1]) if b[0] == "call" and b[1][0] in ("func", "bm") else None
        if fn is not None and fn.cls is not None and fn.cls.name == META:
            names = dict(b[3])
            ok &= names.get("split_part") == ("param", "split_part") or ("param", "split_part") in b[2]
            ok &= ("param", "path") in b[2] or names.get("path") == ("param", "path")
        elif any(x[0] == "param" for x in subterms(b)):
            ok &= all(st.mon[0] for st, *_ in o.ret)
        else:
            ok = False
    return ok


def check(p, cx):
    cx.rule("C30.shards", "no shard named in the exclusions (after brace expansion) is part of a split")
    cx.rule("C30.samples", "every excluded sample is among the exclusions of the split")
    cx.rule("C30.given", "whoever reads a shard of the split gets its exclusions, unchanged; joined datasets agree on them")
    cx.rule("C30.skipped", "no member of an excluded sample becomes part of a sample")
    split(p, cx)
    attr = given(p, cx)
    skipped(p, cx, attr or "exclude")
