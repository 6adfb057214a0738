"""C33: every sample taken from an inner dataset is handed out, kept or given to a user function; groups are
complete and nothing is left behind at the end."""
import ast

from ..flow import Interp, Monitor, subterms
from ..model import AnalysisBroken
from . import arith, keys
from . import state as S
from .counting import DELTAS
from .resume import Phase, own_attr

ADDS = {"append", "extend", "insert", "appendleft", "add"}
POPS = {"pop", "popleft"}
LOOKS = {"len", "isinstance", "hasattr", "print", "id", "type", "repr", "str", "bool", "get_sample_restore_key", "iter"}
SIZES = frozenset(range(4))
MEMBER = "member"
GROUP = "group"


def is_buffer(ty):
    """A type of buffers of samples which are saved."""
    while ty and ty[0] in ("list", "dict"):
        ty = ty[1]
    return bool(ty) and ty[0] == "cls" and ty[1].find_method("append") is not None and ty[1].find_method("save_state") is not None


def own_iterators(c):
    """Attributes iterators are kept in."""
    res = set()
    for x in c.mro():
        for f in x.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "iter":
                    res |= {t.attr for t in n.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"}
    return res


def plain(x, taken):
    """The value a condition tests, and how the branch is taken for it."""
    while True:
        if x[0] == "not" or x[0] == "unop" and x[1] == "Not":
            x, taken = x[-1], not taken
        elif x[0] == "call" and x[1] == ("ext", "bool") and len(x[2]) == 1:
            x = x[2][0]
        elif x[0] == "cmp" and x[1] in ("Is", "Eq", "IsNot", "NotEq") and x[3][0] == "const" and isinstance(x[3][1], bool):
            if (x[1] in ("Is", "Eq")) != x[3][1]:
                taken = not taken
            x = x[2]
        else:
            return x, taken


class Takes(Phase):
    """mon = (inner dataset ended, drop_last if known, what is pending: frozenset of (key, status), what is known of sizes:
    frozenset of (keys, length minus wanted size))

    Keys: "sample" (fetched: True), the name of a buffer or list of the dataset, ("obj", list), "member" (buffers of the members of
    a collection); status "full" (has samples not handed out) or "read" (handed out, still in there)."""

    names = True

    def __init__(self, k, receivers=frozenset()):
        super().__init__(k)
        self.fns = keys.user_fn_attrs(k.cls)
        self.buffers = {a for a in set(k.ds_attrs) | set(k.touched) if is_buffer(k.p.attr_type(k.cls, a))}
        self.lists = {a for a in k.adv if a not in k.ds_attrs and a not in self.buffers}
        self.known = receivers
        self.receivers = set(receivers)
        self.wrong = {}
        self.kept = {}
        self.out = {}
        self.where = {}
        self.fetches = 0
        self.passes = False   # the inner dataset as a whole is given on
        self.iters = own_iterators(k.cls)
        self.keeps = k.helper and is_buffer(("cls", k.cls))
        self.may_drop = "drop_last" in {a for c in k.cls.mro() for a in c.annots} or k.p.attr_type(k.cls, "drop_last") is not None

    def init(self):
        held = {a: "full" for a in self.known if isinstance(a, str)}
        return (False, None, frozenset(held.items()), frozenset())

    def draws(self, t):
        if t[0] == "attr" and own_attr(t) in self.buffers:
            return False
        if t[0] == "attr" and t[1] == ("self",) and t[2] in self.iters:
            return True
        if t[0] == "gen":
            fi, _, recv, args, kwargs, node = self.ip.gen_parts(t, self.st)
            return any(self.draws(x) for v in list(args) + list((kwargs or {}).values()) for x in v) or any(
                isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in self.k.ds_attrs
                and n.attr not in self.buffers for n in ast.walk(fi.node))
        if t[0] == "call" and (own_attr(t[1]) in self.fns and t[1][0] == "attr" or self.name(t[1]) == "restore_sample"):
            return False
        return super().draws(t)

    def name(self, f):
        if f[0] == "attr":
            return f[2]
        fi = self.ip.func_of(f) if f[0] == "bm" else None
        return fi.name if fi is not None else None

    # -------------------------------------------------- containers
    def slot_of_others(self, t):
        """A slot of a list by worker which is not the one of this worker."""
        return t[0] == "sub" and any(x[0] == "index" for x in subterms(t[2]))

    def own_slot(self, t, st):
        """May this slot of a saved list, by an index over all workers, be the one of this worker?"""
        if t[0] != "sub" or t[1][0] != "attr" or t[1][1] != ("self",) or t[1][2] not in self.lists or t[2][0] != "index" \
                or t[2][1][0] != "call" or len(t[2][1][2]) != 1:
            return False
        return dict(st.mon[2]).get("other") is not True

    def key(self, t):
        a = own_attr(t)
        if a in self.buffers and t[0] == "attr":
            return a
        if a in self.lists and (t[0] == "attr" and t[1] == ("self",) or t[0] == "sub" and t[1] == ("attr", ("self",), a)):
            return None if self.slot_of_others(t) else a
        if t[0] == "obj":
            return GROUP if t in self.known else ("obj", t)
        if t[0] in ("attr", "call"):
            if t[0] == "attr" and t[1] == ("self",):
                return None
            if is_buffer(self.ip.type_of(t)) or t[0] == "call" and t[1][0] == "cls" and is_buffer(("cls", self.ip.cls_of(t))):
                return MEMBER
            if t[0] == "attr" and t[2] in self.members:
                return MEMBER
        return None

    def keys(self, v):
        return {self.key(t) for x in v or () for t in arith.spread(x)} - {None}

    def fetched(self, t):
        if t[0] == "any":
            return any(self.fetched(x) for x in t[1])
        if t[0] == "elem":
            return self.draws(t[1])
        if t[0] == "sub" and t[1][0] == "elem" and t[1][1][0] == "call" and t[1][1][1] == ("ext", "zip"):
            return True
        return t[0] == "call" and t[1] == ("ext", "next") and len(t[2]) > 0 and self.draws(t[2][0])

    def direct(self, v):
        return any(self.fetched(t) for t in v or ())

    def asks(self, t):
        return t[0] == "call" and t[1][0] == "attr" and own_attr(t[1]) in self.fns and any(self.fetched(x) for a in t[2] for x in arith.spread(a))

    def itself(self, v):
        """Is this the sample, or what the user's function made of it?"""
        return any(self.fetched(x) or x[0] == "call" and own_attr(x[1]) in self.fns and any(self.fetched(z) for a in x[2] for z in arith.spread(a))
                   for t in v or () for y in arith.spread(t) for x in (y[1] if y[0] == "tuple" else (y,)))

    def within(self, v, st, depth=0):
        """Is the sample (part of) this?"""
        for t in v or ():
            for x in subterms(t):
                if self.fetched(x):
                    return True
                if x[0] == "obj" and depth < 3 and any(self.within(y, st, depth + 1) for _, y in st.heap.get(x, (None, ()))[1]):
                    return True
        return False

    # -------------------------------------------------- bookkeeping
    @staticmethod
    def put(mon, key, status, forget=True):
        held = dict(mon[2])
        if status is None:
            held.pop(key, None)
        else:
            held[key] = status
        ds = mon[3]
        if forget:
            ds = frozenset((k, d) for k, d in ds if key not in k)
        return mon[:2] + (frozenset(held.items()), ds)

    def bad(self, what, ev):
        self.wrong.setdefault((what, ev.loc()), (what, ev))

    @staticmethod
    def group(ks):
        return frozenset(GROUP if isinstance(k, tuple) else k for k in ks)

    def seen(self, table, mon, key=None):
        if mon[0]:
            return
        for ks, d in mon[3]:
            if key is None or key in ks:
                g = self.group(ks)
                table[g] = table.get(g, frozenset()) | d

    def fetch(self, ev, st):
        mon = st.mon
        self.fetches += 1
        held = dict(mon[2])
        if held.get("sample"):
            self.bad("a sample is fetched while the one before was neither handed out, kept nor given to a user function", ev)
        if any(isinstance(k, tuple) and k[0] == "old" for k in held):
            self.bad("a group of samples is replaced by an empty one before it was handed out", ev)
            held = {k: v for k, v in held.items() if not (isinstance(k, tuple) and k[0] == "old")}
        self.seen(self.kept, mon)
        if MEMBER in self.known:
            held[MEMBER] = "full"
        held["sample"] = True
        return (False, mon[1], frozenset(held.items()), frozenset((k, d) for k, d in mon[3] if MEMBER not in k))

    def counts(self, key):
        """Does the container get samples of the inner dataset?"""
        return key == GROUP or key in self.known

    @staticmethod
    def full_size(mon, key):
        """Is it known that the group has the wanted size?"""
        return any(key in ks and min(d) >= 0 for ks, d in mon[3])

    def two_lists(self, st):
        """Do several variables hold groups?"""
        return sum(1 for v in st.env.values() if isinstance(v, frozenset) and v & self.known) > 1

    def take(self, mon, key, ev, st):
        """The content of the container is handed out."""
        held = dict(mon[2])
        if ("old", key) in held:
            if not self.two_lists(st):
                self.bad("a group of samples is replaced by an empty one before it was handed out", ev)
            return self.put(mon, ("old", key), None, False)
        if key in held:
            self.seen(self.out, mon, key)
            if mon[0] and mon[1] and held[key] == "full" and self.counts(key):
                self.bad("the last, incomplete group is handed out although drop_last is set", ev)
            if mon[0] and mon[1] is None and held[key] == "full" and self.counts(key) and self.may_drop and not self.full_size(mon, key):
                self.bad("the last, incomplete group is handed out whatever drop_last says", ev)
        return mon

    # -------------------------------------------------- events
    def event(self, ev, st, ip):
        self.ip, self.st = ip, st
        k = ev.kind
        mon = st.mon
        held = dict(mon[2])
        if k == "next" and self.inner_or_zip(ev):
            return self.fetch(ev, st)
        if k in ("next", "exhausted"):
            for t in ev.value or ():
                a = self.fills(t)
                if a is not None:
                    if k == "exhausted":
                        return (True,) + mon[1:]
                    self.fetches += 1
                    self.receivers.add(a)
                    self.seen(self.kept, mon)
                    return self.put((False,) + mon[1:], a, "full")
                key = self.key(t)
                if key in held and held[key] == "full" and k == "exhausted":
                    # read, which need not mean handed out
                    return self.put(self.take(mon, key, ev, st), key, "seen", False)
        if k == "next" and self.all_members(ev.value):
            return self.put(self.put(mon, MEMBER, "full"), ("in", id(ev.node)), True)
        if k == "loop_exit" and ("in", id(ev.node)) in held:
            return self.put(self.put(mon, MEMBER, "full"), ("in", id(ev.node)), None)
        if k == "loop_back" and "other" in held:
            mon = self.put(mon, "other", None, False)
            if not self.all_members(ev.value):
                return mon
        if k == "loop_back" and self.all_members(ev.value):
            if dict(mon[2]).get(MEMBER) == "full":
                return self.put(mon, ("left", MEMBER), "full")
            return NotImplemented
        if k == "exhausted":
            if self.inner_or_zip(ev):
                if MEMBER in self.known:
                    mon = self.put(mon, MEMBER, "full")
                mon = (True,) + self.put(mon, "sample", None, False)[1:]
                return self.put(mon, "ahead", True, False) if self.ahead(ev.value) else mon
            if self.all_members(ev.value):
                left = ("left", MEMBER) in dict(mon[2])
                mon = self.put(self.put(mon, ("left", MEMBER), None), ("in", id(ev.node)), None)
                return self.put(mon, MEMBER, "full" if left else None)
            return NotImplemented
        if k == "catch" and "StopIteration" in (ev.value or ()):
            return (True,) + self.put(mon, "sample", None, False)[1:]
        if k == "newobj":
            if ev.result not in self.known:
                return NotImplemented
            if held.get(GROUP) == "full" and not (mon[0] and mon[1]):
                mon = self.put(mon, ("old", GROUP), "full")
            return self.put(mon, GROUP, None)
        if k == "catch" and held.get("sample") == "asked" or k == "iter" and held.get("sample") and self.within(ev.value, st):
            return self.put(mon, "sample", None, False)
        if k == "call" and ev.tag != "inlined":
            return self.call(ev, st)
        if k in ("yield", "yield_from"):
            if k == "yield_from" and self.inner(ev.value):
                self.passes = True
            new = mon
            if self.within(ev.value, st) and not self.keeps:
                new = self.put(new, "sample", None, False)
            for t in ev.value or ():
                for x in subterms(t):
                    key = self.key(x)
                    if key is not None and dict(new[2]).get(key) == "full":
                        new = self.put(self.take(new, key, ev, st), key, "read")
            return new
        if k == "branch":
            return self.branch(ev, st)
        if k == "load_slice":
            return self.cut(ev, mon)
        if k in ("del_sub", "store_sub"):
            new = mon
            for key in self.keys(ev.base):
                if key in dict(mon[2]):
                    if k == "del_sub":
                        new = self.put(self.take(new, key, ev, st), key, dict(mon[2])[key] if dict(mon[2])[key] == "full" else None)
            if k == "store_sub" and self.itself(ev.value):
                new = self.put(new, "sample", None, False)
            return new if new is not mon else NotImplemented
        if k == "store_attr" and self.itself(ev.value):
            return self.put(mon, "sample", None, False)
        return NotImplemented

    def inner_or_zip(self, ev):
        return self.inner(ev.value)

    def ahead(self, v):
        """Zipped with something which may end after the sample of the round was fetched."""
        return any(x[0] == "call" and x[1] == ("ext", "zip") and any(self.draws(y) for y in x[2][:-1]) for t in v or () for x in subterms(t))

    def fills(self, t):
        """The buffer which iterating over this fetches into."""
        while t[0] == "call" and t[1] in (("ext", "iter"), ("ext", "enumerate")) and t[2]:
            t = t[2][0]
        if t[0] == "call" and t[1][0] in ("bm", "attr") and own_attr(t[1][1]) in self.buffers:
            fi = self.ip.func_of(t[1])
            if fi is not None and fi.is_generator:
                return own_attr(t[1][1])
        if t[0] == "gen":
            fi, _, recv, args, kwargs, node = self.ip.gen_parts(t, self.st)
            if recv is not None and own_attr(recv) in self.buffers:
                return own_attr(recv)
        return None

    def all_members(self, v):
        """The members of a collection of the dataset."""
        todo = list(v or ())
        while todo:
            t = todo.pop()
            if t[0] == "any":
                todo += t[1]
            elif t[0] == "call" and t[1] in (("ext", "list"), ("ext", "tuple"), ("ext", "iter")) and len(t[2]) == 1:
                todo.append(t[2][0])
            elif t[0] == "obj":
                if any(x[0] == "val" and own_attr(x[1]) in self.lists for _, y in self.st.heap.get(t, (None, ()))[1] for x in y):
                    return True
            elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("values", "items"):
                if own_attr(t[1][1]) in self.lists:
                    return True
        return False

    def call(self, ev, st):
        mon = st.mon
        held = dict(mon[2])
        name = ev.name
        if ev.func == ("ext", "next"):
            if ev.args:
                if self.inner(ev.args[0]):
                    return self.fetch(ev, st)
                for t in ev.args[0]:
                    for x in subterms(t):
                        a = own_attr(x)
                        if a in self.buffers:
                            # an iterator which fetches into the buffer
                            self.fetches += 1
                            self.receivers.add(a)
                            self.seen(self.kept, mon)
                            return self.put((False,) + mon[1:], a, "full")
            return NotImplemented
        r = ev.recv
        key = None
        if name == "restore_state" and "ahead" in held and ev.args and ("const", None) in ev.args[0] and r is not None and \
                any(own_attr(t) in self.k.ds_attrs for t in arith.spread(r)):
            return self.put(mon, "ahead", None, False)
        if r is not None:
            ks = self.keys([r])
            if len(ks) > 1 and all(isinstance(x, tuple) or x == GROUP for x in ks):
                # one of several local lists
                ks = {GROUP} if GROUP in ks else {sorted(ks, key=repr)[0]}
            key = next(iter(ks)) if len(ks) == 1 else None
        if key is not None and name in ADDS:
            last = ev.args[-1] if ev.args else ()
            new = mon
            if self.direct(last):
                if held.get(key) == "read":
                    self.bad("samples handed out before stay in the group of the next ones", ev)
                self.receivers |= {t for t in arith.spread(r) if t[0] == "obj"} if isinstance(key, tuple) or key == GROUP else {key}
                return self.put(self.put(new, "sample", None, False), key, "full")
            if self.itself(last):
                new = self.put(new, "sample", None, False) if key in self.lists or key in self.buffers else new
            if key in self.lists:
                self.receivers.add(key)
                return self.put(new, key, "full")
            if key in held:
                return self.put(new, key, "full" if key in self.known and not isinstance(key, tuple) else held[key])
            return new if new is not mon else NotImplemented
        if name == "clear" and r is not None and key is None and any(self.own_slot(t, st) for t in arith.spread(r)):
            self.bad("what was kept (and restored) for this worker is dropped", ev)
            return NotImplemented
        if key is not None and name == "clear":
            if held.get(key) == "full" and not (mon[0] and mon[1]) and self.counts(key):
                self.bad("a group is emptied before its samples were handed out", ev)
            if key in self.lists and held.get(MEMBER) == "full" and not (mon[0] and mon[1]):
                self.bad("the groups are dropped before their samples were handed out", ev)
                return self.put(self.put(mon, key, None), MEMBER, None)
            if key in self.lists and MEMBER in held:
                return self.put(self.put(mon, key, None), MEMBER, None)
            return self.put(mon, key, None)
        if key is not None and name == "flush":
            return self.put(self.take(mon, key, ev, st), key, None)
        if key is not None and name in POPS:
            return self.put(self.take(mon, key, ev, st), key, held.get(key))
        if name in LOOKS:
            return NotImplemented
        new = mon
        user = own_attr(ev.func) in self.fns
        if user and any(x[0] == "gen" or self.draws(x) for v in ev.args or () for t in v for x in subterms(t)):
            self.passes = True
        for v in list(ev.args or ()) + list((ev.kwargs or {}).values()):
            for kk in self.keys(v):
                if kk in dict(new[2]) and dict(new[2])[kk] == "full" or ("old", kk) in dict(new[2]):
                    old = ("old", kk) in dict(new[2])
                    new = self.take(new, kk, ev, st)
                    if not old:
                        new = self.put(new, kk, "read")
            if user and dict(new[2]).get("sample") and self.within(v, st):
                new = self.put(new, "sample", "asked", False)
        return new if new is not mon else NotImplemented

    def cut(self, ev, mon):
        """Only a part of (a copy of) what was read is used further."""
        lo, up, step = ev.args
        if lo <= {("const", None), ("const", 0)} and up == {("const", None)} and step <= {("const", None), ("const", 1), ("const", -1)}:
            return NotImplemented
        ks = {self.key(t[2][0]) for t in ev.base if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("list", "tuple") and len(t[2]) == 1}
        key = ks.pop() if len(ks) == 1 else None
        held = dict(mon[2])
        if key is None or key not in self.known or held.get(key) not in ("read", "full"):
            return NotImplemented
        if held.get(("cut", key)) == lo and up == {("const", None)}:
            return self.put(self.put(mon, ("cut", key), None, False), key, "read")
        return self.put(self.put(mon, ("cut", key), up, False), key, "full")

    def length(self, t):
        if t[0] == "call" and t[1] == ("ext", "len") and len(t[2]) == 1:
            return self.key_any(t[2][0])
        return None

    def key_any(self, t):
        ks = {self.key(x) for x in arith.spread(t)} - {None}
        return sorted(ks, key=repr)[0] if ks else None

    def branch(self, ev, st):
        mon = st.mon
        for c in ev.cond:
            x, taken = plain(c, ev.taken)
            if x[0] == "attr" and own_attr(x) == "drop_last":
                if mon[1] is not None and mon[1] != bool(taken):
                    return []
                return (mon[0], bool(taken)) + mon[2:]
            if x[0] == "cmp" and x[1] in ("Eq", "NotEq") and any(y[0] == "index" and y[1][0] == "call" and y[1][1] == ("ext", "range")
                                                                 for y in x[2:]):
                return self.put(mon, "other", (x[1] == "NotEq") == bool(taken), False)
            if self.asks(x) and dict(mon[2]).get("sample") == "asked":
                mon = self.put(mon, "sample", None, False)
                return mon
            # the length alone (or the container itself)
            key = []

            def one(form):
                s = arith.single(form, lambda t: self.length(t) is not None or self.key_any(t) is not None)
                if s is not None:
                    t = next(a for a in form if a != 1)
                    key.append(self.length(t) or self.key_any(t))
                return s
            h = arith.holds(c, ev.taken, one, SIZES)
            if h is not None:
                status = dict(mon[2]).get(key[0])
                if h == {0}:
                    # an empty group holds nothing
                    return self.put(mon, key[0], None, False)
                return NotImplemented

            def two(form):
                ls = [a for a in form if a != 1 and self.length(a) is not None]
                rest = [a for a in form if a != 1 and a not in ls]
                if not ls or len(rest) != 1 or len({form[a] for a in ls}) != 1 or form[ls[0]] != -form[rest[0]] or abs(form[rest[0]]) != 1:
                    return None
                if not any(x[0] in ("attr", "param", "sub") for x in subterms(rest[0])):
                    return None
                key.append(frozenset(self.length(a) for a in ls))
                return form[ls[0]], form.get(1, 0)
            h = arith.holds(c, ev.taken, two)
            if h is not None:
                ks = key[-1]
                cur = next((d for k, d in mon[3] if k == ks), DELTAS)
                if not cur & h:
                    return []
                self.where.setdefault(self.group(ks), ev)
                return mon[:3] + (frozenset((k, d) for k, d in mon[3] if k != ks) | {(ks, cur & h)},)
        return NotImplemented


def entries(k):
    """The generators handing out samples."""
    if not k.helper:
        f = k.cls.find_method("__iter__")
        return [f] if f is not None and not f.is_abstract else []
    return [f for c in k.cls.mro() for f in c.methods.values() if f.is_generator and k.cls.find_method(f.name) is f]


def run(p, k, f):
    """The monitor once the set of containers which get samples is known, and the states at the end."""
    rec = frozenset()
    for _ in range(4):
        m = Takes(k, rec)
        m.members = {"samples"}
        o = Interp(p, m).run(f, k.cls)
        if frozenset(m.receivers) == rec:
            break
        rec = frozenset(m.receivers)
    return m, [st for st in o.normal + [x[0] for x in o.ret]]


def check(p, cx):
    cx.rule("C33.take", "each sample taken from an inner dataset is handed out, kept in a buffer or given to a user function before the "
            "next one is taken, groups are emptied only after they were handed out, and nothing handed out stays in a group")
    cx.rule("C33.group", "a group is handed out exactly when it has the wanted size: with the wanted number of samples no further one is "
            "fetched into it, and with fewer nothing is handed out before the inner dataset ends")
    cx.rule("C33.end", "at the end nothing is left behind in a group or buffer, except an incomplete group where drop_last is set, "
            "which then is not handed out")
    cx.rule("C33.filter", "a sample is handed out if and only if the user's filter function accepts it")
    fetches = groups = filters = 0
    for k in S.facts(p):
        if not k.ds_attrs:
            continue
        for f in entries(k):
            m, ends = run(p, k, f)
            fetches += m.fetches
            cx.fn(f)
            name = k.cls.name
            if not m.fetches and not m.passes and not k.helper:
                cx.bad("C33.take", f"{name}:none", f.loc(f.node), f"{name}: no sample is ever taken from the inner dataset")
            if not m.fetches:
                continue
            late = [w for w in m.wrong.values() if "drop_last" in w[0]]
            take = [w for w in m.wrong.values() if w not in late]
            for what, ev in take:
                cx.bad("C33.take", f"{name}", ev.loc(), f"{name}: {what}")
            if not take:
                cx.ok("C33.take", name, f.loc(f.node))
            if k.helper:
                continue
            for ks in sorted(set(m.kept) | set(m.out), key=sorted):
                ev = m.where.get(ks)
                if ev is None:
                    continue
                groups += 1
                kept, out = m.kept.get(ks, frozenset()), m.out.get(ks, frozenset())
                what = " + ".join(sorted(str(x) for x in ks))
                if 0 in kept:
                    cx.bad("C33.group", f"{name}:{what}", ev.loc(), f"{name}: another sample is fetched into a group which has the wanted size already")
                elif any(d < 0 for d in out):
                    cx.bad("C33.group", f"{name}:{what}", ev.loc(), f"{name}: a group is handed out with fewer samples than wanted although there are more")
                else:
                    cx.ok("C33.group", f"{name}:{what}", ev.loc())
            stay = {}
            for st in ends:
                ended, drop, held, ds = st.mon
                for key, status in held:
                    if status == "full" and key != "sample" and not (ended and drop) and not (isinstance(key, tuple) and key[0] == "obj"):
                        if key == GROUP or key in m.known:
                            stay[key] = "samples of the last group are neither handed out nor dropped on demand (drop_last)" if ended else \
                                "iteration ends with samples still kept"
                if dict(held).get("ahead"):
                    stay["ahead"] = "a sample fetched for a round which does not take place any more is lost (the dataset is zipped before " \
                        "what ends the loop, and is not reset)"
                if dict(held).get("sample"):
                    stay["sample"] = "the last sample fetched is neither handed out, kept nor given to a user function"
            for what, ev in late:
                cx.bad("C33.end", f"{name}:last", ev.loc(), f"{name}: {what}")
            for key, what in sorted(stay.items(), key=repr):
                cx.bad("C33.end", f"{name}:{key}", f.loc(f.node), f"{name}: {what}")
            if not stay and not late:
                cx.ok("C33.end", name, f.loc(f.node))
            if k.cls.find_method("__iter__") is f:
                filters += filtering(p, cx, k, f)
    cx.floor("fetches", fetches, 12)
    cx.floor("groups by size", groups, 4)
    cx.floor("filters", filters, 1)


class Accept(Takes):
    """mon = what the user's function says about the current sample (None, True, False), handed out since"""

    def __init__(self, k):
        super().__init__(k)
        self.found = {}
        self.wrong = {}
        self.asked = {}
        self.used = set()

    def init(self):
        return (None, False)

    def close(self, mon, ev):
        if mon[0] is True and not mon[1]:
            self.wrong.setdefault("accepted", ev)

    def event(self, ev, st, ip):
        self.ip, self.st = ip, st
        k = ev.kind
        mon = st.mon
        if k == "call" and ev.tag != "inlined" and ev.func[0] == "attr" and own_attr(ev.func) in self.fns and \
                any(self.fetched(x) for v in ev.args or () for a in v for x in arith.spread(a)):
            self.asked.setdefault((ev.func, ev.loc()), ev)
            return NotImplemented
        if k in ("yield", "yield_from", "iter", "unpack", "newrec", "store_attr", "store_sub", "branch") or k == "call":
            vs = [ev.value] if k not in ("branch", "call") else [ev.cond] if k == "branch" else list(ev.args or ())
            for t in (t for v in vs for t in v or ()):
                for x in subterms(t):
                    if self.asks(x):
                        self.used.add(x[1])
        if k == "branch":
            for c in ev.cond:
                x, taken = plain(c, ev.taken)
                if self.asks(x):
                    self.found[id(ev.node)] = ev
                    if mon[0] is not None and mon[0] != bool(taken):
                        return []
                    return (bool(taken), mon[1])
        if k in ("next", "exhausted") and self.inner_or_zip(ev) or k == "call" and ev.func == ("ext", "next") and ev.args and self.inner(ev.args[0]):
            self.close(mon, ev)
            return (None, False)
        if k in ("yield", "yield_from") and self.within(ev.value, st):
            if mon[0] is False:
                self.wrong.setdefault("rejected", ev)
            return (mon[0], True)
        return NotImplemented


def filtering(p, cx, k, f):
    m = Accept(k)
    m.members = {"samples"}
    Interp(p, m).run(f, k.cls)
    for (fn, loc), ev in m.asked.items():
        if fn not in m.used:
            cx.bad("C33.filter", f"{k.cls.name}:ignored", loc, f"{k.cls.name}: what the user's function ({own_attr(fn)}) says about a sample is not used")
            return 1
    if not m.found:
        return 0
    ev = next(iter(m.found.values()))
    if "accepted" in m.wrong:
        cx.bad("C33.filter", f"{k.cls.name}:accepted", ev.loc(), f"{k.cls.name}: a sample the user's function accepts is not handed out")
    if "rejected" in m.wrong:
        cx.bad("C33.filter", f"{k.cls.name}:rejected", ev.loc(), f"{k.cls.name}: a sample the user's function rejects is handed out")
    if not m.wrong:
        cx.ok("C33.filter", k.cls.name, ev.loc())
    return 1
