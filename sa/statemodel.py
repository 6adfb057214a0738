"""Where every piece of saved state comes from and goes to (used by C01..C05)."""
from .flow import (NONE, TOP, V, VNONE, VTOP, Collector, Interp, Monitor, MUTATORS, fmt, is_attr, mentions,
                   subterms)
from .model import AnalysisBroken

TRIPLES = [("save_state", "merge_states", "restore_state")]
#: external callables which return a fresh copy of their argument
COPIERS = {"list", "tuple", "dict", "set", "frozenset", "bytes", "copy.copy", "copy.deepcopy",
           "dataclasses.replace", "sorted", "bytearray"}
SAMPLE_METHODS_NEUTRAL = {"len", "isinstance"}


def expand(st, t, ip, d=0):
    if isinstance(t, frozenset):
        return " | ".join(sorted(expand(st, x, ip, d) for x in t))
    if t[0] == "obj" and t in st.heap and d < 5:
        sh, it = st.heap[t]
        inner = ", ".join(f"{k}: {expand(st, v, ip, d + 1)}" for k, v in sorted(it, key=lambda x: str(x[0])))
        return f"{t[1]}({inner})"
    return fmt(t, ip)


def apath(t):
    """Access path of a term rooted at self / a parameter: ('self', 'a', 'b') or None.
    Subscripts, iteration and copies do not change the path."""
    while True:
        k = t[0]
        if k == "attr":
            b = apath(t[1])
            return None if b is None else b + (t[2],)
        if k in ("sub", "elem", "val", "slice", "key"):
            t = t[1]
            continue
        if k == "self":
            return ("self",)
        if k == "param":
            return ("param:" + t[1],)
        return None


def paths(t, st, out=None, seen=None, d=0):
    """All access paths whose value flows into term t (index expressions excluded)."""
    if out is None:
        out = set()
    if seen is None:
        seen = set()
    if t in seen or d > 30:
        return out
    seen.add(t)
    k = t[0]
    if k in ("attr", "sub", "elem", "val", "slice", "key", "self", "param"):
        p = apath(t)
        if p is not None:
            out.add(p)
            return out
        if len(t) > 1 and isinstance(t[1], tuple):
            return paths(t[1], st, out, seen, d + 1)
        return out
    if k == "obj":
        h = st.heap.get(t)
        if h is not None:
            for key, v in h[1]:
                if isinstance(key, tuple) and key and key[0] == "k":
                    paths(key[1], st, out, seen, d + 1)
                for x in v:
                    paths(x, st, out, seen, d + 1)
            if isinstance(h[0], tuple):
                pass
        return out
    if k == "call":
        f = t[1]
        if f[0] in ("attr", "bm"):
            paths(f[1], st, out, seen, d + 1)
        for a in t[2]:
            paths(a, st, out, seen, d + 1)
        for _, a in t[3]:
            paths(a, st, out, seen, d + 1)
        return out
    if k in ("func", "bm", "ext", "cls", "const", "global", "mod", "top", "unknown"):
        return out
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        paths(y, st, out, seen, d + 1)
            elif x and isinstance(x[0], str):
                paths(x, st, out, seen, d + 1)
    return out


def vpaths(v, st):
    out = set()
    for t in v:
        out |= paths(t, st)
    return out


IGNORED = ("worker_config",)


def self_attrs(ps):
    """{first attribute} of paths rooted at self."""
    return {p[1] for p in ps if p[0] == "self" and len(p) > 1 and p[1] not in IGNORED}


def flat(rec, st, prefix=()):
    """Flatten nested records: yields (field path tuple, value set)."""
    sh, items = st.heap[rec]
    for k, v in sorted(items, key=lambda x: str(x[0])):
        recs = [x for x in v if x[0] == "obj" and x[1] == "rec" and x in st.heap]
        if recs:
            for r in recs:
                yield from flat(r, st, prefix + (k,))
            rest = frozenset(v) - frozenset(recs)
            if rest and rest != VNONE:
                yield prefix + (k,), rest
        else:
            yield prefix + (k,), v


def leaf(v, st, d=0):
    """Abstract initial value: const / 'empty' / ('L', leaf of each slot) / None if unknown."""
    if isinstance(v, frozenset):
        ls = {leaf(t, st, d) for t in v}
        return next(iter(ls)) if len(ls) == 1 else None
    t = v
    if t[0] == "const":
        return ("c", t[1])
    if t[0] == "binop" and t[1] == "Mult":
        for x in (t[2], t[3]):
            if x[0] == "obj" and x[1] == "list":
                l = leaf(x, st, d + 1)
                if isinstance(l, tuple) and l[0] == "lit1":
                    return ("L", l[1])
                return l if isinstance(l, tuple) and l[0] == "L" else None
        return None
    if t[0] == "obj" and t in st.heap:
        sh, it = st.heap[t]
        if t[1] in ("list", "dict", "set"):
            if not it:
                return "empty"
            if isinstance(sh, tuple) or sh == "built":
                d_ = dict(it)
                if set(d_) == {"*"}:
                    return ("L", norm1(leaf(d_["*"], st, d + 1)))
                return None
            if sh == "lit" and t[1] == "list":
                ls = [norm1(leaf(x, st, d + 1)) for _, x in it]
                if len(ls) == 1:
                    return ("lit1", ls[0])
                if len(set(ls)) == 1:
                    return ("litn", ls[0])
                return None
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("list", "dict", "set") and not t[2] and not t[3]:
        return "empty"
    return None


def norm1(l):
    if isinstance(l, tuple) and l[0] == "lit1":
        return ("L", l[1])
    return l


class RestoreMonitor(Monitor):
    """Tracks on every path which self attributes have been (re)set and from what."""

    def __init__(self, helpers):
        self.stores = []
        self.none_access = []

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind == "store_attr":
            for b in ev.base:
                p = apath(b)
                if p and p[0] == "self":
                    full = p[1:] + (ev.attr,)
                    self.stores.append((full, ev.value, st, ev))
                    return st.mon | {full}
        if ev.kind in ("store_sub",):
            for b in ev.base:
                p = apath(b)
                if p and p[0] == "self" and len(p) > 1:
                    self.stores.append((p[1:], ev.value, st, ev))
                    return st.mon | {p[1:]}
        if ev.kind == "call" and ev.tag != "inlined":
            r = ev.recv
            if r is None:
                return NotImplemented
            p = apath(r)
            if p and p[0] == "self" and len(p) > 1:
                nm = ev.name
                if nm in ("restore_state", "set_state", "setstate"):
                    self.stores.append((p[1:], ev.args[0] if ev.args else VTOP, st, ev))
                    return st.mon | {p[1:]}
                if nm in ("append", "extend", "insert", "update", "add"):
                    self.stores.append((p[1:], ev.args[-1] if ev.args else VTOP, st, ev))
                    return NotImplemented
                if nm == "clear":
                    return st.mon | {p[1:]}
        return NotImplemented


class StateModel:
    HELPERS = {"SampleIndex", "WorkerRng", "SavableSampleBuffer"}

    def __init__(self, project, cls, triple=TRIPLES[0]):
        self.p, self.cls = project, cls
        self.save_fn, self.merge_fn, self.restore_fn = (cls.find_method(n) for n in triple)
        self.helpers = self.HELPERS - {cls.name}
        self._run_save()
        self._run_init()
        self._run_merge()
        self._run_restore()

    # ---- init ----
    def _run_init(self):
        self.init = {}      # attr -> leaf
        self.init_terms = {}
        f = self.cls.find_method("__init__")
        for c in reversed(self.cls.mro()):
            for k, e in c.class_attrs.items():
                import ast
                if isinstance(e, ast.Constant):
                    self.init[k] = ("c", e.value)
        if f is None:
            return
        col = Collector({"store_attr"})
        ip = Interp(self.p, col)
        ip.run(f, self.cls)
        for ev, st in col.out:
            if ("self",) in ev.base:
                self.init[ev.attr] = norm1(leaf(ev.value, st))
                self.init_terms[ev.attr] = (ev.value, st, ev)

    # ---- save ----
    def _run_save(self):
        self.save_ip = ip = Interp(self.p, Collector({"branch"}), inline_classes=self.helpers)
        o = ip.run(self.save_fn, self.cls)
        self.save_variants = []     # (rec term or raw V, state, {fieldpath: V})
        for st, v, node in o.ret:
            if v == VNONE:
                continue
            recs = [t for t in v if t[0] == "obj" and t[1] == "rec"]
            if recs:
                for r in recs:
                    self.save_variants.append((r, st, dict(flat_merge(r, st))))
            else:
                self.save_variants.append((None, st, {(): v}))

    # ---- merge ----
    def _run_merge(self):
        params = [a for a in self.merge_fn.params()[0] if a != "self"]
        if not params:
            raise AnalysisBroken(f"{self.cls.name}: merge function takes no states")
        self.states_param = params[0]
        self.merge_ip = ip = Interp(self.p, Collector(), inline_classes=self.helpers)
        o = ip.run(self.merge_fn, self.cls)
        self.merge_variants = []
        for st, v, node in o.ret:
            recs = [t for t in v if t[0] == "obj" and t[1] == "rec"]
            if recs:
                for r in recs:
                    self.merge_variants.append((r, st, dict(flat_merge(r, st))))
            else:
                self.merge_variants.append((None, st, {(): v}))
        # with workers that have no state
        mon = NoneAccess()
        self.none_ip = ip = Interp(self.p, mon, inline_classes=self.helpers)
        ip.isinst = lambda t, c, st, ip_: False if t == NONE else None
        lst = ("obj", "list", -1)
        from .flow import State
        st0 = State(mon=None, heap={lst: (("map", ("param", self.states_param)), frozenset({("*", VNONE)}))})
        o = run_with(ip, self.merge_fn, self.cls, {self.states_param: V(lst)}, st0)
        self.none_access = mon.bad
        self.none_variants = []
        for st, v, node in o.ret:
            for r in v:
                if r[0] == "obj" and r[1] == "rec":
                    self.none_variants.append((r, st, dict(flat_merge(r, st))))

    # ---- restore ----
    def _run_restore(self):
        params = [a for a in self.restore_fn.params()[0] if a != "self"]
        self.state_param = sp = params[0]
        variants = [self.p_class(r, self.merge_ip) for r, _, _ in self.merge_variants if r is not None]
        variants = list({c.name: c for c in variants if c is not None}.values()) or [None]
        self.restores = []       # (variant class, monitor, [mon at return], ip)
        for vc in variants:
            mon = RestoreMonitor(self.helpers)
            ip = Interp(self.p, mon, inline_classes=self.helpers)

            def isinst(t, c, st, ip_, vc=vc):
                if vc is None or c[0] != "cls":
                    return None
                cc = ip_.cls_of(c)
                if t == ("param", sp):
                    if cc is not None and vc.issubclass(cc):
                        return True
                    if cc is not None and cc in [x[0] for x in [(k,) for k in self.p.classes()]]:
                        return False
                if t[0] == "attr" and t[1] == ("param", sp):
                    return True
                return None
            ip.isinst = isinst
            ip.param_nonnull = NonNull(sp)
            o = ip.run(self.restore_fn, self.cls)
            self.restores.append((vc, mon, [s.mon for s, _, _ in o.ret], ip))
        mon = RestoreMonitor(self.helpers)
        ip = Interp(self.p, mon, inline_classes=self.helpers)
        o = ip.run(self.restore_fn, self.cls, bind={sp: VNONE})
        self.reset = (mon, [s.mon for s, _, _ in o.ret], ip)

    def p_class(self, r, ip):
        ty = ip.type_of(r)
        return ty[1] if ty and ty[0] == "cls" else None


class NonNull:
    """Nullness oracle: fields of the merged state record are present."""

    def __init__(self, sp):
        self.sp = sp

    def __contains__(self, t):
        while t[0] == "attr":
            t = t[1]
        return t == ("param", self.sp)


class NoneAccess(Monitor):
    def __init__(self):
        self.bad = []

    def event(self, ev, st, ip):
        if ev.kind == "load_attr" and NONE in ev.base:
            self.bad.append((ev.attr, ev))
        return NotImplemented


def run_with(ip, fn, cls, bind, st0):
    """ip.run with an initial heap."""
    old = ip.mon.init
    o = None
    from . import flow
    orig = flow.State

    class S(flow.State):
        pass
    # run() creates the state itself; patch through a one-shot subclass
    def make(env=None, heap=None, facts=frozenset(), mon=None, pend=()):
        s = orig(env, heap, facts, mon, pend)
        return s
    h0 = st0.heap
    real_run = ip.exec_body
    first = [True]

    def exec_body(body, states):
        if first[0]:
            first[0] = False
            ns = []
            for s in states:
                h = dict(s.heap)
                h.update(h0)
                ns.append(s.copy(heap=h))
            states = ns
        return real_run(body, states)
    ip.exec_body = exec_body
    try:
        o = ip.run(fn, cls, bind=bind)
    finally:
        ip.exec_body = real_run
    return o


def flat_merge(rec, st):
    d = {}
    for k, v in flat(rec, st):
        d[k] = d[k] | v if k in d else v
    return d.items()


def stateful_classes(p):
    """Concrete classes with their own save/merge/restore triple."""
    out = []
    for c in p.classes():
        fs = [c.find_method(n) for n in TRIPLES[0]]
        if not all(fs):
            continue
        if any(f.is_abstract for f in fs):
            continue
        if any(len(f.params()[0]) < (1 if i == 0 else 2) for i, f in enumerate(fs)):
            continue
        out.append(c)
    return out
