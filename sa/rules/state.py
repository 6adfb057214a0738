"""Rules about the save / merge / restore protocol (C01..C05), per stateful class."""
import ast
import re

from ..flow import Monitor, MUTATORS, NONE, V, VNONE, Collector, Interp, fmt, subterms
from ..model import AnalysisBroken, walk_own
from . import decide
from ..statemodel import (COPIERS, StateModel, apath, expand, leaf, norm1, paths, self_attrs,
                          stateful_classes, vpaths)

PROTOCOL = {"save_state", "merge_states", "restore_state", "__init__", "config", "__str__", "__repr__",
            "restore_sample", "can_restore_sample"}
#: (class, attribute) -> reason why it need not be saved
EXEMPT = {}
#: methods of savable members which read nothing that advances
NEUTRAL = {"worker_has_samples", "can_restore_sample", "config", "assert_can_restore", "len_worker",
           "restore_sample", "append_restore_key"}


def savable_type(ty):
    while ty and ty[0] in ("list", "dict"):
        ty = ty[1]
    if ty and ty[0] == "tuple":
        for x in ty[1]:
            s = savable_type(x)
            if s:
                return s
        return None
    if ty and ty[0] == "cls":
        c = ty[1]
        if c.find_method("save_state") and c.find_method("restore_state") and c.find_method("merge_states"):
            return c
    return None


def self_attr_names(p, cls):
    """All attributes of self known for the class (annotated or assigned)."""
    out = set()
    for c in cls.mro():
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
        for m in c.methods.values():
            for n in walk_own(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" \
                        and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
    return out


def inner_datasets(p, cls):
    """attr -> class for members that are themselves datasets (directly or in containers)."""
    base = p.cls("SavableDataset")
    out = {}
    for a in sorted(self_attr_names(p, cls)):
        s = savable_type(p.attr_type(cls, a))
        if s is not None and s.issubclass(base):
            out[a] = s
    return out


def impure(t, st, ip, seen=frozenset()):
    """A step that changes, drops or reorders data between two places, or None."""
    if t in seen:
        return None
    seen = seen | {t}
    k = t[0]
    if k in ("const", "self", "param", "ext", "cls", "func", "global"):
        return None
    if k in ("attr",):
        return impure(t[1], st, ip, seen)
    if k == "sub":
        if t[2][0] == "slice":
            return "a slice of " + fmt(t[1], ip)
        return impure(t[1], st, ip, seen)
    if k in ("elem", "val", "key"):
        return impure(t[1], st, ip, seen)
    if k == "slice":
        return "a slice of " + fmt(t[1], ip)
    if k == "tuple":
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                r = impure(x, st, ip, seen)
                if r:
                    return r
        return None
    if k == "obj":
        h = st.heap.get(t)
        if h is None:
            return None
        sh = h[0]
        if isinstance(sh, tuple) and sh[0] == "filter":
            return "a filtered copy"
        if isinstance(sh, tuple) and sh[0] == "map":
            for x in sh[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    r = impure(x, st, ip, seen)
                    if r:
                        return r
        for kk, v in h[1]:
            for x in v:
                r = impure(x, st, ip, seen)
                if r:
                    return r
        return None
    if k == "call":
        f = t[1]
        name = f[2] if f[0] == "attr" else (f[1] if f[0] == "ext" else None)
        if f[0] == "attr" and name in ("save_state", "merge_states", "get_state", "tolist", "copy"):
            return impure(f[1], st, ip, seen)
        if f[0] == "attr" and name in ("items", "values", "keys", "get"):
            return impure(f[1], st, ip, seen)
        if f[0] == "ext" and name == "range":
            return None
        if f[0] == "bm":
            return None
        if f[0] == "ext" and name in COPIERS - {"set", "frozenset", "sorted"} \
                or f[0] == "ext" and name in ("type", "torch.tensor", "zip", "enumerate", "iter"):
            for x in t[2]:
                r = impure(x, st, ip, seen)
                if r:
                    return r
            return None
        if f[0] == "cls":
            return None
        return "the result of " + fmt(t, ip)
    if k in ("binop", "unop", "not", "aug", "cmp"):
        return "a computed value " + fmt(t, ip)
    return None


class ClassFacts:
    def __init__(self, p, cls):
        self.p, self.cls = p, cls
        self.m = StateModel(p, cls)
        self.helper = cls.name in StateModel.HELPERS
        self._advanced()

    def entries(self):
        if self.helper:
            ms = {}
            for c in reversed(self.cls.mro()):
                ms.update(c.methods)
            used = {x.attr for m in ms.values() for x in walk_own(m.node) if isinstance(x, ast.Attribute)
                    and isinstance(x.value, ast.Name) and x.value.id == "self"}
            # private helpers are seen (inlined) in their callers
            return [m for n, m in sorted(ms.items()) if n not in PROTOCOL and not m.is_static
                    and not m.is_abstract and not (n.startswith("_") and not n.startswith("__") and n in used)]
        f = self.cls.find_method("__iter__")
        return [f] if f is not None and not f.is_abstract else []

    def _advanced(self):
        self.adv = {}        # attr -> list of (how, event)
        self.values = {}     # attr -> [(value V, state, ip)]
        self.touched = {}    # savable member attr -> event
        self.funcs = []
        p = self.p
        for f in self.entries():
            self.funcs.append(f)
            col = Collector({"store_attr", "store_sub", "del_sub", "del_attr", "call", "iter", "next", "load_attr",
                             "yield_from"})
            ip = Interp(p, col)
            ip.run(f, self.cls)
            for ev, st in col.out:
                bases = []
                if ev.kind == "store_attr":
                    for b in ev.base:
                        q = apath(b)
                        if q and q[0] == "self":
                            a = (q[1:] + (ev.attr,))[0]
                            # an attribute of an element that is not self state (sample.__restore_key__)
                            if len(q) > 1 and not self._state_member(a):
                                continue
                            self.adv.setdefault(a, []).append(("store", ev))
                            if len(q) == 1:
                                self.values.setdefault(a, []).append((ev.value, st, ip))
                elif ev.kind in ("store_sub", "del_sub", "del_attr"):
                    for b in ev.base:
                        q = apath(b)
                        if q and q[0] == "self" and len(q) > 1:
                            if q[1] in self.ds_attrs and ev.kind == "store_sub":
                                continue   # adding to the sample of an inner dataset (dict sample)
                            self.adv.setdefault(q[1], []).append((ev.kind, ev))
                elif ev.kind == "call" and ev.tag != "inlined":
                    r = ev.recv
                    if r is not None:
                        q = apath(r)
                        if q and q[0] == "self" and len(q) > 1 and q[1] != "worker_config":
                            c = savable_type(p.attr_type(self.cls, q[1]))
                            if c is not None:
                                if ev.name not in NEUTRAL:
                                    self.touched.setdefault(q[1], ev)
                            elif ev.name in MUTATORS or ev.name in ("set_state", "manual_seed", "seed"):
                                self.adv.setdefault(q[1], []).append(("call " + ev.name, ev))
                    # passing self.X where randomness is drawn from it
                    for k, v in ev.kwargs.items():
                        if k == "generator":
                            for x in v:
                                q = apath(x)
                                if q and q[0] == "self" and len(q) > 1:
                                    self.adv.setdefault(q[1], []).append(("drawn from", ev))
                elif ev.kind in ("iter", "next", "yield_from"):
                    v = getattr(ev, "value", None) or (ev.args[0] if getattr(ev, "args", None) else None)
                    for x in v or ():
                        for q in paths(x, st):
                            if q[0] == "self" and len(q) > 1 and q[1] in self.ds_attrs:
                                self.touched.setdefault(q[1], ev)

    @property
    def ds_attrs(self):
        if not hasattr(self, "_ds"):
            self._ds = inner_datasets(self.p, self.cls)
        return self._ds

    def _state_member(self, a):
        return a not in self.ds_attrs

    def is_cache(self, a):
        """Every value stored derives from configuration only (never from progress)."""
        vals = self.values.get(a)
        hows = {h for h, _ in self.adv.get(a, ())}
        if hows - {"store"} or not vals:
            return False
        for v, st, ip in vals:
            for t in v:
                if t[0] == "const":
                    if t[1] is None:
                        continue
                    return False
                ps = paths(t, st)
                for x in subterms(t):
                    if x[0] in ("gen", "next"):
                        return False
                for q in ps:
                    if q[0] != "self":
                        return False
                    if len(q) > 1 and (q[1] in self.adv or q[1] in self.ds_attrs):
                        return False
                if not ps:
                    return False
        return True

    def is_handle(self, a):
        """Holds live iterators / generators only, which cannot be saved."""
        vals = self.values.get(a)
        if not vals or {h for h, _ in self.adv[a]} - {"store"}:
            return False
        some = False
        for v, st, ip in vals:
            for t in v:
                if t == NONE:
                    continue
                if t[0] == "call" and t[1][0] == "ext" and t[1][1] == "iter" or t[0] == "gen":
                    some = True
                    continue
                return False
        return some

    # -- chains ---------------------------------------------------------
    def saved(self):
        """{field: (set of self attrs, V, st)} over all save variants."""
        out = {}
        for r, st, fields in self.m.save_variants:
            for f, v in fields.items():
                out.setdefault(f, []).append((self_attrs(vpaths(v, st)), v, st))
        return out

    def restored_top(self):
        out = set()
        for vc, mon, rets, ip in self.m.restores:
            for full, v, st, ev in mon.stores:
                out.add(full[0])
        return out


def where(fn):
    return fn.loc() if fn is not None else "?"


_cache = {}


def facts(p):
    if id(p) not in _cache:
        fs = []
        for c in stateful_classes(p):
            fs.append(ClassFacts(p, c))
        _cache[id(p)] = fs
    return _cache[id(p)]


def members_ok(value, st):
    return self_attrs(vpaths(value, st))


# ---------------------------------------------------------------- C01
def c01(p, cx):
    cx.rule("saved", "every attribute (or savable member) that iterating a dataset changes or advances is read "
                     "by save_state; exempt: caches computed from configuration only, live iterator handles, "
                     "flags that restore_state sets on every path, attributes rebuilt from a saved one")
    cx.rule("whole", "what save_state stores is the attribute itself or a copy: no slice, filter, arithmetic")
    cx.rule("merged", "each saved field is carried over to a merged field")
    cx.rule("returned", "each merged field is stored by restore_state into the attribute it was saved from, "
                        "unchanged and on every path")
    cx.rule("replaced", "restoring any state replaces every attribute which restoring some state sets: nothing of the "
                        "progress made before stays")
    cx.rule("always", "whether a part of the progress is saved and restored is decided by its presence, never by what it holds")
    fs = facts(p)
    cx.floor("stateful classes", len(fs), 15)
    for k in fs:
        c, m = k.cls, k.m
        replaced(cx, k)
        for which in ("save", "restore"):
            got = decide.conditional(p, k, which)
            for what, a, ev, t in got:
                cx.bad("always", f"{c.name}.{a} {what}", ev.where(), f"{a} is {which}d only depending on {fmt(t)}")
            if not got:
                cx.ok("always", f"{c.name} {which}", where(m.save_fn if which == "save" else m.restore_fn))
        for f in k.funcs + [m.save_fn, m.merge_fn, m.restore_fn]:
            cx.fn(f)
        saved = k.saved()
        sattrs = set()
        for f, lst in saved.items():
            for attrs, v, st in lst:
                sattrs |= attrs
        must = None
        for vc, mon, rets, ip in m.restores:
            for r in rets:
                must = r if must is None else must & r
        must = {x[0] for x in (must or ())}
        for a in sorted(set(k.adv) | set(k.touched)):
            ev = k.touched.get(a) or k.adv[a][0][1]
            if a in sattrs:
                cx.ok("saved", f"{c.name}.{a}", ev.where())
                continue
            if (c.name, a) in EXEMPT:
                continue
            if a in k.ds_attrs and k.helper:
                continue       # a buffer shares its owner's dataset
            if a in k.adv and a not in k.touched and (k.is_cache(a) or k.is_handle(a)):
                cx.ok("saved", f"{c.name}.{a} (cache or live handle)", ev.where())
                continue
            if a in must and all(t[0] == "const" for v, st, ip in k.values.get(a, ()) for t in v) \
                    and {h for h, _ in k.adv.get(a, ())} <= {"store"}:
                cx.ok("saved", f"{c.name}.{a} (flag set by restore)", ev.where())
                continue
            if rebuilt_from(k, a, sattrs):
                cx.ok("saved", f"{c.name}.{a} (rebuilt)", ev.where())
                continue
            if balanced(k, a):
                cx.ok("saved", f"{c.name}.{a} (balanced counter)", ev.where())
                continue
            cx.bad("saved", f"{c.name}.{a}", ev.where(),
                   f"changed while iterating ({(k.adv.get(a) or [('advanced', 0)])[0][0]}) "
                   f"but not part of the state built by save_state")
        chain(k, cx)


def balanced(k, a):
    """A counter only ever incremented and decremented around a context (+1/-1)."""
    def step(t):
        return t[0] in ("binop", "aug") and t[1] in ("Add", "Sub") and \
            any(x == ("const", 1) for x in t[2:]) and any(apath(x) == ("self", a) for x in t[2:] if isinstance(x, tuple))
    signs = set()
    for v, st, ip in k.values.get(a, ()):
        for t in v:
            if not step(t):
                return False
            signs.add(t[1])
    return signs == {"Add", "Sub"}


def rebuilt_from(k, a, sattrs):
    """Some method stores into attribute `a` data that flows from a saved attribute."""
    for f in k.funcs + [k.m.restore_fn]:
        col = Collector({"store_attr", "store_sub", "call"})
        ip = Interp(k.p, col)
        ip.run(f, k.cls)
        for ev, st in col.out:
            if ev.kind == "call":
                if ev.recv is None or ev.name not in MUTATORS | {"set_state"}:
                    continue
                b, v = [ev.recv], [x for q in ev.args for x in q]
            else:
                b, v = ev.base, ev.value
            for x in b:
                q = apath(x)
                if ev.kind == "store_attr":
                    hit = q == ("self",) and ev.attr == a
                else:
                    hit = q is not None and q[:2] == ("self", a)
                if hit and self_attrs(vpaths(v, st)) & (sattrs - {a}):
                    return True
    return False


def merged_of(m, field):
    """merged fields which carry `field` of the workers' states: {G: [(V, st)]}"""
    out = {}
    for r, st, fields in m.merge_variants:
        for g, v in fields.items():
            for q in vpaths(v, st):
                if q[0] == "param:" + m.states_param and q[1:][:len(field)] == tuple(field):
                    out.setdefault(g, []).append((v, st))
    return out


def chain(k, cx):
    c, m = k.cls, k.m
    saved = k.saved()
    for f, lst in sorted(saved.items()):
        name = ".".join(f) or "<state>"
        srcs = set()
        for attrs, v, st in lst:
            srcs |= attrs
            for t in v:
                bad = impure(t, st, m.save_ip)
                cx.check(bad is None, "whole", f"{c.name}.{name}", where(m.save_fn),
                         f"saved value is {bad}, not the whole progress")
        gs = merged_of(m, f)
        if not srcs:
            continue            # constants such as the class name
        cx.check(bool(gs), "merged", f"{c.name}.{name}", where(m.merge_fn),
                 "the merged state has no field made of this saved field")
        for g, vals in sorted(gs.items()):
            gname = ".".join(g) or "<state>"
            found = set()
            for vc, mon, rets, ip in m.restores:
                if vc is not None and not any(m.p_class(r, m.merge_ip) is vc and g in fl
                                              for r, st, fl in m.merge_variants if r is not None):
                    continue
                targets = set()
                direct = set()
                for full, v, st, ev in mon.stores:
                    hit = False
                    if len(full) > 1 and savable_type(k.p.attr_type(c, full[0])) is None:
                        continue       # a detail of configuration objects
                    for q in all_paths(v, st):
                        if q[0] == "param:" + m.state_param and (q[1:][:len(g)] == tuple(g)):
                            hit = True
                    if not hit:
                        continue
                    targets.add(full[0])
                    if ev.kind == "store_attr" and not any("elem" in str(b) for b in ev.base):
                        direct.add((full, ev))
                    for t in v:
                        bad = impure(t, st, ip)
                        cx.check(bad is None, "returned", f"{c.name}.{'.'.join(full)}<-{gname}", ev.where(),
                                 f"restored from {bad}")
                found |= targets
                for full, ev in direct:
                    for r in rets:
                        cx.check(full in r, "returned", f"{c.name}.{'.'.join(full)}<-{gname} on every path",
                                 ev.where(), "a path through restore_state does not restore it")
            okk = bool(found & srcs)
            if not okk and found and k.helper:
                okk = any(rebuilt_from(k, s, found) for s in srcs)
            cx.check(okk, "returned", f"{c.name}.{gname}", where(m.restore_fn),
                     f"field saved from {sorted(srcs)} is restored into {sorted(found) or 'nothing'}")
            if okk:
                extra = found - srcs
                ok2 = not extra or k.helper
                cx.check(ok2, "returned", f"{c.name}.{gname} only there", where(m.restore_fn),
                         f"field saved from {sorted(srcs)} also overwrites {sorted(extra)}")
    nested_records(k, cx)


def all_paths(v, st):
    """vpaths, and the paths of the keys used in look-ups and comprehensions."""
    out = set(vpaths(v, st))
    for t in v:
        for x in all_terms(t, st):
            if x[0] in ("attr", "sub"):
                q = apath(x)
                if q:
                    out.add(q)
    return out


def nested_records(k, cx):
    """Records rebuilt inside restored values take every field from the same-named field."""
    c, m = k.cls, k.m
    for vc, mon, rets, ip in m.restores:
        for full, v, st, ev in mon.stores:
            todo, seen = list(v), set()
            while todo:
                t = todo.pop()
                if t in seen or not isinstance(t, tuple):
                    continue
                seen.add(t)
                if t[0] == "obj" and t in st.heap:
                    sh, items = st.heap[t]
                    if t[1] == "rec":
                        cls_ = m.p_class(t, ip)
                        d = dict(items)
                        for fld, fv in sorted(d.items()):
                            names = {q[-1] for q in vpaths(fv, st) if q[0].startswith("param:") and len(q) > 1}
                            if names and cls_ is not None and cls_.is_dataclass:
                                fields = set(cls_.all_fields())
                                wrong = {n for n in names if n in fields and n != fld}
                                wrong |= {".".join(q[-2:]) for q in vpaths(fv, st) if q[0].startswith("param:") and len(q) > 2
                                          and q[-1] == fld and q[-2] in fields}
                                cx.check(not wrong, "returned", f"{c.name}.{'.'.join(full)}[].{fld}", ev.where(),
                                         f"field {fld} of {cls_.name} is restored from {sorted(wrong)}")
                        if cls_ is not None and cls_.is_dataclass:
                            miss = [x for x in cls_.all_fields() if x not in d and not x.startswith("__")]
                            from_state = any(q[0].startswith("param:") for fv in d.values() for q in vpaths(fv, st))
                            if from_state:
                                none = [x for x in d if x in cls_.all_fields() and not any(
                                    y[0] == "param" for z in d[x] for y in all_terms(z, st)) and not any(
                                    z[0] == "obj" or savable_type(ip.type_of(z)) for z in d[x])]
                                cx.check(not none, "returned", f"{c.name}.{'.'.join(full)}[] from the state", ev.where(),
                                         f"{', '.join(none)} of {cls_.name} is not taken from the state")
                                cx.check(not miss, "returned", f"{c.name}.{'.'.join(full)}[] fields", ev.where(),
                                         f"{cls_.name} is rebuilt without {miss}")
                    for _, x in items:
                        todo.extend(x)
                elif t[0] == "call":
                    for a in t[2]:
                        todo.append(a)


def replaced(cx, k):
    c, m = k.cls, k.m
    sets, loopy = {}, set()
    for vc, mon, rets, ip in m.restores:
        for full, v, st, ev in mon.stores:
            if any(q[0] == "param:" + m.state_param for q in vpaths(v, st)):
                sets.setdefault(full[0], ev)
            if any(x[0] in ("elem", "val", "key") for b in (ev.base if ev.kind != "call" else [ev.recv]) if b for x in subterms(b)):
                loopy.add(full[0])
    for a, ev in sorted(sets.items()):
        if a in loopy:
            continue
        for vc, mon, rets, ip in m.restores:
            ok = all(any(x[0] == a for x in r) for r in rets)
            cx.check(ok, "replaced", f"{c.name}.{a}", where(m.restore_fn),
                     "restoring a state" + (f" of type {vc.name}" if vc is not None else "") + f" can leave {a} as it was")


# ---------------------------------------------------------------- C02
def c02(p, cx):
    cx.rule("reset", "restore_state(None) stores every attribute that restore_state(state) stores, and every "
                     "attribute that iterating changes, on every path")
    cx.rule("fresh", "the value stored by restore_state(None) is the one __init__ sets")
    fs = facts(p)
    cx.floor("stateful classes", len(fs), 15)
    for k in fs:
        c, m = k.cls, k.m
        cx.fn(m.restore_fn)
        cx.fn(c.find_method("__init__"))
        mon, rets, ip = m.reset
        anyset = set().union(*rets) if rets else set()
        loopy = {full for full, v, st, ev in mon.stores
                 if any(x[0] in ("elem",) for b in (ev.base if ev.kind != "call" else [ev.recv]) for x in subterms(b))
                 or ev.kind == "call" and ev.recv is not None and ("elem" in str(ev.recv) or "sub" in str(ev.recv))}
        need = {}
        for vc, mon2, rets2, ip2 in m.restores:
            for full, v, st, ev in mon2.stores:
                from_state = any(q[0].startswith("param:") for q in vpaths(v, st))
                sv = savable_type(p.attr_type(c, full[0]))
                if len(full) > 1 and sv is None:
                    full = full[:1]
                    if full[0] not in k.adv:
                        continue
                if from_state or full[0] in k.adv:
                    need.setdefault(full[:1] if nested_member(k, full) else full, ev)
        for a, lst in k.adv.items():
            if k.is_cache(a) or balanced(k, a):
                continue
            if any(x[0] == a for x in need):
                continue
            if nested_member(k, (a,)):
                continue
            need.setdefault((a,), lst[0][1])
        for a, ev in k.touched.items():
            if k.helper and a in k.ds_attrs:
                continue
            need.setdefault((a,), ev) if not any(x[0] == a for x in need) else None
        for full, ev in sorted(need.items(), key=lambda x: x[0]):
            nm = ".".join(full)

            def covers(r):
                return any(x[:len(full)] == full for x in r)
            if not rets:
                cx.bad("reset", f"{c.name}.{nm}", where(m.restore_fn), "restore_state(None) never returns")
                continue
            if any(l[:len(full)] == full for l in loopy):
                good = any(covers(r) for r in rets)
            else:
                good = all(covers(r) for r in rets)
            if good and full[0] in k.adv and full[0] not in k.ds_attrs:
                # the members which came with iterating have to go
                by = [(f2, ev2) for f2, v, st, ev2 in mon.stores if f2[0] == full[0]]
                if by and all(len(f2) > 1 or ev2.kind == "call" and ev2.name in decide.OPS for f2, ev2 in by):
                    good = False
            cx.check(good, "reset", f"{c.name}.{nm}", where(m.restore_fn),
                     "restore_state(None) leaves it as it was")
        # values
        last = {}
        for full, v, st, ev in mon.stores:
            if len(full) > 1 and full[0] in k.adv:
                continue
            if ev.kind == "call":
                if ev.name in ("restore_state", "set_state"):
                    cx.check(v == VNONE, "fresh", f"{c.name}.{'.'.join(full)}", ev.where(),
                             f"nested reset gets {expand(st, v, ip)} instead of None")
                continue
            if ev.kind != "store_attr" or len(full) != 1:
                continue
            a = full[0]
            if a not in m.init:
                continue
            exp = m.init[a]
            got = norm1(leaf(v, st))
            if exp is None and a in m.init_terms:
                ev0, st0, e0 = m.init_terms[a]
                continue
            # a mark "restored", set on both ways, is no progress
            same = [v2 for vc, mon2, rets2, ip2 in m.restores for full2, v2, st2, ev2 in mon2.stores
                    if full2 == full]
            if same and all(v2 == v and all(x[0] == "const" for x in v) for v2 in same):
                cx.ok("fresh", f"{c.name}.{a}", ev.where())
                continue
            cx.check(got == exp, "fresh", f"{c.name}.{a}", ev.where(),
                     f"reset to {expand(st, v, ip)} but a fresh object has {exp}")


def nested_member(k, full):
    t = k.p.attr_type(k.cls, full[0])
    return False if t is None else savable_type(t) is not None and len(full) == 1


# ---------------------------------------------------------------- C03
def c03(p, cx):
    cx.rule("snapshot", "a mutable container reachable from the saved state is a copy, or is never changed in place")
    fs = facts(p)
    cx.floor("stateful classes", len(fs), 15)
    for k in fs:
        c, m = k.cls, k.m
        cx.fn(m.save_fn)
        inplace = inplace_levels(k)
        for r, st, fields in m.save_variants:
            for f, v in sorted(fields.items()):
                name = ".".join(f) or "<state>"
                for t in v:
                    for (q, lvl), w in alias_paths(t, st).items():
                        if q[0] != "self" or len(q) < 2:
                            continue
                        hits = [e for (qq, l2), e in inplace.items() if qq == q and l2 >= lvl]
                        cx.check(not hits, "snapshot", f"{c.name}.{name}", where(m.save_fn),
                                 f"shares {'.'.join(q)} with the live dataset, which is changed in place at "
                                 f"{hits[0].where() if hits else ''}")
                    for x in shared(t, st):
                        c2 = record_type(m.save_ip.type_of(x))
                        if c2 is None or savable_type(("cls", c2)):
                            continue
                        w = written(p, c2)
                        cx.check(not w, "snapshot", f"{c.name}.{name} records", where(m.save_fn),
                                 f"the state contains the {c2.name} itself, which is changed at {w[0] if w else ''}")
                    live = sorted({str(c2.name) for x in leaves(t, st) for c2 in [savable_type(m.save_ip.type_of(x))] if c2 is not None})
                    cx.check(not live, "snapshot", f"{c.name}.{name} itself", where(m.save_fn),
                             f"the state contains a live {', '.join(live)} instead of its state")
                    if not alias_paths(t, st):
                        cx.ok("snapshot", f"{c.name}.{name}", where(m.save_fn))


def leaves(t, st, d=0):
    """What a value consists of: itself or the members of the containers and records built for it"""
    if t[0] == "obj" and t in st.heap and d < 8:
        for _, v in st.heap[t][1]:
            for x in v:
                yield from leaves(x, st, d + 1)
    elif t[0] in ("any", "tuple") and d < 8:
        for x in t[1]:
            yield from leaves(x, st, d + 1)
    elif t[0] == "call" and t[1][0] == "ext" and t[1][1] in COPIERS and t[2]:
        yield from leaves(t[2][0], st, d + 1)
    else:
        yield t


def shared(t, st, d=0):
    """Parts of a value which are the very objects of the dataset (no copies)"""
    if d > 8:
        return
    if t[0] == "obj" and t in st.heap:
        for _, v in st.heap[t][1]:
            for x in v:
                yield from shared(x, st, d + 1)
    elif t[0] in ("any", "tuple"):
        for x in t[1]:
            yield from shared(x, st, d + 1)
    elif t[0] == "call":
        if t[1][0] == "ext" and t[1][1] in ("list", "tuple", "sorted", "set", "reversed") and t[2]:
            a = t[2][0]
            yield from shared(a, st, d + 1) if a[0] == "obj" else [("elem", a)]
    elif level(t):
        yield t


def record_type(ty):
    while ty and ty[0] in ("list", "dict"):
        ty = ty[1]
    return ty[1] if ty and ty[0] == "cls" else None


class Written(Monitor):
    def __init__(self, cls, fields):
        self.cls, self.fields, self.out = cls, fields, []

    def event(self, ev, st, ip):
        if ev.kind == "store_attr" and ev.attr in self.fields:
            for b in ev.base:
                if record_type(ip.type_of(b)) is self.cls and b[0] not in ("obj", "self"):
                    self.out.append(ev.where())
        return NotImplemented


_WRITTEN = {}


def written(p, cls):
    """Where a field of objects of the class (which are not being made there) is changed; a field which does not take part
    in comparing is not part of the value"""
    key = (id(p), cls.qualname)
    if key not in _WRITTEN:
        fields = {n.target.id for c in cls.mro() for n in c.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)
                  and not (isinstance(n.value, ast.Call) and any(kw.arg == "compare" and isinstance(kw.value, ast.Constant)
                                                                 and kw.value.value is False for kw in n.value.keywords))}
        w = Written(cls, fields)
        for fi in p.all_functions():
            if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in fields
                   and not (isinstance(n.value, ast.Name) and n.value.id == "self") for n in walk_own(fi.node)):
                Interp(p, w).run(fi, fi.cls)
        _WRITTEN[key] = w.out
    return _WRITTEN[key]


def level(t):
    """(path, number of subscript/iteration steps) of an access term"""
    n = 0
    while True:
        k = t[0]
        if k == "attr":
            b = apath(t)
            return (b, n) if b else None
        if k in ("sub", "elem", "val"):
            n += 1
            t = t[1]
            continue
        if k == "self":
            return (("self",), n)
        return None


def alias_paths(t, st, d=0):
    """Access paths (with depth) whose object identity is shared by the value."""
    out = {}
    k = t[0]
    if k in ("attr", "sub", "elem", "val"):
        lv = level(t)
        if lv:
            out[lv] = t
        return out
    if d > 8:
        return out
    if k == "obj" and t in st.heap:
        for kk, v in st.heap[t][1]:
            for x in v:
                out.update(alias_paths(x, st, d + 1))
        return out
    if k == "call":
        f = t[1]
        n = f[1] if f[0] == "ext" else (f[2] if f[0] == "attr" else None)
        if n in ("list", "tuple", "dict", "copy.copy", "sorted", "set") and t[2]:
            # shallow copy: one level deeper is still shared
            for x in t[2]:
                lv = level(x)
                if lv:
                    out[(lv[0], lv[1] + 1)] = x
                else:
                    out.update(alias_paths(x, st, d + 1))
        return out
    if k in ("tuple", "any"):
        for x in t[1]:
            out.update(alias_paths(x, st, d + 1))
    return out


class AliasMonitor(Monitor):
    """In-place changes of objects that are reachable from a self attribute at that moment.
    The automaton state is the set of (object, path, depth) stored so far; creating an object
    at a site ends the previous object's identity with that site."""

    def __init__(self):
        self.out = {}

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind == "newobj":
            if any(x[0] == ev.result for x in st.mon):
                return frozenset(x for x in st.mon if x[0] != ev.result)
            return NotImplemented
        if ev.kind in ("store_sub", "del_sub"):
            bs = ev.base
        elif ev.kind == "call" and ev.recv is not None and ev.name in MUTATORS and ev.tag != "inlined":
            bs = [ev.recv]
        elif ev.kind == "store_attr":
            bs = [b for b in ev.base if b[0] != "self" and level(b) and level(b)[1] > 0]
        else:
            return NotImplemented
        for b in bs:
            lv = level(b)
            if lv and lv[0][0] == "self" and len(lv[0]) > 1:
                self.out.setdefault(lv, ev)
            if ev.kind != "store_attr":
                for o, q, n in st.mon:
                    if o == b:
                        self.out.setdefault((q, n), ev)
        new = set()
        if ev.kind in ("store_sub", "store_attr"):
            for b in ev.base:
                lv = level(b) if ev.kind == "store_sub" else (("self", ev.attr), -1) if b[0] == "self" else None
                if lv and lv[0][0] == "self" and len(lv[0]) > 1:
                    new |= {(t, lv[0], lv[1] + 1) for t in ev.value if t[0] == "obj"}
        return st.mon | new if new - st.mon else NotImplemented


def inplace_levels(k):
    """{(path, depth of the container that is changed in place): event}"""
    mon = AliasMonitor()
    for f in k.funcs:
        ip = Interp(k.p, mon, inline_classes=k.m.helpers)
        ip.run(f, k.cls)
    return mon.out


# ---------------------------------------------------------------- C04
def c04(p, cx):
    cx.rule("forward", "save_state, merge_states and restore_state call the same operation on every nested dataset")
    cx.rule("match", "merging and restoring hand each nested dataset the state that was saved from it")
    cx.rule("reset", "restore_state(None) resets every nested dataset")
    fs = facts(p)
    n = 0
    for k in fs:
        c, m = k.cls, k.m
        if k.helper:
            continue
        for which in ("save", "merge", "restore"):
            for what, a, ev, t in decide.conditional(p, k, which):
                if what in decide.OPS and a in k.ds_attrs:
                    cx.bad("forward", f"{c.name}.{a} {which} decided", ev.where(), f"{what} of the nested dataset depends on {fmt(t)}")
        for a in sorted(k.ds_attrs):
            if k.ds_attrs[a].name in m.helpers:
                continue        # inlined: C01 and C02 follow its fields
            n += 1
            con = f"{c.name}.{a}"
            cx.fn(m.save_fn)
            cx.fn(m.merge_fn)
            cx.fn(m.restore_fn)
            fields = set()
            for r, st, fl in m.save_variants:
                hit = False
                for f, v in fl.items():
                    for t in v:
                        for x in all_terms(t, st):
                            if is_call_on(x, a, "save_state"):
                                fields.add((f, idx_shape(x[1][1], st)))
                                hit = True
                cx.check(hit, "forward", con + " save", where(m.save_fn),
                         "a path through save_state does not save the nested dataset")
            for variants, ip, what in ((m.merge_variants, m.merge_ip, "merge"), (m.none_variants, m.none_ip, "merge of idle workers")):
                for r, st, fl in variants:
                    hit = False
                    for f, v in fl.items():
                        for t in v:
                            for x in all_terms(t, st):
                                if is_call_on(x, a, "merge_states"):
                                    hit = True
                                    if what != "merge":
                                        continue
                                    ok, why = merge_arg(x, st, m, fields)
                                    cx.check(ok, "match", con + " merge", where(m.merge_fn), why)
                    cx.check(hit, "forward", f"{con} {what}", where(m.merge_fn),
                             "a path through merge_states does not merge the nested dataset")
            for vc, mon, rets, ip in m.restores:
                hits = [(v, st, ev) for full, v, st, ev in mon.stores if full[0] == a and ev.kind == "call"
                        and ev.name == "restore_state"]
                cx.check(bool(hits), "forward", con + " restore", where(m.restore_fn),
                         "restore_state does not restore the nested dataset")
                if hits and not any(is_elem(ev.recv) for v, st, ev in hits):
                    for r in rets:
                        cx.check((a,) in r, "forward", con + " restore on every path", where(m.restore_fn),
                                 "a path through restore_state skips the nested dataset")
                for v, st, ev in hits:
                    for t in v:
                        ok = pure_path(t)
                        cx.check(ok, "match", con + " restore", ev.where(),
                                 f"restored from {fmt(t, ip)}")
            mon, rets, ip = m.reset
            hits = [(v, st, ev) for full, v, st, ev in mon.stores if full[0] == a and ev.kind == "call"
                    and ev.name == "restore_state"]
            cx.check(bool(hits) and all(v == VNONE for v, st, ev in hits), "reset", con, where(m.restore_fn),
                     "restore_state(None) does not reset the nested dataset")
            if hits and not any(is_elem(ev.recv) for v, st, ev in hits):
                for r in rets:
                    cx.check((a,) in r, "reset", con + " on every path", where(m.restore_fn),
                             "a path through restore_state(None) skips the nested dataset")
    cx.floor("nested datasets", n, 12)


def is_elem(t):
    return t is not None and any(x[0] in ("elem",) or x[0] == "sub" for x in subterms(t))


def pure_path(t):
    if t == NONE:
        return True
    return apath(t) is not None and not any(x[0] == "slice" for x in subterms(t))


def all_terms(t, st, seen=None):
    if seen is None:
        seen = set()
    for x in subterms(t):
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x[0] == "obj" and x in st.heap:
            for k, v in st.heap[x][1]:
                for y in v:
                    if y not in seen:
                        yield from all_terms(y, st, seen)


def is_call_on(x, a, name):
    if x[0] != "call" or x[1][0] not in ("attr", "bm"):
        return False
    if x[1][0] == "attr" and x[1][2] != name:
        return False
    q = apath(x[1][1])
    return q is not None and q[:2] == ("self", a)


def idx_shape(t, st):
    return None


def merge_arg(x, st, m, fields):
    """Argument of inner.merge_states: the same field of every worker's state, in order."""
    if not x[2]:
        return False, "called without states"
    arg = x[2][0]
    ps = paths(arg, st)
    ps = {q for q in ps if q[0] == "param:" + m.states_param}
    want = {f for f, _ in fields}
    if not ps:
        return False, "not given the workers' states"
    for q in ps:
        if not any(q[1:][:len(f)] == tuple(f) for f in want):
            return False, f"given field {'.'.join(q[1:])} but the nested dataset was saved in " \
                          f"{sorted('.'.join(f) for f in want)}"
    # an index of the inner dataset must be used on the states as well (several nested datasets)
    recv = x[1][1]
    if is_elem(recv):
        need = index_of(recv)
        got = set()
        for y in all_terms(arg, st):
            if y[0] == "sub" and apath(y) and apath(y)[0] == "param:" + m.states_param:
                got.add(y[2])
        if not got:
            return False, "the states are not selected per nested dataset"
        for g in got:
            if not same_index(g, recv):
                return False, f"state number {fmt(g)} is given to another nested dataset"
    return True, ""


def index_of(recv):
    return None


def same_index(g, recv):
    """Index term g belongs to the iteration that produced recv (or is its subscript)."""
    for x in subterms(recv):
        if x[0] == "sub" and x[2] == g:
            return True
    if g[0] == "index":
        for x in subterms(recv):
            if x[0] == "elem" and x[1] == g[1]:
                return True
    return False


# ---------------------------------------------------------------- C05
def c05(p, cx):
    cx.rule("slots", "each merged per-worker list is built by one pass over the states, one entry per state, in order")
    cx.rule("idle", "merging never reads a field of a missing state")
    cx.rule("any", "a part of the state is merged if any worker has it, whatever the others have")
    cx.rule("default", "the entry of a worker without state equals what a fresh dataset has for a worker")
    fs = facts(p)
    cx.floor("stateful classes", len(fs), 15)
    byname = {k.cls.name: k for k in fs}
    for k in fs:
        c, m = k.cls, k.m
        cx.fn(m.merge_fn)
        deciding(p, cx, k)
        for attr, ev in m.none_access:
            cx.bad("idle", f"{c.name}.{attr}", ev.where(), "reads a field of the state of an idle worker (None)")
        cx.ok("idle", c.name, where(m.merge_fn))
        for r, st, fl in m.merge_variants:
            for f, v in sorted(fl.items()):
                name = ".".join(f) or "<state>"
                for t in v:
                    for x in lists_of_states(t, st, m):
                        ok, why = slot_list(x, st, m)
                        cx.check(ok, "slots", f"{c.name}.{name}", where(m.merge_fn), why)
        for r, st, fl in m.none_variants:
            for g, v in sorted(fl.items()):
                name = ".".join(g)
                for t in v:
                    if t[0] != "obj" or t not in st.heap:
                        continue
                    got = norm1(leaf(t, st))
                    exp = expected_default(k, g, byname)
                    if exp == "skip":
                        continue
                    cx.check(got == exp, "default", f"{c.name}.{name}", where(m.merge_fn),
                             f"idle worker contributes {expand(st, t, m.none_ip)}, a fresh one has {exp}")


def deciding(p, cx, k):
    """Conditions on the workers' states which select what is merged"""
    c, m = k.cls, k.m
    sp = ("param", m.states_param)
    asserted = {id(n) for f in c.mro() for g in f.methods.values() for a in ast.walk(g.node) if isinstance(a, ast.Assert)
                for n in ast.walk(a)}
    seen = {}

    class Deciding(Monitor):
        def event(self, ev, st, ip):
            if ev.kind == "branch" and id(ev.node) not in asserted:
                for t in ev.cond or ():
                    for x in subterms(t):
                        why = None
                        if x[0] == "call" and x[1] == ("ext", "all") and over(x, st):
                            why = "only if all workers have it"
                        elif x[0] == "sub" and x[1] == sp and x[2][0] in ("const", "unop"):
                            why = "depending on the state of one fixed worker"
                        if why:
                            seen.setdefault(why, ev)
            return NotImplemented

    def over(x, st):
        for a in x[2]:
            for y in all_terms(a, st):
                if y == sp:
                    return True
                if y[0] == "obj" and y in st.heap and isinstance(st.heap[y][0], tuple) and \
                        any(z == sp for q in st.heap[y][0][1:] if isinstance(q, tuple) for z in subterms(q)):
                    return True
        return False

    Interp(p, Deciding()).run(m.merge_fn, c)
    for why, ev in seen.items():
        cx.bad("any", c.name, ev.where(), f"a part of the state is merged {why}")
    if not seen:
        cx.ok("any", c.name, where(m.merge_fn))


def lists_of_states(t, st, m):
    """Lists (or passed-through iterables) built from the states parameter inside a merged value."""
    sp = ("param", m.states_param)
    for x in all_terms(t, st):
        if x[0] == "obj" and x[1] in ("list", "set", "dict") and x in st.heap:
            sh, items = st.heap[x]
            src = [y for y in sh[1:] if isinstance(y, tuple)] if isinstance(sh, tuple) else []
            flow = any(q[0] == "param:" + m.states_param for kk, v in items for q in vpaths(v, st))
            direct = any(sp in set(subterms(y)) for y in src)
            if direct or (flow and not src):
                yield x
        elif x[0] == "call" and any(y == sp for a in x[2] for y in subterms(a)) and x[1][0] != "bm":
            yield x


def slot_list(x, st, m):
    sp = ("param", m.states_param)
    if x[0] == "call":
        f = x[1]
        n = f[1] if f[0] == "ext" else f[2] if f[0] == "attr" else None
        if n in ("list", "tuple") or n == "merge_states":
            return True, ""
        return False, f"the states are passed through {fmt(x)}"
    sh, items = st.heap[x]
    if x[1] != "list":
        return False, f"collected in a {x[1]}, which has no worker order"
    if isinstance(sh, tuple):
        if sh[0] == "filter":
            return False, "workers are left out of the list"
        its = [y for y in sh[1:] if isinstance(y, tuple) and y and isinstance(y[0], str)]
        for y in its:
            if sp in set(subterms(y)) and y != sp and not (y[0] == "call" and y[1] == ("ext", "enumerate")):
                return False, f"built over {fmt(y)} instead of all states in order"
        return True, ""
    if sh == "lit" and not any(kk == "*" for kk, v in items):
        return False, "a fixed list instead of one entry per worker"
    return True, ""


def expected_default(k, g, byname):
    """Leaf ('L', x) a fresh object holds in the attribute that merged field g restores."""
    m = k.m
    fulls = set()
    for vc, mon, rets, ip in m.restores:
        for full, v, st, ev in mon.stores:
            for q in vpaths(v, st):
                if q[0] == "param:" + m.state_param and q[1:] == tuple(g):
                    fulls.add(full)
    exps = set()
    for full in fulls:
        kk = k
        if len(full) == 2:
            ty = k.p.attr_type(k.cls, full[0])
            if ty and ty[0] == "cls" and ty[1].name in byname:
                kk = byname[ty[1].name]
                full = full[1:]
        if len(full) != 1:
            return "skip"
        e = kk.m.init.get(full[0])
        if e == ("c", None):
            # restored through a pending field: 'None' means 'nothing to restore'
            e = ("L", ("c", None))
        elif full[0] in kk.m.init and e is None:
            return "skip"
        exps.add(e)
    if len(exps) != 1:
        return "skip"
    return next(iter(exps))
