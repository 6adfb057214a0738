"""What saving, merging and restoring may be decided by: whether a part is there, of which kind it is, whose slot it is -
not by what the parts hold."""
import ast

from ..flow import Interp, Monitor, subterms
from ..statemodel import apath, self_attrs, vpaths

OPS = ("save_state", "merge_states", "restore_state")


def root(t):
    q = apath(t)
    if q is None and t[0] == "call" and t[1] == ("ext", "len") and len(t[2]) == 1:
        q = apath(t[2][0])
    return q


def decided(t, taken):
    """(test, how it came out, attribute of self which is tested for being empty), or None if the test is about absence only"""
    from . import epochs      # which need the facts of state.py
    from .takes import plain
    t, taken = plain(t, taken)
    if t[0] == "cmp" and t[1] in ("Is", "IsNot"):
        return None
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("isinstance", "issubclass", "callable", "hasattr"):
        return None
    if t[0] == "call" and (t[1][0] in ("attr", "bm")) and "log" in repr(t[1][2] if t[1][0] == "attr" else t).lower():
        return None
    names = {x[2] for x in subterms(t) if x[0] == "attr" and x[1] == ("self",)}
    if names and names <= {"worker_config"} or any(x[0] == "attr" and x[2] in ("num_workers", "world_size") for x in subterms(t)):
        return None
    if t[0] == "cmp" and t[1] in ("Eq", "NotEq"):
        if any(x[0] == "index" for x in t[2:]):
            return None          # whose slot
        if any(x == ("const", None) for x in t[2:]):
            return None
    own = None
    for x in subterms(t):
        q = root(x)
        if q and (t == x or x[0] == "call") and all(epochs.emptiness(t, b, lambda y, x=x: y == x) is not None for b in (True, False)):
            if q[0] != "self":
                return None      # a part of the state which is empty
            own = q[1] if len(q) > 1 else None
            break
    return (t, bool(taken), own)


class Decisions(Monitor):
    """mon = decisions on the way: frozenset of (test, outcome, attribute)"""

    def __init__(self, k, skip):
        self.k, self.skip = k, skip
        self.effects = {}     # (what, attribute, place) -> (event, list of mons)
        self.where = {}

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        k = ev.kind
        if k == "branch" and id(ev.node) not in self.skip and len(ev.cond) == 1:
            d = decided(next(iter(ev.cond)), ev.taken)
            if d is None:
                return NotImplemented
            self.where.setdefault(d[0], ev)
            return frozenset(x for x in st.mon if x[0] != d[0]) | {d}
        if k == "call" and ev.name in OPS and ev.recv is not None:
            q = apath(ev.recv)
            if q and q[0] == "self" and len(q) > 1:
                self.effect((ev.name, q[1]), ev, st)
            elif q and ev.name == "restore_state" or q is None and ev.name == "restore_state":
                self.effect((ev.name, "the nested state"), ev, st)
        if k in ("store_attr", "store_sub"):
            for b in ev.base:
                q = apath(b)
                if q and q[0] == "self":
                    a = q[1] if len(q) > 1 else ev.attr if k == "store_attr" else None
                    if a is not None and any(x[0].startswith("param:") for x in vpaths(ev.value, st)):
                        self.effect(("store", a), ev, st)
        return NotImplemented

    def effect(self, what, ev, st):
        self.effects.setdefault(what + (ev.loc(),), (ev, []))[1].append(st.mon)


def asserted(p):
    return {id(n) for f in p.all_functions() for a in ast.walk(f.node) if isinstance(a, ast.Assert) for n in ast.walk(a)}


_asserts = {}


def conditional(p, k, which):
    """[(what, attribute, event, test)]: parts of the state handled only if something about their content holds"""
    skip = _asserts.setdefault(id(p), None)
    if skip is None:
        skip = _asserts[id(p)] = asserted(p)
    out = []
    m = k.m
    f = {"save": m.save_fn, "merge": m.merge_fn, "restore": m.restore_fn}[which]
    mon = Decisions(k, skip)
    o = Interp(p, mon, inline_classes=m.helpers).run(f, k.cls)
    ends = [(st, v) for st, v, _ in o.ret] + [(st, frozenset()) for st in o.normal or ()]
    last = {d for st, _ in ends for d in st.mon}
    # ways on which something is done at all
    for (what, a, loc), (ev, mons) in mon.effects.items():
        same = [x for (w, b, _), (_, xs) in mon.effects.items() if (w, b) == (what, a) for x in xs]
        for d in sorted({d for x in mons for d in x}, key=repr):
            other = (d[0], not d[1])
            if d[2] == a:
                continue
            if all(any(e[:2] == d[:2] for e in x) for x in mons) and any(e[:2] == other for e in last) and \
                    not any(e[:2] == other for x in same for e in x):
                out.append((what, a, ev, d[0]))
    if which == "save":
        for t in {d[0] for d in last}:
            by = {}
            for st, v in ends:
                for d in st.mon:
                    if d[0] == t:
                        own = d[2]
                        by.setdefault(d[1], set()).update(a for q in [vpaths(v, st)] for a in self_attrs(q))
            if len(by) == 2:
                for a in sorted(by[True] ^ by[False]):
                    if a in mon.k.adv or a in mon.k.touched:
                        if a != own:
                            out.append(("save", a, mon.where[t], t))
    return out
