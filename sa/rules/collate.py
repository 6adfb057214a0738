"""C37: putting samples together and converting them keeps everything.

The functions are interpreted; lists and dicts built from the samples are abstract objects which know what they were built from
(all elements, filtered, sliced), the elements are terms which know which field of which sample they are."""
import re

from ..flow import Interp, Monitor, subterms
from ..model import AnalysisBroken
from .pipeline import UNKNOWN

SELF = ("self",)
REORDER = {"reversed", "sorted", "set", "frozenset", "dict.fromkeys"}
CONVERT = {"float", "half", "double", "int", "long", "short", "bool", "byte", "char", "bfloat16"}
EMPTY = {"new_empty", "torch.empty", "torch.empty_like", "new_ones", "torch.ones"}


class Case(Monitor):
    """Follows the branches of one case; truth: term -> True / False / None"""

    def __init__(self, truth=lambda t, ip: None, P=None):
        self.truth, self.P = truth, P
        self.stores, self.missing, self.iters = [], [], []

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind == "branch":
            rs = {self.truth(t, ip) for t in ev.cond}
            if len(rs) == 1 and None not in rs and next(iter(rs)) != ev.taken:
                return []
        if ev.kind == "iter":
            self.iters.append((ev, st))
            return frozenset({("left", ev.value)})
        if ev.kind == "store_sub":
            self.stores.append((ev, st))
            return frozenset()
        if ev.kind == "loop_back":
            self.missing += [(ev, v) for k, v in st.mon if v == ev.value]
            return frozenset()
        return NotImplemented


def strip_iter(t):
    while t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("enumerate", "list", "tuple", "iter") and t[2]:
        t = t[2][0]
    return t


def cuts(t, P):
    """Takes only some samples or fields, or in another order"""
    for x in subterms(t):
        if x[0] == "slice" and re.search(r"\d", repr(x[2])) and any(y == P for y in subterms(x[1])):
            return "only some of"
        if x[0] == "call" and x[1][0] == "ext" and x[1][1].replace("builtins.", "") in REORDER:
            return "in another order"
    return None


def objs(v, st):
    out, work = [], list(v)
    seen = set()
    while work:
        for x in subterms(work.pop()):
            if x[0] == "obj" and x in st.heap and x not in seen:
                seen.add(x)
                out.append(x)
                shape, items = st.heap[x]
                if isinstance(shape, tuple):
                    work += [y for y in shape if isinstance(y, tuple)]
                work += [e for _, vs in items for e in vs]
    return out


def reads(t, P):
    """Fields read from samples: the terms naming them"""
    out = []
    for x in subterms(t):
        if x[0] == "sub" and x[1] in (("elem", P), P) and x[2] != ("const", 0):
            out.append(x[2])
        if x[0] == "call" and x[1] == ("ext", "getattr") and len(x[2]) >= 2 and x[2][0] in (("elem", P), P):
            out.append(x[2][1])
    return out


class Check:
    def __init__(self, p, cx, f, P):
        self.p, self.cx, self.f, self.P = p, cx, f, P
        self.told = set()

    def say(self, good, rule, what, node, msg):
        if not good and (rule, msg) in self.told:
            return
        if not good:
            self.told.add((rule, msg))
        self.cx.check(good, rule, f"{self.f.qualname}: {what}", self.f.loc(node), msg)

    def built(self, v, st, node):
        """Everything reachable from a returned value"""
        name = self.f.qualname
        for x in objs(v, st):
            shape, items = st.heap[x]
            if isinstance(shape, tuple):
                self.say(shape[0] != "filter", "C37.all", "nothing left out", node, f"{name} leaves out some of the samples or fields")
                for y in shape:
                    if isinstance(y, tuple):
                        c = cuts(y, self.P)
                        self.say(c is None, "C37.all", "all of it, in order", node, f"{name} takes the samples or fields {c}")
            for k, vs in items:
                if not (isinstance(k, tuple) and k[0] == "k"):
                    continue
                for e in vs:
                    inner = [e] + [z for o in objs([e], st) for _, ws in st.heap[o][1] for z in ws] \
                        if not any(o[1] == "dict" for o in objs([e], st)) else [e]
                    for z in inner:
                        for r in reads(z, self.P):
                            self.say(r == k[1], "C37.same", "same field", node, f"{name} puts the values of one field into another")
                        for y in subterms(z):
                            if y[0] == "val" and k[1][0] == "key":
                                self.say(y[1] == k[1][1], "C37.same", "same field", node, f"{name} puts the values of one field into another")
        one = [t for t in list(v) + [e for x in objs(v, st) for _, vs in st.heap[x][1] for e in vs]
               if t[0] == "sub" and t[1] == self.P and t[2][0] == "const"]
        self.say(not one, "C37.all", "all of it", node, f"{name} returns only one of the samples or fields")
        for t in v:
            c = cuts(t, self.P)
            self.say(c is None, "C37.all", "all of it, in order", node, f"{name} takes the samples or fields {c}")


def run(p, f, c, truth=lambda t, ip: None, no_inline=()):
    ps = [x for x in f.params()[0] if x != "self"]
    P = ("param", ps[0])
    m = Case(truth, P)
    ip = Interp(p, m, no_inline=tuple(no_inline))
    ip.folds = ip.bool_branches = True
    return m, ip, ip.run(f, c), P


def whole(t, st, P):
    """The list itself or a full copy"""
    t = strip_iter(t)
    if t == P or t[0] == "slice" and t[1] == P and cuts(t, P) is None:
        return True
    return t[0] == "obj" and t in st.heap and isinstance(st.heap[t][0], tuple) and st.heap[t][0][0] == "map" and any(
        isinstance(y, tuple) and strip_iter(y) == P for y in st.heap[t][0]) and \
        all(e == ("elem", P) for _, vs in st.heap[t][1] for e in vs)


def batchers(p, cx):
    """The functions which put the values of one field together"""
    te = p.cls("TaskEncoder")
    fs = {f.name: f for f in p.all_functions() if f.cls is None and f.outer is None and f.module is te.module and
          f.name in ("generic_batch", "batch_stack", "batch_pad_stack", "batch_list")}
    if len(fs) < 4:
        raise AnalysisBroken("the functions which batch values are gone")
    for name, f in sorted(fs.items()):
        cx.fn(f)
        m, ip, o, P = run(p, f, None, no_inline=[x for x in fs])
        k = Check(p, cx, f, P)
        for st, v, node in o.ret:
            k.built(v, st, node)
            if name == "batch_list":
                k.say(all(whole(t, st, P) for t in v), "C37.all", "the values", node, "batch_list does not return the values of all samples")
            if name == "batch_stack":
                k.say(all(t[0] == "call" and t[2] and whole(t[2][0], st, P) or t[0] == "call" and not t[2] and any(
                    whole(x, st, P) for _, x in t[3]) for t in v), "C37.all", "the values", node,
                    "batch_stack does not stack the values of all samples")
            if name == "generic_batch":
                generic(p, k, v, st, node, ip, fs, P)
        for ev, st in m.iters:
            for t in ev.value or ():
                c = cuts(t, P)
                k.say(c is None, "C37.all", "all of it, in order", ev.node, f"{f.qualname} takes the samples or fields {c}")
        if name == "batch_pad_stack":
            padding(k, m, o, P)


def generic(p, k, v, st, node, ip, fs, P):
    for t in v:
        if t[0] == "call" and t[1][0] == "func" and ip.func_of(t[1]).name in fs:
            k.say(bool(t[2]) and whole(t[2][0], st, P), "C37.all", "values handed on", node,
                  f"generic_batch does not hand all samples to {ip.func_of(t[1]).name}")
            continue
        if t[0] == "call" and t[1] == ("ext", "torch.stack"):
            continue
        # field by field
        fields = [x for x in objs([t], st) if x[1] == "dict"]
        if not fields:
            k.say(whole(t, st, P) or any(y == P for y in subterms(t)), "C37.all", "values", node, "generic_batch drops the samples")
            continue
        for x in fields:
            for key, vs in st.heap[x][1]:
                for e in vs:
                    if isinstance(key, tuple) and key[0] == "k":
                        good = e[0] == "call" and e[1][0] == "func" and ip.func_of(e[1]).name in fs and e[2]
                        k.say(bool(good), "C37.all", "each field is put together", node,
                              "generic_batch does not put the values of a field together")
                        if good:
                            a = e[2][0]
                            ok = a[0] == "obj" and a in st.heap and isinstance(st.heap[a][0], tuple) and any(
                                isinstance(y, tuple) and strip_iter(y) == P for y in st.heap[a][0])
                            k.say(ok or a[0] != "obj" or a not in st.heap or not isinstance(st.heap[a][0], tuple), "C37.all",
                                  "a field of all samples", node, "generic_batch does not take a field from all samples")


def padding(k, m, o, P):
    for st, v, node in o.ret:
        for t in v:
            if t[0] != "call":
                continue
            n = t[1][2] if t[1][0] == "attr" else t[1][1] if t[1][0] == "ext" else ""
            k.say(n not in EMPTY, "C37.pad", "padded with zeros", node, "batch_pad_stack does not pad with zeros")
            kind = dict(t[3]).get("dtype")
            if n.startswith("torch.") and n.rsplit(".", 1)[1] in ("zeros", "full") or kind is not None:
                k.say(kind is not None and (kind[0] not in ("ext", "const") or
                                            kind == ("const", None) and not n.startswith("torch.")),
                      "C37.pad", "type of the values", node,
                      "batch_pad_stack does not give the batch the type of the samples' values: they may be rounded or cut")
            k.say(n not in CONVERT, "C37.pad", "type of the values", node,
                  f"batch_pad_stack converts the values ({n}): they may be rounded or cut")
            if n in ("new_full", "torch.full"):
                fill = t[2][1] if len(t[2]) > 1 else dict(t[3]).get("fill_value")
                k.say(fill in (("const", 0), ("const", 0.0)), "C37.pad", "padded with zeros", node, "batch_pad_stack does not pad with zeros")
            least = [x for z in objs(v, st) for _, vs in st.heap[z][1] for e in vs for x in subterms(e)
                     if x[0] == "call" and x[1] == ("ext", "min")] + \
                [x for x in subterms(t) if x[0] == "call" and x[1] == ("ext", "min")]
            k.say(not least, "C37.pad", "large enough", node, "batch_pad_stack makes the batch as small as its smallest sample")
            for z in objs(v, st):
                for _, vs in st.heap[z][1]:
                    for e in vs:
                        for x in subterms(e):
                            if x[0] == "call" and x[1] == ("ext", "max") and x[2]:
                                for y in objs([x[2][0]], st):
                                    k.built([y], st, node)
    into = {t for st, v, node in o.ret for t in v if t[0] == "call"}
    mine = [(ev, st) for ev, st in m.stores if into & set(ev.base or ())]
    if not mine:
        return
    for ev, st in mine:
        k.say(all(t == ("elem", P) for t in ev.value), "C37.pad", "values stored", ev.node,
              "batch_pad_stack does not store the values of the samples")
        first = [t[1][0] if t[0] == "tuple" else t for t in ev.index or ()]
        k.say(all(t in (("index", P), ("any", (("index", P),))) or t[0] == "index" or t[0] not in ("const", "elem") for t in first), "C37.pad",
              "own row", ev.node, "batch_pad_stack does not store each sample in its own row")
    for ev, v in m.missing:
        k.say(not any(strip_iter(t) == P for t in v), "C37.pad", "each sample", ev.node, "batch_pad_stack does not store each of the samples")


def fields(p, cx):
    """_batch: field by field with the function configured for it"""
    te = p.cls("TaskEncoder")
    f = te.find_method("_batch")
    if f is None:
        raise AnalysisBroken("TaskEncoder._batch is gone")
    cx.fn(f)
    A, D = ("param", "actions"), ("param", "default_action")
    for label, given, has in (("without actions", False, False), ("for a field without an action", True, False), ("for a field with an action", True, True)):
        def truth(t, ip):
            neg = False
            while t[0] == "not":
                t, neg = t[1], not neg
            r = None
            if t == A:
                r = given
            elif t[0] == "cmp" and t[1] in ("Is", "IsNot", "Eq", "NotEq") and A in (t[2], t[3]) and ("const", None) in (t[2], t[3]):
                r = (t[1] in ("IsNot", "NotEq")) == given
            elif t[0] == "cmp" and t[1] in ("In", "NotIn") and any(x == A for x in subterms(t[3])) and given:
                r = (t[1] == "In") == has
            return None if r is None else r != neg
        m, ip, o, P = run(p, f, te, truth)
        k = Check(p, cx, f, P)
        n = 0
        for st, v, node in o.ret:
            k.built(v, st, node)
            for x in objs(v, st):
                for key, vs in st.heap[x][1]:
                    for e in vs:
                        if not (isinstance(key, tuple) and key[0] == "k") or e[0] != "call":
                            continue
                        if not ({A, D} & set(subterms(e[1]))) and e[1][0] != "func":
                            continue
                        n += 1
                        get = e[1][0] == "call" and e[1][1] == ("attr", A, "get")
                        act = e[1][0] == "sub" and e[1][1] == A
                        good = get and e[1][2][-1] == D and given or (act if has else e[1] == D)
                        k.say(bool(good), "C37.action", label, node, f"TaskEncoder._batch does not use the configured function {label}")
                        if act or get:
                            of = e[1][2] if act else e[1][2][0]
                            k.say(of == key[1], "C37.action", "own field", node, "TaskEncoder._batch uses the function of another field")
        if not n:
            cx.notes.append("how TaskEncoder._batch uses its functions is not followed")


KINDS = ("None", "dict", "other")
TYPES = {"encode_sample": "encoded_sample_type", "batch": "raw_batch_type", "encode_batch": "batch_type"}


def types(p, cx):
    """The default encoder returns the configured types"""
    c = p.cls("DefaultTaskEncoder")
    stored = {}

    class Init(Monitor):
        def event(self, ev, st, ip):
            if ev.kind == "store_attr" and SELF in ev.base:
                for t in ev.value:
                    if t[0] == "param":
                        stored[t[1]] = ev.attr
            return NotImplemented
    Interp(p, Init()).run(c.find_method("__init__"), c)
    for name, par in sorted(TYPES.items()):
        f = c.methods.get(name)
        if f is None or par not in stored:
            raise AnalysisBroken(f"the types of DefaultTaskEncoder.{name} are not understood")
        cx.fn(f)
        T = ("attr", SELF, stored[par])
        R = ("attr", SELF, stored["raw_batch_type"])
        raws = ("None", "same", "different") if name == "encode_batch" else ("-",)
        for kind in KINDS:
            for raw in raws:
                if raw == "same" and kind == "None":
                    continue

                def truth(t, ip, kind=kind, raw=raw):
                    neg = False
                    while t[0] == "not":
                        t, neg = t[1], not neg
                    r = None
                    if t == T:
                        r = kind != "None"
                    elif t == R and name == "encode_batch":
                        r = raw != "None"
                    elif t[0] == "cmp" and t[1] in ("Is", "IsNot", "Eq", "NotEq"):
                        yes = t[1] in ("Is", "Eq")
                        ab = {t[2], t[3]}
                        if ab == {T, ("const", None)}:
                            r = (kind == "None") == yes
                        elif ab == {R, ("const", None)} and raw != "-":
                            r = (raw == "None") == yes
                        elif ab == {R, T} and raw != "-":
                            r = (raw == "same" or raw == kind == "None") == yes
                    elif t[0] == "call" and t[1] == ("ext", "isinstance") and len(t[2]) == 2 and t[2][1] == T:
                        r = False
                    elif t[0] == "call" and t[1] == ("ext", "issubclass") and len(t[2]) == 2 and t[2][0] == T and kind != "None":
                        r = kind == "dict" if t[2][1] == ("ext", "dict") else None
                    return None if r is None else r != neg
                m, ip, o, P = run(p, f, c, truth, no_inline=("generic_batch", "batch_pad_stack", "batch_list"))
                k = Check(p, cx, f, P)
                label = f"{par} " + {"None": "not set", "dict": "dict"}.get(kind, "set") + \
                    {"None": ", raw_batch_type not set", "different": ", raw_batch_type another one"}.get(raw, "")
                k.say(bool(o.ret), "C37.type", "returns", f.node, f"{f.qualname} returns nothing with {label}")
                for st, v, node in o.ret:
                    k.built(v, st, node)
                    for t in v:
                        made = t[1] if t[0] == "call" and t[1][0] in ("attr", "call") else None
                        if kind == "None":
                            own = made is not None and made[0] == "attr" and made[1] == SELF
                            k.say(not own, "C37.type", label, node, f"{f.qualname} converts with {label}")
                            if name != "batch":
                                k.say(t == P, "C37.type", label, node, f"{f.qualname} does not return its input with {label}")
                        elif kind == "other" and raw != "same":
                            k.say(made == T, "C37.type", label, node, f"{f.qualname} does not return the configured type with {label}")
                        elif kind == "dict" and raw != "same" and name != "batch":
                            k.say(made is None or made[:2] != ("attr", SELF), "C37.type", label, node, f"{f.qualname} does not return the configured type with {label}")


def check(p, cx):
    cx.rule("C37.all", "every sample and every field gets into the result, in order")
    cx.rule("C37.same", "a field of the result is made of the same field of the samples")
    cx.rule("C37.pad", "padding keeps all values and adds zeros only")
    cx.rule("C37.action", "each field is put together by the function configured for it")
    cx.rule("C37.type", "samples and batches are converted exactly if another type is configured")
    batchers(p, cx)
    fields(p, cx)
    types(p, cx)
