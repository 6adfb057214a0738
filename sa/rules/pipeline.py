"""C38: the pipeline which is built is the configured one.

Each function which builds (a part of) the pipeline is interpreted once per setting: branches on the settings are
decided, the returned value is a term of nested constructor calls, which is compared with the stages the settings ask for."""
import itertools

from ..flow import Interp, Monitor, V, subterms
from ..model import AnalysisBroken

SELF = ("self",)
USER = ("encode_sample", "batch", "encode_batch", "batch_group_criterion", "select_samples_to_pack", "pack_selected_samples",
        "cook_crude_sample")
PARTS = ("build_batch", "build_encode_sample", "build_cook_crude_sample")
CMP = {"Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b, "Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b,
       "Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b, "Is": lambda a, b: a is b or a == b,
       "IsNot": lambda a, b: not (a is b or a == b)}
NUM = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "FloorDiv": lambda a, b: a // b,
       "Mod": lambda a, b: a % b, "Div": lambda a, b: a / b}
UNKNOWN = ("unknown",)


class Setting:
    """args: values of the parameters; n: number of datasets; defined: {user function: class which defines it}"""

    def __init__(self, label, args, defined=None, n=1, cookers=True):
        self.label, self.args, self.defined, self.n, self.cookers = label, args, defined or {}, n, cookers


def user_fn(t, ip):
    """Name of the user function a term stands for, and whether it is the plain function"""
    if t[0] == "bm" and t[1] == SELF:
        f = ip.func_of(t)
        return (f.name, False) if f is not None else None
    if t[0] == "attr":
        if t[2] == "__func__":
            u = user_fn(t[1], ip)
            return (u[0], True) if u else None
        if t[1] == SELF:
            return t[2], False
        if t[1][0] == "call" and t[1][1] == ("ext", "type") and t[1][2] == (SELF,) or t[1] == ("attr", SELF, "__class__"):
            return t[2], True
    if t[0] == "call" and t[1] == ("ext", "getattr") and len(t[2]) >= 2 and t[2][1][0] == "const":
        if t[2][1][1] == "__func__":
            u = user_fn(t[2][0], ip)
            return (u[0], True) if u else None
        return user_fn(("attr", t[2][0], t[2][1][1]), ip)
    return None


def owner_fn(t, ip):
    """(class, name) of a function taken from a class"""
    if t[0] == "func":
        f = ip.func_of(t)
        return (f.cls.name, f.name) if f is not None and f.cls is not None else None
    if t[0] == "attr" and t[1][0] == "cls":
        return t[1][1].split(".")[-1].split(":")[-1], t[2]
    if t[0] == "call" and t[1] == ("ext", "getattr") and len(t[2]) >= 2 and t[2][0][0] == "cls" and t[2][1][0] == "const":
        return owner_fn(("attr", t[2][0], t[2][1][1]), ip)
    return None


def value(t, s, ip):
    if t[0] == "const":
        return t[1]
    if t[0] == "param" and t[1] in s.args:
        return s.args[t[1]]
    if t == ("attr", ("param", "worker_config"), "num_workers"):
        return 3
    if t == ("attr", ("param", "worker_config"), "world_size"):
        return 4
    if t == ("attr", SELF, "cookers"):
        return (1,) if s.cookers else ()
    if t == ("param", "datasets"):
        return [0] * s.n
    if t[0] == "binop" and t[1] in NUM:
        a, b = value(t[2], s, ip), value(t[3], s, ip)
        try:
            return NUM[t[1]](a, b) if UNKNOWN not in (a, b) else UNKNOWN
        except (TypeError, ZeroDivisionError):
            return UNKNOWN
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("len", "max", "min", "int", "bool", "abs"):
        args = [value(a, s, ip) for a in t[2]]
        try:
            return {"len": len, "max": max, "min": min, "int": int, "bool": bool, "abs": abs}[t[1][1]](*args) \
                if UNKNOWN not in args and args else UNKNOWN
        except (TypeError, ValueError):
            return UNKNOWN
    if t[0] in ("cmp", "not"):
        r = truth(t, s, ip)
        return UNKNOWN if r is None else r
    return UNKNOWN


def truth(t, s, ip):
    if t[0] == "not":
        r = truth(t[1], s, ip)
        return None if r is None else not r
    if t[0] == "cmp" and t[1] in CMP:
        if t[1] in ("Is", "IsNot", "Eq", "NotEq"):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                u, o = user_fn(a, ip), owner_fn(b, ip)
                if u and o and u[0] == o[1]:
                    same = u[1] and s.defined.get(u[0], "TaskEncoder") == o[0]
                    return same == (t[1] in ("Is", "Eq"))
                if u and b == ("const", None) and u[0] in s.defined:
                    return t[1] in ("IsNot", "NotEq")
        a, b = value(t[2], s, ip), value(t[3], s, ip)
        if UNKNOWN in (a, b):
            return None
        try:
            return bool(CMP[t[1]](a, b))
        except TypeError:
            return None
    if t[0] == "tuple":
        return None
    v = value(t, s, ip)
    return None if v is UNKNOWN else bool(v)


class Decide(Monitor):
    """Follows only the branches the setting takes"""

    def __init__(self, s):
        self.s = s

    def event(self, ev, st, ip):
        if ev.kind == "branch":
            rs = {truth(t, self.s, ip) for t in ev.cond}
            if len(rs) == 1 and None not in rs and next(iter(rs)) != ev.taken:
                return []
        return NotImplemented


class Stage:
    def __init__(self, name, args, term):
        self.name, self.args, self.term = name, args, term


def stages(p, t, ip):
    """Outermost first; the last one is the base"""
    out = []
    while True:
        if t[0] != "call":
            out.append(Stage("", {}, t))
            return out
        if t[1][0] == "cls":
            c = next((c for c in p.classes() if c.qualname == t[1][1]), None)
            f = c.find_method("__init__") if c is not None else None
            name = c.name if c is not None else t[1][1]
        elif t[1][0] == "bm" and t[1][1] == SELF:
            f = ip.func_of(t[1])
            name = f.name
        else:
            out.append(Stage("", {}, t))
            return out
        names = [n for n in f.params()[0] if n != "self"] if f is not None else []
        args = dict(zip(names, [a for a in t[2] if a[0] != "star"]))
        args.update(dict(t[3]))
        if any(a[0] == "star" for a in t[2]) or "dataset" not in args:
            out.append(Stage(name, args, t))
            return out
        out.append(Stage(name, args, t))
        t = args["dataset"]


class Want:
    def __init__(self, name, args=(), optional=False):
        self.name, self.args, self.optional = name, dict(args), optional


def is_same(got, want, s, ip):
    if got == want:
        return True
    if want[0] == "user":
        u = user_fn(got, ip) if got else None
        return got is not None and (u is None and got[0] in ("func", "call") or u is not None and u[0] == want[1])
    if got is None:
        return want == ("const", None)
    a, b = value(got, s, ip), value(want, s, ip)
    return a is not UNKNOWN and a == b


def compare(p, cx, f, s, chain, wants, ip, node, base):
    what = f.qualname
    got = list(reversed(chain))
    if not base(got[0]):
        cx.check(False, "C38.base", f"{what}: the data the pipeline starts from", f.loc(node),
                 f"{what} does not build on {BASES[f.name]} {s.label}")
        return
    got = got[1:]
    i = 0
    for w in wants:
        if i < len(got) and got[i].name == w.name:
            g = got[i]
            i += 1
            for n, v in sorted(w.args.items()):
                cx.check(is_same(g.args.get(n), v, s, ip), "C38.args", f"{what}: {n} of {w.name}", f.loc(node),
                         f"{what} does not give the configured {n} to {w.name} {s.label}")
            continue
        if not cx.check(w.optional, "C38.stage", f"{what}: {w.name}", f.loc(node),
                        f"{what} does not apply {w.name} " + ("(in its place) " if any(x.name == w.name for x in got) else "") + s.label):
            return
    cx.check(i == len(got), "C38.stage", f"{what}: nothing else", f.loc(node),
             f"{what} applies {', '.join(x.name for x in got[i:])} although not configured {s.label}")


BASES = {n: "the given dataset" for n in PARTS}
BASES.update({"build_train_datasets": "all of the given datasets", "build_val_datasets": "all of the given datasets"})


def param(n):
    return ("param", n)


def log(mode):
    return Want("LogSampleDataset", {"mode": ("const", mode)}, optional=True)


def batch_settings():
    for packing, group, size, enc, bat in itertools.product((None, 10), ("TaskEncoder", "User"), (None, 4),
                                                            ("TaskEncoder", "DefaultTaskEncoder", "User"),
                                                            ("TaskEncoder", "DefaultTaskEncoder", "User")):
        for pk in (("User", "User"), ("TaskEncoder", "User"), ("User", "TaskEncoder")) if packing else (("TaskEncoder",) * 2,):
            label = "when " + ", ".join(filter(None, (
                "packing is on" if packing else "", "only one of the packing functions is defined" if packing and "TaskEncoder" in pk else "",
                "grouping is on" if group == "User" else "", f"batch_size is {'set' if size else 'None'}",
                {"User": "encode_batch is overridden", "DefaultTaskEncoder": "encode_batch is the default encoder's"}.get(enc, ""),
                "batch is overridden" if bat == "User" else "")))
            s = Setting(label, {"packing_buffer_size": packing, "batch_size": size, "batch_drop_last": True}, {
                "batch_group_criterion": group, "encode_batch": enc, "batch": bat, "select_samples_to_pack": pk[0],
                "pack_selected_samples": pk[1]})
            if packing and pk != ("User", "User"):
                yield s, None
                continue
            wants = []
            if packing:
                wants.append(Want("PackingDataset", {"buffer_size": param("packing_buffer_size"), "final_packer": ("user", "pack_selected_samples"),
                                                     "pre_packer": ("user", "select_samples_to_pack")}))
            if group == "User":
                wants.append(Want("GroupBatchDataset", {"fixed_batch_size": param("batch_size"), "batcher": ("user", "batch"),
                                                        "sample_group_key": ("user", "batch_group_criterion"),
                                                        "drop_last": param("batch_drop_last")}))
            elif size:
                wants.append(Want("BatchDataset", {"batch_size": param("batch_size"), "batcher": ("user", "batch"),
                                                   "drop_last": param("batch_drop_last")}))
            elif enc != "TaskEncoder" or bat != "TaskEncoder":
                yield s, None
                continue
            if group == "User" or size:
                wants.append(Want("MapDataset", {"map_fn": ("user", "encode_batch")}, optional=enc == "TaskEncoder"))
            yield s, wants


def encode_settings():
    for d in ("TaskEncoder", "DefaultTaskEncoder", "User"):
        s = Setting({"TaskEncoder": "when encode_sample does nothing", "User": "when encode_sample is overridden"}.get(
            d, "when encode_sample is the default encoder's"), {}, {"encode_sample": d})
        yield s, [Want("MapDataset", {"map_fn": ("user", "encode_sample")}, optional=d == "TaskEncoder")]


def cook_settings():
    for k in (True, False):
        s = Setting("when cookers are registered" if k else "without cookers", {}, {"build_cook_crude_sample": "TaskEncoder"}, cookers=k)
        yield s, [Want("MapDataset", {"map_fn": ("user", "cook_crude_sample")}, optional=not k)]


def handed(names):
    return {n: param(n) for n in names}


def common():
    return [Want("build_cook_crude_sample"), Want("build_encode_sample"),
            Want("build_batch", handed(("batch_size", "batch_drop_last", "packing_buffer_size")))]


def train_settings():
    sizes = {"batch_size": 4, "batch_drop_last": True, "packing_buffer_size": 10}
    for n, shuffle, epoch in itertools.product((0, 1, 2, 7), (None, 0, 1, 2, 100), (0, 1, 50)):
        s = Setting(f"with {n} dataset(s), shuffle_buffer_size={shuffle}, virtual_epoch_length={epoch}",
                    dict(sizes, shuffle_buffer_size=shuffle, virtual_epoch_length=epoch), n=n)
        if n == 0:
            yield s, None
            continue
        wants = []
        if shuffle:
            wants.append(Want("ShuffleBufferDataset", {"size": param("shuffle_buffer_size")}, optional=shuffle == 1))
        wants += common()
        if epoch:
            wants.append(Want("EpochizeDataset", {"length": param("virtual_epoch_length")}))
        yield s, wants + [log("train")]


def val_settings():
    sizes = {"batch_size": 4, "batch_drop_last": True, "packing_buffer_size": 10}
    for n, limit in itertools.product((0, 1, 2, 7), (None, 0, 1, 3, 100)):
        s = Setting(f"with {n} dataset(s), limit={limit}", dict(sizes, limit=limit), n=n)
        if n == 0:
            yield s, None
            continue
        wants = common()
        if limit:
            wants.append(Want("LimitDataset", {"length": param("limit"), "reset_after_epoch": ("const", True)}))
        yield s, wants + [log("val")]


def all_of(st, t, ip, several):
    """The given datasets, all of them"""
    if t[0] == "call" and t[1][0] == "cls":
        stars = [a[1] for a in t[2] if a[0] == "star"]
        if len(stars) != 1:
            return False
        work, seen = [stars[0]], set()
        while work:
            for x in subterms(work.pop()):
                if x in seen:
                    continue
                seen.add(x)
                if x[0] == "obj" and x in st.heap:
                    shape, items = st.heap[x]
                    if isinstance(shape, tuple):
                        if shape[0] == "filter":
                            return False
                        work += [y for y in shape if isinstance(y, tuple)]
                    work += [v for _, vs in items for v in vs]
        return param("datasets") in seen and not any(x[0] == "slice" and x[1] == param("datasets") for x in seen)
    return False


def from_datasets(cls, st, ip, s):
    def base(stage):
        t = stage.term
        if s.n > 1:
            return stage.name == cls and all_of(st, t, ip, True)
        if stage.name == cls:
            return all_of(st, t, ip, True)
        # the only dataset, not rotated
        if t[0] != "call" or param("datasets") not in set(subterms(t[1])):
            return False
        return all(value(v, s, ip) == 0 for v in list(t[2]) + [v for _, v in t[3]])
    return base


PLAN = (("build_batch", batch_settings, None), ("build_encode_sample", encode_settings, None),
        ("build_cook_crude_sample", cook_settings, None), ("build_train_datasets", train_settings, "BlendDataset"),
        ("build_val_datasets", val_settings, "ConcatDataset"))


def check(p, cx):
    cx.rule("C38.stage", "each stage the settings ask for is applied, once, at its place, and no other")
    cx.rule("C38.args", "each stage gets the configured values and the task encoder's own functions")
    cx.rule("C38.base", "the pipeline is built on all of the given datasets")
    cx.rule("C38.refuse", "settings which leave a function of the task encoder unused are refused")
    cx.rule("C38.delegate", "a task encoder augmenting another one hands every call on to the function of the same name")
    n = 0
    te = p.cls("TaskEncoder")
    for c in p.subclasses(te, strict=False):
        for name, settings, blend in PLAN:
            f = c.methods.get(name)
            if f is None:
                if c is te:
                    raise AnalysisBroken(f"TaskEncoder.{name} is gone")
                continue
            cx.fn(f)
            for s, wants in settings():
                m = Decide(s)
                ip = Interp(p, m, no_inline=tuple(x for x in PARTS if x != name) + ("get_stateless",))
                ip.folds = ip.bool_branches = True
                o = ip.run(f, c)
                n += 1
                if wants is None:
                    cx.check(not o.ret, "C38.refuse", f"{f.qualname}: refused", f.loc(f.node),
                             f"{f.qualname} leaves functions of the task encoder unused {s.label}" if name == "build_batch"
                             else f"{f.qualname} returns something {s.label}")
                    continue
                if not cx.check(bool(o.ret), "C38.stage", f"{f.qualname}: returns a dataset", f.loc(f.node),
                                f"{f.qualname} builds nothing {s.label}"):
                    continue
                for st, v, node in o.ret:
                    for t in sorted(v, key=repr):
                        for t in ([t] if t[0] != "any" else t[1]):
                            chain = stages(p, t, ip)
                            base = from_datasets(blend, st, ip, s) if blend else \
                                (lambda g: g.term in (param("dataset"), param(f.params()[0][1])))
                            compare(p, cx, f, s, chain, wants, ip, node, base)
    cx.floor("settings of the pipeline", n, 150)
    delegates(p, cx, te)


def delegates(p, cx, te):
    n = 0
    for c in p.subclasses(te):
        inner = {a for a in {x for b in c.mro() for x in b.annots} | own_attrs(c)
                 if (lambda ty: ty and any(x is not None and te in x.mro() for x in ty))(typed(p, c, a))}
        if not inner:
            continue
        for name, f in sorted(c.methods.items()):
            if name.startswith("_") or te.find_method(name) is None or f.is_generator:
                continue
            ip = Interp(p, Monitor(), no_inline=USER)
            o = ip.run(f, c)
            ps = [x for x in f.params()[0] if x != "self"]
            for st, v, node in o.ret:
                n += 1
                cx.fn(f)
                good = bool(v)
                for t in v:
                    ok = t[0] == "call" and (t[1][0] == "bm" and ip.func_of(t[1]) is not None and ip.func_of(t[1]).name == name or
                                             t[1][0] == "attr" and t[1][2] == name)
                    ok = ok and t[1][1][0] == "attr" and t[1][1][1] == SELF and t[1][1][2] in inner
                    given = list(t[2]) + [x for _, x in t[3]] if ok else []
                    good = good and ok and given == [param(x) for x in ps]
                cx.check(good, "C38.delegate", f"{f.qualname}", f.loc(node),
                         f"{f.qualname} does not hand its samples to {name} of the augmented task encoder")
    cx.floor("delegating functions", n, 3)


def own_attrs(c):
    import ast
    f = c.methods.get("__init__")
    return {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)} if f else set()


def typed(p, c, a):
    t = p.attr_type(c, a)
    return [t[1]] if t and t[0] == "cls" else []
