"""C23: raw configuration data is converted to what the declared type says, or refused."""
from ..flow import Interp, Monitor, subterms
from ..model import AnalysisBroken
from .reported import deep

T = ("param", "inst_type")
RAW = ("param", "raw_data")
PRIMS = {"str", "int", "float", "bool", "NoneType"}
#: kinds of types with a conversion of their own
ORIGINS = {"typing.Literal", "typing.Union", "list", "set", "tuple", "dict"}
NEG = {"IsNot": "Is", "NotEq": "Eq", "NotIn": "In"}
#: calls with the arguments raw data, type, strict, allow_imports
CONVERT = "raw_to_typed"
INSTANCE = "raw_to_instance"
CALL = "safe_call_function"
ORDER = {CONVERT: ["raw_data", "inst_type", "strict", "allow_imports", "_path", "_stage"],
         INSTANCE: ["kwargs", "inst_type", "strict", "_path", "_stage"],
         CALL: ["raw_data", "fn", "strict", "allow_imports"]}


def module_functions(p):
    m = next((m for m in p.modules.values() if m.name.endswith(".typed_converter")), None)
    fs = {f.name: f for f in p.all_functions() if m is not None and f.module is m and f.cls is None and f.outer is None}
    missing = [n for n in ORDER if n not in fs]
    if missing:
        raise AnalysisBroken("no " + ", ".join(missing))
    return m, fs


def name_of(t):
    """Name of a type given by a term"""
    if t[0] == "ext":
        return t[1]
    if t[0] == "cls":
        return t[1].split(".")[-1]
    if t == ("const", None) or t == ("call", ("ext", "type"), (("const", None),), ()):
        return "NoneType"
    if t[0] == "const":
        return repr(t[1])
    return None


def names(t, st):
    """Names of the types in a tuple / set / list term"""
    if t[0] == "tuple":
        return {name_of(x) for x in t[1]}
    if t[0] == "obj" and t in st.heap:
        return {name_of(x) for _, vs in st.heap[t][1] for x in vs}
    return {name_of(t)}


def is_call(t, ext):
    return t[0] == "call" and t[1] == ("ext", ext)


def arg(t, i):
    return t[2][i] if len(t[2]) > i else None


def is_raw(t, st):
    """The raw data, also with renamed keys"""
    if t == RAW:
        return True
    if t[0] == "obj" and t[1] == "dict" and t in st.heap and st.heap[t][1]:
        return all(x == ("val", RAW) for _, vs in st.heap[t][1] for x in vs)
    if t[0] == "any":
        return all(is_raw(x, st) for x in t[1])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "copy":
        return is_raw(t[1][1], st)
    return False


def is_args(t):
    return t in (("call", ("ext", "typing.get_args"), (T,), ()), ("attr", T, "__args__"))


#: tests about what changes from argument to argument
VARYING = ("no default", "given", "all used", "str keys", "known keys")


class Guards(Monitor):
    """mon: latest outcome of the tests that decide the kind of the type and the shape of the data"""

    def __init__(self, fs, names_=()):
        self.fs = fs
        self.calls = []
        self.errors = []

    def init(self):
        return frozenset()

    def raises(self, ev, st, ip):
        if ev.kind == "call" and ev.func is not None and ev.tag != "inlined":
            if ev.func == T or ev.func[0] == "param" and ev.func[1] == "fn":
                return ("Exception?",)
            f = ip.func_of(ev.func)
            if f is not None and f.name == CONVERT:
                return ("JsonValueError",)
        return ()

    def event(self, ev, st, ip):
        if ev.kind == "branch" and len(ev.cond) == 1:
            g = self.guard(next(iter(ev.cond)), ev.taken, st)
            if g is not None:
                k, pol = g
                if (k, not pol) in st.mon and k not in VARYING:
                    return []
                new = {(k, pol)} | ({("given", True)} if k == "all used" and not pol else set())
                return st.mon - {(x, not y) for x, y in new} | new
        if ev.kind == "call" and ev.func is not None:
            f = ip.func_of(ev.func)
            if f is not None and f.name in ORDER and ev.tag != "inlined":
                self.calls.append((ev, st, f))
            if ev.func[0] == "cls" and ev.func[1].endswith("JsonValueError"):
                self.errors.append((ev, st))
        if ev.kind == "newrec" and ev.func is not None and ev.func[0] == "cls" and ev.func[1].endswith("JsonValueError"):
            self.errors.append((ev, st))
        return NotImplemented

    def guard(self, c, pol, st):
        while c[0] == "not":
            c, pol = c[1], not pol
        if c == ("param", "strict"):
            return ("strict", pol)
        if c == ("param", "allow_imports"):
            return ("imports", pol)
        if is_call(c, "isinstance") and len(c[2]) == 2:
            x, y = c[2]
            if is_raw(x, st):
                return (("raw is", "T" if y == T else tuple(sorted(map(str, names(y, st))))), pol)
            if x == T:
                return (("record", "type"), pol) if name_of(y) == "type" else None
            if x[0] in ("key", "elem") and is_raw(x[1], st) and name_of(y) == "str":
                return ("str keys", pol)
        if is_call(c, "issubclass") and len(c[2]) == 2 and c[2][0] == T:
            return (("record", "tuple"), pol) if name_of(c[2][1]) == "tuple" else None
        if is_call(c, "hasattr") and len(c[2]) == 2 and c[2][0] == T:
            return (("record", "fields"), pol)
        if is_call(c, "dataclasses.is_dataclass"):
            return ("dataclass", pol)
        if is_call(c, "all") and c[2] and any(is_call(x, "isinstance") and len(x[2]) == 2 and x[2][0][0] in ("key", "elem")
                                              and name_of(x[2][1]) == "str" for x in deep([c], st)):
            return ("str keys", pol)
        if c[0] == "cmp":
            op, a, b = c[1:4]
            if op in NEG:
                op, pol = NEG[op], not pol
            if op == "In":
                if a == T:
                    return (("T in", frozenset(names(b, st))), pol)
                if is_raw(a, st) and is_args(b):
                    return ("literal", pol)
                if name_of(a) == "NoneType" and is_args(b):
                    return ("optional", pol)
            if op in ("Is", "Eq"):
                for x, y in ((a, b), (b, a)):
                    if y[0] == "global" and "missing" in y[2] and is_raw(x, st):
                        return ("missing", pol)
                    if x == T and name_of(y):
                        return (("T in", frozenset([name_of(y)])), pol)
                    if x in (("call", ("ext", "typing.get_origin"), (T,), ()), ("attr", T, "__origin__")) and name_of(y):
                        return (("origin", name_of(y)), pol)
                    if is_raw(x, st) and y == ("const", None):
                        return ("raw none", pol)
                    if is_call(x, "len") and is_args(x[2][0]):
                        if y == ("const", 2):
                            return ("two", pol)
                        if is_call(y, "len") and is_raw(y[2][0], st):
                            return ("same length", pol)
                    if is_call(x, "len") and is_raw(x[2][0], st) and is_call(y, "len") and not is_args(y[2][0]):
                        return ("no duplicates", pol)
                    if x[0] == "sub" and is_args(x[1]) and x[2] in (("const", 1), ("const", -1)) and y[0] != "sub":
                        return ("variadic", pol)
        # are all keys known?
        sub = deep([c], st)
        if any(is_raw(x, st) for x in sub) and any(
                x == ("attr", T, "__annotations__") or is_call(x, "dataclasses.fields") or is_call(x, "typing.get_type_hints") or
                x == ("attr", T, "_fields") for x in sub):
            if c[0] == "call" and c[1][0] == "attr" and c[1][2] == "issubset" or c[0] == "cmp" and c[1] == "LtE":
                return ("known keys", pol)
            if is_call(c, "any") or c[0] == "binop" and c[1] == "Sub" or c[0] == "cmp" and c[1] == "Gt":
                return ("known keys", not pol)
            if c[0] == "cmp" and c[1] in ("In", "NotIn"):
                return ("known keys", pol if c[1] == "In" else not pol)
            return ("known keys", True)
        return None


def said(mon, key, pol):
    return (key, pol) in mon


def none_of(mon, wanted):
    """Is the type known not to be any of the named ones?"""
    out = set()
    for k, pol in mon:
        if isinstance(k, tuple) and k[0] == "T in" and not pol:
            out |= k[1]
    return wanted <= out


def one_of(mon, wanted):
    return any(isinstance(k, tuple) and k[0] == "T in" and pol and k[1] <= wanted for k, pol in mon)


def raw_is(mon, wanted):
    return any(isinstance(k, tuple) and k[0] == "raw is" and k[1] != "T" and pol and set(k[1]) <= wanted for k, pol in mon)


def unsupported(mon):
    """Kinds of types which may still be the one at hand"""
    left = []
    for x in sorted(PRIMS | {"typing.Any", "EPath", "dict", "list"}):
        if not none_of(mon, {x}):
            left.append(x.split(".")[-1])
    for o in sorted(ORIGINS):
        if not said(mon, ("origin", o), False):
            left.append(o.split(".")[-1].capitalize() + "[...]")
    if not said(mon, "dataclass", False):
        left.append("dataclass")
    if not any(isinstance(k, tuple) and k[0] == "record" and not pol for k, pol in mon):
        left.append("NamedTuple")
    return left


def elem_ok(t, st, ip, which, cx, seen):
    """Is the element converted to the wanted argument of the type?"""
    f = ip.func_of(t[1]) if t[0] == "call" else None
    if f is None or f.name != CONVERT:
        return "an element is not converted"
    a = bound(t, CONVERT)
    r, ty = a.get("raw_data"), a.get("inst_type")
    if r is None or not any(x[0] in ("elem", "val", "sub") and is_raw(x[1], st) or x[0] == "elem" and is_call(x[1], "zip") for x in subterms(r)):
        return "the element converted is not the one of the data"
    if ty is None:
        return "no type"
    if ty[0] == "sub" and is_args(ty[1]):
        k = ty[2][1] if ty[2][0] == "const" else None
    elif ty[0] == "elem" and is_args(ty[1]) or ty[0] == "elem" and is_call(ty[1], "zip") and any(is_args(x) for x in subterms(ty)):
        k = "*"
    else:
        return "an element is not converted to the declared element type"
    if k not in which:
        return "an element is converted to another type than the declared one"
    return None


def bound(t, fn):
    """arguments of the call term"""
    out = dict(zip(ORDER[fn], t[2]))
    out.update({k: v for k, v in t[3] if isinstance(k, str)})
    return out


def flat(t):
    if t[0] == "any":
        for x in t[1]:
            yield from flat(x)
    else:
        yield t


def record_problem(kw, st, ip, mon):
    """Why the fields given to the constructor do not conform"""
    if kw[0] != "obj" or kw not in st.heap:
        return "the fields are not known"
    shape, items = st.heap[kw]
    if not items:
        return "no field is passed"
    for k, vs in items:
        for v in vs:
            f = ip.func_of(v[1]) if v[0] == "call" else None
            if f is None or f.name != CONVERT:
                return "a field is not converted"
            a = bound(v, CONVERT)
            raw, ty = a.get("raw_data"), a.get("inst_type")
            name = k[1] if isinstance(k, tuple) and k and k[0] == "k" else ("const", k)
            # the type of that very field
            if name[0] == "key":
                good = ty in (("val", name[1]), ("sub", name[1], name))
            elif name[0] == "attr" and name[2] == "name":
                good = ty == ("attr", name[1], "type")
            elif name[0] == "elem":
                good = ty is not None and ty[0] in ("sub", "call") and name in set(subterms(ty)) and T in set(subterms(ty))
            else:
                good = False
            if not good:
                return "a field is not converted to its own declared type"
            for r in flat(raw):
                if r[0] == "sub" and is_raw(r[1], st):
                    if r[2] != name:
                        return "a field is converted from another key"
                    continue
                if r[0] == "call" and r[1][0] == "attr" and r[1][2] in ("get", "pop") and is_raw(r[1][1], st):
                    if not r[2] or r[2][0] != name:
                        return "a field is converted from another key"
                    ds = set()
                    todo = [r[2][1]] if len(r[2]) > 1 else [("const", None)]
                    while todo:
                        d = todo.pop()
                        if d[0] == "any":
                            todo += list(d[1])
                        elif d[0] == "call" and d[1][0] == "attr" and d[1][2] == "get":
                            ds.add(("default",))
                            todo.append(d[2][1] if len(d[2]) > 1 else ("const", None))
                        elif d[0] == "attr" and d[2] == "default" or d[0] == "call" and d[1][0] == "attr" and d[1][2] == "default_factory":
                            ds.add(("default",))
                        else:
                            ds.add(d)
                    if ("default",) not in ds:
                        return "a field missing in the data does not get its declared default"
                    if not any(d[0] == "global" and "missing" in d[2] for d in ds):
                        return "a missing required field is not refused"
                    if any(d[0] == "const" for d in ds):
                        return "a missing required field is filled in"
                    continue
                if r[0] == "global" and "missing" in r[2] or r[0] == "attr" and r[2] == "default" or \
                        r[0] == "call" and r[1][0] == "attr" and r[1][2] in ("default_factory", "get"):
                    continue
                return "a field is not converted from the data"
    if not said(mon, "strict", False) and not said(mon, "known keys", True):
        return "unknown keys are accepted although strict is set"
    return None


def value_problem(v, st, ip, mon, found):
    """Why the returned value may not conform to the type (None: it does)"""
    if v[0] == "any":
        return next((x for x in (value_problem(y, st, ip, mon, found) for y in v[1]) if x), None)
    if is_raw(v, st):
        if said(mon, ("raw is", "T"), True) and not said(mon, ("origin", "x"), True):
            return None
        if one_of(mon, {"float"}) and raw_is(mon, {"int", "float"}):
            return None
        if one_of(mon, {"typing.Any"}):
            return None
        if said(mon, ("origin", "typing.Literal"), True):
            return None if said(mon, "literal", True) else "a value which is none of the literals is accepted"
        if one_of(mon, {"EPath"}) and raw_is(mon, {"EPath"}):
            return None
        left = unsupported(mon)
        return None if not left else "data is passed on unchecked for " + ", ".join(left[:6])
    if v == ("const", None):
        if said(mon, "raw none", True) and (said(mon, "optional", True) or one_of(mon, {"NoneType"})):
            return None
        return "None is returned where None may not be allowed"
    if v[0] == "call" and v[1][0] == "cls" and v[1][1].endswith("EPath"):
        return None if one_of(mon, {"EPath"}) and raw_is(mon, {"str", "EPath"}) else "a path is returned for another type"
    if v[0] == "call":
        f = ip.func_of(v[1])
        if f is not None and f.name == CONVERT:
            a = bound(v, CONVERT)
            if not is_raw(a.get("raw_data", ("top",)), st):
                return "other data is converted"
            t = a.get("inst_type")
            if t == T or said(mon, ("origin", "typing.Union"), True) and t[0] == "elem" and is_args(t[1]):
                return None
            return "the data is converted to another type"
        if f is not None and f.name == INSTANCE:
            a = bound(v, INSTANCE)
            if not said(mon, "imports", True):
                return "objects named in the data are imported although this is not allowed"
            if not is_raw(a.get("kwargs", ("top",)), st) or a.get("inst_type") != T:
                return "another object is instantiated"
            left = [] if one_of(mon, {"typing.Any"}) else unsupported(mon)
            return None if not left else "data is instantiated, not converted, for " + ", ".join(left[:6])
        if v[1] == T:
            kws = [x for k, x in v[3] if not isinstance(k, str)] + [x[1] for x in v[3] if x[0] == "**"]
            kw = next((x[-1] for x in v[3] if x[0] == "**"), None)
            if kw is None:
                return "the fields are not known"
            if not raw_is(mon, {"dict"}):
                return "data which is no mapping is accepted for a record"
            if not (said(mon, "dataclass", True) or all(said(mon, ("record", x), True) for x in ("type", "tuple"))):
                return "a record is made of another type"
            return record_problem(kw, st, ip, mon)
    # containers
    kind, o = None, v
    if v[0] == "obj":
        kind = v[1]
    elif v[0] == "call" and v[1][0] == "ext" and v[1][1] in ("list", "set", "tuple", "dict", "frozenset") and len(v[2]) == 1:
        kind, o = v[1][1], v[2][0]
    if kind is None or o[0] != "obj" or o not in st.heap:
        return "the value returned is not known to be of the type"
    if not said(mon, ("origin", kind), True):
        return f"a {kind} is returned for another type"
    shape, items = st.heap[o]
    if isinstance(shape, tuple) and shape[0] == "filter":
        return "elements are left out"
    if not raw_is(mon, {"dict"} if kind == "dict" else {"list", "tuple"}):
        return f"data of another shape is accepted for a {kind}"
    if kind == "dict":
        which = {1}
    elif kind == "tuple":
        if said(mon, "variadic", True):
            which = {0}
        elif said(mon, "same length", True):
            which = {"*"}
        else:
            return "the length of the tuple is not checked"
    else:
        which = {0, "*"}
    if kind == "set" and not said(mon, "no duplicates", True):
        found.add("duplicates")
    if kind == "dict" and not said(mon, "str keys", True):
        found.add("keys")
    got = False
    for k, vs in items:
        for x in vs:
            got = True
            e = elem_ok(x, st, ip, which, None, None)
            if e:
                return e
    return None if got else "the elements are not converted"


def check(p, cx):
    cx.rule("C23.value", "every value returned by the conversion conforms to the declared type, at every level")
    cx.rule("C23.refused", "whatever does not conform is refused with a conversion error")
    cx.rule("C23.keys", "the keys of a mapping are of the declared type")
    cx.rule("C23.duplicates", "elements given twice for a set are refused")
    cx.rule("C23.nested", "strictness and the permission to import are passed on to nested conversions")
    cx.rule("C23.path", "a conversion error names the path to the failing value")
    cx.rule("C23.call", "arguments of functions and classes named in a configuration are converted to their annotations; missing and "
            "unexpected ones are refused")
    cx.rule("C23.instance", "an object named in a configuration is of the declared type")
    cx.rule("C23.strict", "configuration files are loaded strictly")
    m, fs = module_functions(p)
    convert(p, cx, fs)
    call(p, cx, fs)
    instance(p, cx, fs)
    loads(p, cx, fs)


def run(p, f, fs):
    g = Guards(fs)
    ip = Interp(p, g, no_inline=(CONVERT, INSTANCE, CALL, "_check_instance_type"))
    o = ip.run(f, None)
    return g, ip, o


def nested(cx, f, g, ip):
    """arguments passed on by the calls of the conversions"""
    seen = {}
    for ev, st, callee in g.calls:
        a = {}
        for n, v in zip(ORDER[callee.name], ev.args):
            a[n] = v
        a.update(ev.kwargs)
        msg = None
        s = a.get("strict", frozenset())
        if not s or not all(x in (("param", "strict"), ("const", True)) for x in s):
            msg = "strict is not passed on"
        if "allow_imports" in ORDER[callee.name] and callee.name == CONVERT:
            s = a.get("allow_imports", frozenset())
            if not s or not all(x == ("param", "allow_imports") for x in s):
                msg = msg or "the permission to import is not passed on"
        k = (ev.node.lineno, ev.node.col_offset)
        seen[k] = (ev, callee, seen.get(k, (0, 0, None))[2] or msg)
        if f.name == CONVERT and callee.name == CONVERT:
            s = a.get("_path", frozenset())
            cx.check(bool(s) and all(("param", "_path") in set(subterms(x)) for x in s), "C23.path", f"{f.name} -> {callee.name}",
                     f.loc(ev.node), "the path of the nested value is not extended")
    for ev, callee, msg in seen.values():
        cx.check(msg is None, "C23.nested", f"{f.name} -> {callee.name}", f.loc(ev.node), msg)
    for ev, st in g.errors:
        vs = list(ev.args) + list((ev.kwargs or {}).values())
        ok = any(("param", "_path") in set(subterms(x)) for v in vs for x in v) or \
            any(("param", "_path") in set(subterms(x)) for _, v in (ev.value or ()) if isinstance(v, frozenset) for x in v)
        cx.check(ok, "C23.path", f"{f.name} error", f.loc(ev.node), "the error does not tell the path")


def convert(p, cx, fs):
    f = fs[CONVERT]
    cx.fn(f)
    g, ip, o = run(p, f, fs)
    cx.floor("conversions", len(g.calls), 6)
    cx.floor("returns", len(o.ret), 8)
    kinds = set()
    bad = {}
    for st, v, node in o.ret:
        mon = st.mon
        for k, pol in mon:
            if pol and isinstance(k, tuple) and k[0] in ("origin", "T in"):
                kinds |= {k[1]} if k[0] == "origin" else k[1]
        found = set()
        if not said(mon, "missing", False):
            bad.setdefault("C23.refused missing", ("C23.refused", node, "a missing value is converted"))
        for x in v or ():
            e = value_problem(x, st, ip, mon, found)
            what = ", ".join(sorted(label(mon))) or "other types"
            if e:
                bad.setdefault(f"C23.value {what}", ("C23.value", node, e))
            else:
                cx.ok("C23.value", f"{f.name} {what}", f.loc(node))
        if "duplicates" in found:
            bad.setdefault("C23.duplicates", ("C23.duplicates", node, "a set is made of data with duplicates"))
        if "keys" in found:
            bad.setdefault("C23.keys", ("C23.keys", node, "keys which are no strings are accepted"))
    for st in o.normal:
        bad.setdefault("end", ("C23.value", f.node, "the conversion may end without a value"))
    for k, (rule, node, msg) in bad.items():
        cx.bad(rule, f"{f.name} {k.split(' ', 1)[1] if ' ' in k else 'mapping' if rule == 'C23.keys' else k}", f.loc(node), msg)
    for st, tag, ev in o.exc:
        again = ev is not None and ev.kind == "raise" and any(x == ("exc", "JsonValueError") for x in deep(ev.value or (), st))
        cx.check(tag in ("JsonValueError", "AssertionError") or not isinstance(tag, str) or again, "C23.refused", f"{f.name} {tag}",
                 f.loc(ev.node) if ev is not None else f.loc(), f"{tag} is raised instead of a conversion error")
    nested(cx, f, g, ip)
    cx.notes.append(f"{f.name}: {len(o.ret)} returns, {len(o.exc)} ways to raise")


def label(mon):
    out = set()
    for k, pol in mon:
        if pol and isinstance(k, tuple) and k[0] == "origin":
            out.add(k[1].split(".")[-1])
        if pol and isinstance(k, tuple) and k[0] == "T in":
            out |= {str(x).split(".")[-1] for x in k[1]}
        if pol and k == "dataclass":
            out.add("dataclass")
        if pol and k == ("record", "fields"):
            out.add("NamedTuple")
    return out


class Args(Guards):
    """Guards about the parameters of the function to be called"""

    def __init__(self, fs):
        Guards.__init__(self, fs)
        self.put = []

    def guard(self, c, pol, st):
        g = Guards.guard(self, c, pol, st)
        if g is not None:
            return g
        while c[0] == "not":
            c, pol = c[1], not pol
        if c[0] == "cmp":
            op, a, b = c[1:4]
            if op in NEG:
                op, pol = NEG[op], not pol
            sub = set(subterms(c))
            empty = any(x[0] in ("attr", "ext") and str(x[-1]).endswith("empty") for x in sub)
            if empty and any(x[0] == "attr" and x[2] == "default" for x in sub):
                return ("no default", pol)
            if op == "In" and left(b):
                return ("given", pol)
            for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
                if is_call(x, "len") and left(x[2][0]):
                    if (o, y) in (("Eq", ("const", 0)), ("LtE", ("const", 0)), ("Lt", ("const", 1))):
                        return ("all used", pol)
                    if (o, y) in (("Gt", ("const", 0)), ("GtE", ("const", 1))):
                        return ("all used", not pol)
        if left(c) or is_call(c, "len") and left(c[2][0]):
            return ("all used", not pol)
        return None

    def event(self, ev, st, ip):
        if ev.kind == "store_sub" and any(t[0] == "obj" for t in ev.base):
            self.put.append((ev, ev.value))
        if ev.kind == "call" and ev.name in ("append", "insert", "update", "extend", "setdefault") and ev.recv is not None and \
                ev.recv[0] == "obj" and ev.args:
            self.put.append((ev, ev.args[-1]))
        if ev.kind == "next":
            return frozenset((k, pol) for k, pol in st.mon if k not in ("no default", "given", "all used"))
        if ev.kind == "call" and ev.func is not None and ev.func[0] == "attr" and ev.name in ("pop", "remove", "popitem"):
            if left(ev.func[1]):
                # one less
                return frozenset((k, pol) for k, pol in st.mon if k not in ("all used",))
        if ev.kind == "call" and ev.func is not None and ev.func[0] == "attr" and ev.name == "clear" and left(ev.func[1]):
            return frozenset((k, pol) for k, pol in st.mon if k != "all used") | {("all used", True)}
        return Guards.event(self, ev, st, ip)


def left(t):
    """the data not used so far"""
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] == "copy" and t[1][1] == RAW or \
        is_call(t, "dict") and t[2] == (RAW,) or is_call(t, "list") and t[2] == (RAW,) or t[0] == "any" and all(left(x) for x in t[1])


def call(p, cx, fs):
    f = fs[CALL]
    cx.fn(f)
    g = Args(fs)
    ip = Interp(p, g, no_inline=(CONVERT, INSTANCE, CALL, "_check_instance_type"))
    o = ip.run(f, None)
    cx.floor("argument conversions", len(g.calls), 3)
    for st, v, node in o.ret:
        for x in v or ():
            good = x[0] == "call" and x[1] == ("param", "fn")
            cx.check(good, "C23.call", f"{f.name} result", f.loc(node), "something else than the result of the function is returned")
            if not good:
                continue
            cx.check(said(st.mon, "strict", False) or said(st.mon, "all used", True), "C23.call", f"{f.name} unexpected", f.loc(node),
                     "unexpected arguments are accepted although strict is set")
            for a in list(x[2]) + [("**", y[-1]) if y[0] == "**" else y[-1] for y in x[3]]:
                objs = [y for y in flat(a[1] if a[0] in ("star", "**") else a) if y[0] == "obj"]
                if not objs:
                    cx.bad("C23.call", f"{f.name} arguments", f.loc(node), "an argument is not converted")
                for ob in objs:
                    for k, vs in (st.heap[ob][1] if ob in st.heap else ()):
                        for y in vs - {("top",)}:
                            c = ip.func_of(y[1]) if y[0] == "call" else None
                            cx.check(c is not None and c.name == CONVERT, "C23.call", f"{f.name} arguments", f.loc(node),
                                     "an argument is passed without conversion")
    cx.floor("arguments put together", len(g.put), 3)
    for ev, vs in g.put:
        for y in vs:
            c = ip.func_of(y[1]) if y[0] == "call" else None
            cx.check(c is not None and c.name == CONVERT, "C23.call", f"{f.name} arguments", f.loc(ev.node),
                     "an argument is passed without conversion")
    for ev, st, callee in g.calls:
        a = {}
        for n, v in zip(ORDER[callee.name], ev.args):
            a[n] = v
        a.update(ev.kwargs)
        ty = {y for x in a.get("inst_type", ()) for y in flat(x)}
        cx.check(bool(ty) and any(x[0] == "attr" and x[2] == "annotation" for x in ty) and
                 all(x[0] == "attr" and x[2] == "annotation" or x == ("ext", "typing.Any") for x in ty), "C23.call",
                 f"{f.name} annotation", f.loc(ev.node), "an argument is not converted to the annotation of its parameter")
        raw = {y for x in a.get("raw_data", ()) for y in flat(x)}
        single = any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "pop" or x[0] == "attr" and x[2] == "default" for x in raw)
        if single:
            cx.check(said(st.mon, "no default", False) or said(st.mon, "given", True) or said(st.mon, "all used", False) or
                     any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "pop" and x[2] == (("const", 0),) for x in raw) and
                     len(raw) == 1, "C23.call", f"{f.name} missing",
                     f.loc(ev.node), "a missing required argument is not refused")
    nested(cx, f, g, ip)


class Made(Guards):
    def guard(self, c, pol, st):
        while c[0] == "not":
            c, pol = c[1], not pol
        ts = set(subterms(c))
        if is_call(c, "callable"):
            return ("callable", pol)
        if is_call(c, "issubclass") and len(c[2]) == 2:
            return ("subclass", pol)
        if c[0] == "call" and c[1][0] == "func" and len(c[2]) == 2:
            return (("checked", is_call(c[2][0], "type")), pol)
        if is_call(c, "isinstance") and len(c[2]) == 2 and name_of(c[2][1]) == "type":
            return (("type", any(is_call(x, "getattr") for x in subterms(c[2][0]))), pol)
        if c[0] == "cmp":
            op, a, b = c[1:4]
            if op in NEG:
                op, pol = NEG[op], not pol
            if op in ("Is", "Eq"):
                for x, y in ((a, b), (b, a)):
                    if is_call(x, "typing.get_origin") and x[2] == (T,):
                        return ("is_type" if name_of(y) == "type" else "is_callable", pol)
        return None


def instance(p, cx, fs):
    f = fs[INSTANCE]
    cx.fn(f)
    g = Made(fs)
    ip = Interp(p, g, no_inline=(CONVERT, INSTANCE, CALL, "_check_instance_type"))
    o = ip.run(f, None)
    cx.floor("instantiations", len([1 for _, _, c in g.calls if c.name == CALL]), 1)
    seen = {}
    for st, v, node in o.ret:
        mon = st.mon
        for x in v or ():
            c = ip.func_of(x[1]) if x[0] == "call" else None
            if c is not None and c.name == CALL:
                fn = bound(x, CALL).get("fn")
                ok = said(mon, ("checked", True), True) or said(mon, ("type", True), False) or said(mon, ("type", False), False)
                msg = "the instance is not checked against the declared type"
                what = "instance"
            elif not any(is_call(y, "getattr") for y in subterms(x)):
                # the declared type itself
                continue
            else:
                ok = said(mon, "callable", True) if said(mon, "is_callable", True) else \
                    said(mon, "subclass", True) or said(mon, ("type", False), False)
                msg = "what is named in the data is not checked against the declared type"
                what = "callable" if said(mon, "is_callable", True) else "class"
            k = what
            if k not in seen or not ok:
                seen[k] = (ok, node, msg)
    cx.floor("kinds of instances", len(seen), 2)
    for what, (ok, node, msg) in seen.items():
        cx.check(ok, "C23.instance", f"{f.name} {what}", f.loc(node), msg)
    for ev, st, callee in g.calls:
        if callee.name == CALL:
            mon = st.mon
            named = any(is_call(y, "getattr") for v in ev.args[1:2] for x in v for y in subterms(x))
            if named:
                cx.check(said(mon, ("checked", False), True) or said(mon, "callable", True), "C23.instance", f"{f.name} named class",
                         f.loc(ev.node), "a class named in the data is instantiated before it is known to be of the declared type")
    nested(cx, f, g, ip)


def loads(p, cx, fs):
    """the configurations are loaded strictly"""
    n = 0
    import ast
    for f in p.all_functions():
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None)
            if nm == "load_config":
                n += 1
                kw = next((k.value for k in x.keywords if k.arg == "strict"), None)
                cx.check(kw is None or not (isinstance(kw, ast.Constant) and kw.value is False), "C23.strict", f"{f.qualname} load_config",
                         f.loc(x), "a configuration is loaded without refusing unknown keys")
    cx.floor("loaded configurations", n, 4)
    for f in p.all_functions():
        if f.name != "load_config" or f.cls is not None:
            continue
        cx.fn(f)
        a = f.node.args
        ds = dict(zip([x.arg for x in a.kwonlyargs], a.kw_defaults))
        pos = a.posonlyargs + a.args
        ds.update(dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults)))
        d = ds.get("strict")
        cx.check(isinstance(d, ast.Constant) and d.value is True, "C23.strict", f"{f.name} default", f.loc(),
                 "configurations are not loaded strictly by default")
        g = Guards(fs)
        ip = Interp(p, g, no_inline=(CONVERT, INSTANCE, CALL))
        o = ip.run(f, None)
        for st, v, node in o.ret:
            for x in v or ():
                c = ip.func_of(x[1]) if x[0] == "call" else None
                b = bound(x, c.name) if c is not None and c.name in ORDER else {}
                cx.check(b.get("strict") in (("param", "strict"), ("const", True)), "C23.strict", f"{f.name} result", f.loc(node),
                         "the configuration is not converted strictly")
                cx.check(b.get("inst_type") == ("param", "default_type"), "C23.strict", f"{f.name} type", f.loc(node),
                         "the configuration is converted to another type")
