"""C40: what a path refers to, on local and remote storage alike"""
import ast

from ..flow import Interp, Monitor, V, subterms
from ..model import AnalysisBroken

SELF = ("self",)
FS = ("attr", SELF, "fs")
FULL = ("attr", SELF, "internal_path")
#: method -> the storage operations it may be made of
OPS = {"open": {"open"}, "is_dir": {"isdir"}, "is_file": {"isfile"}, "mkdir": {"mkdir", "makedirs"}, "size": {"size"},
       "unlink": {"rm", "rm_file", "unlink", "delete", "_rm"}, "move": {"mv", "move", "rename"}, "glob": {"glob"}}
KNOWN = set().union(*OPS.values()) | {"exists", "info", "created", "modified", "rmdir", "touch", "copy", "cp", "ls", "find", "walk"}
#: methods whose answer is the storage's answer
ANSWERS = ("open", "is_dir", "is_file", "size")


class Case(Monitor):
    """Follows only the branches decided by `decide(term)`; notes calls and stores"""

    def __init__(self, decide=None, see=None):
        self.decide, self.see = decide, see

    def init(self):
        return frozenset()

    def event(self, ev, st, ip):
        if ev.kind == "branch" and self.decide is not None:
            rs = {self.decide(t) for t in ev.cond}
            if len(rs) == 1 and None not in rs and next(iter(rs)) != ev.taken:
                return []
        if self.see is not None:
            r = self.see(ev, st, ip)
            if r is not None:
                return r
        return NotImplemented


def split(t):
    """(owner, 'inner' | 'outer' | 'whole' | 'fixed') of the path text in the term"""
    out = set()

    def go(t):
        if t[0] == "elem":
            return
        if t[0] == "attr" and t[2] in ("_internal_nonfs_path", "_internal_fs_path"):
            out.add((t[1], "inner" if t[2] == "_internal_nonfs_path" else "outer"))
            return
        if t[0] == "slice" and t[1][0] == "attr" and t[1][2] == "parts" and t[1][1][0] == "attr" and t[1][1][2] == "internal_path":
            a, _, b = t[2].partition(":")
            kind = "fixed" if a.strip().isdigit() or b.strip().lstrip("-").isdigit() else \
                "inner" if a.strip() and not b.strip() else "outer" if b.strip() and not a.strip() else None
            if kind:
                out.add((t[1][1][1], kind))
            return
        if t[0] == "attr" and t[2] == "internal_path":
            out.add((t[1], "whole"))
            return
        for x in t:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    go(x)
                else:
                    for y in x:
                        if isinstance(y, tuple) and y and isinstance(y[0], str):
                            go(y)
    go(t)
    return out


def check(p, cx):
    cx.rule("C40.storage", "each operation asks the storage the question it stands for, about this path, named as the storage names it (without "
            "the part that selects the storage)")
    cx.rule("C40.join", "joining gives an absolute second path as it is, and otherwise the first path followed by the second, with '..' steps "
            "resolved")
    cx.rule("C40.resolve", "resolving drops one step for each '..', keeps all others in order, and refuses to leave the root")
    cx.rule("C40.list", "each match is listed, as a path on the same storage")
    cx.rule("C40.text", "the text of a path names its storage; reading it again gives the same path")
    cx.rule("C40.make", "a path is made with the storage its protocol names, and a copy refers to the same object")
    cx.rule("C40.derive", "parent, suffix and relative path are those of this path")
    c = p.cls("EPath")
    for f in ("open", "__truediv__", "_resolve", "glob", "url", "__init__", "parent", "with_suffix", "relative_to", "move"):
        if c.find_method(f) is None:
            raise AnalysisBroken(f"EPath.{f} is gone")
    storage(p, cx, c)
    parts(p, cx, c)
    join(p, cx, c)
    resolve(p, cx, c)
    listing(p, cx, c)
    text(p, cx, c)
    make(p, cx, c)
    derive(p, cx, c)


def storage(p, cx, c):
    for name, ops in OPS.items():
        f = c.find_method(name)
        if f is None:
            continue
        cx.fn(f)
        calls, changed = [], set()

        def see(ev, st, ip):
            if ev.kind == "store_attr" and ev.attr == "internal_path":
                changed.update(ev.base)
            if ev.kind == "call" and ev.func and ev.func[0] == "attr" and ev.func[2] in KNOWN and ev.func[1][0] == "attr" and ev.func[1][2] == "fs":
                calls.append((ev, st))
        ip = Interp(p, Case(None, see), no_inline=("_resolve", "fork_guard"))
        o = ip.run(f, c)
        seen = set()
        for ev, st in calls:
            op = ev.func[2]
            seen.add(op)
            cx.check(ev.func[1] == FS or ev.func[1][1] != SELF and ev.func[1][1][0] != "param", "C40.storage", f"{name}: its storage", ev.loc(),
                     f"EPath.{name} asks the storage of another path")
            aux = op in ("exists", "info", "ls", "isdir", "isfile")
            cx.check(op in ops or aux and name not in ANSWERS + ("glob",) or op in ("exists", "info", "touch") and len(calls) > 1, "C40.storage", f"{name}: {op}", ev.loc(),
                     f"EPath.{name} asks the storage for {op}")
            owners = [SELF] if name != "move" else [SELF, ("param", f.node.args.args[1].arg)]
            for i, owner in enumerate(owners):
                a = (ev.args or [])[i] if i < len(ev.args or []) else None
                for t in a or ():
                    got = {(w, k) for w, k in split(t)}
                    if not got:
                        continue
                    bad = {k for w, k in got} - {"inner"}
                    cx.check(not bad, "C40.storage", f"{name}: named within its storage", ev.loc(),
                             f"EPath.{name} hands the storage {'the part that selects the storage' if 'outer' in bad else 'more or less than the path within it'}")
                    cx.check(name == "glob" or not {w for w, k in got} & changed, "C40.storage", f"{name}: this path", ev.loc(),
                             f"EPath.{name} hands the storage a changed path")
                    who = {w for w, k in got if w[0] in ("self", "param")}
                    cx.check(not who or owner in who, "C40.storage", f"{name}: argument {i + 1}", ev.loc(),
                             f"EPath.{name} hands the storage another path as argument {i + 1}")
            if name == "open":
                modes = {t for a in (ev.args or [])[1:2] for t in a} | {t for k, v in (ev.kwargs or {}).items() if k == "mode" for t in v}
                cx.check(any(t == ("param", "mode") or t[0] not in ("const", "param") for t in modes), "C40.storage", "open: mode", ev.loc(),
                         "EPath.open does not open in the mode asked for")
            if op == "makedirs":
                e = {t for k, v in (ev.kwargs or {}).items() if k == "exist_ok" for t in v} | {t for a in (ev.args or [])[1:2] for t in a}
                cx.check(any(t[0] != "const" for t in e), "C40.storage", "mkdir: exist_ok", ev.loc(),
                         "EPath.mkdir does not pass on whether the folder may exist")
        if name in ANSWERS and calls:
            for st, v, node in o.ret:
                cx.check(not any(t[0] == "const" for t in v) and not any(t[0] == "not" for t in v), "C40.storage", f"{name}: answer", f.loc(node),
                         f"EPath.{name} does not return the answer of the storage")
        if name == "mkdir":
            made(p, cx, c, f)


def made(p, cx, c, f):
    """An existing folder is an error exactly if it may not exist"""
    def run(ok):
        def decide(t):
            return ok if t == ("param", "exist_ok") else False if t == ("param", "parents") else None

        class Fails(Case):
            def raises(self, ev, st, ip):
                if ev.kind == "call" and ev.func == ("attr", FS, "mkdir"):
                    return ("FileExistsError",)
                return ()

            def dead(self, ev, st, ip):
                return ev.kind == "call" and ev.func == ("attr", FS, "mkdir")
        ip = Interp(p, Fails(decide), no_inline=("fork_guard",))
        ip.bool_branches = True
        return ip.run(f, c)
    if any(isinstance(x, (ast.With, ast.AsyncWith)) for x in ast.walk(f.node)):
        cx.notes.append("EPath.mkdir: a context manager may take the error of an existing folder; not followed")
        return
    strict, loose = run(False), run(True)
    cx.check(any("FileExistsError" in str(r[1]) for r in strict.exc) and not strict.ret, "C40.storage", "mkdir: existing folder refused", f.loc(),
             "EPath.mkdir accepts an existing folder which must not exist")
    cx.check(bool(loose.ret) or not any("FileExistsError" in str(r[1]) for r in loose.exc), "C40.storage", "mkdir: existing folder accepted", f.loc(),
             "EPath.mkdir refuses an existing folder which may exist")


def parts(p, cx, c):
    want = {"_internal_nonfs_path": "inner", "_internal_fs_path": "outer"}
    for name, kind in want.items():
        f = c.find_method(name)
        if f is None:
            continue
        cx.fn(f)
        ip = Interp(p, Case())
        o = ip.run(f, c)
        for st, v, node in o.ret:
            for t in v:
                got = {k for w, k in split(t)}
                cx.check(not got or got == {kind}, "C40.storage", name, f.loc(node),
                         f"EPath.{name} is not the part of the path {'within' if kind == 'inner' else 'that selects'} the storage")


def is_abs(t):
    """The path whose absoluteness the term asks for"""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "is_absolute":
        b = t[1][1]
        return b[1] if b[0] == "attr" and b[2] == "internal_path" else b
    if t[0] == "call" and t[1][0] == "bm":
        return t[1][1]
    return None


def join(p, cx, c):
    f = c.find_method("__truediv__")
    cx.fn(f)
    other = ("param", f.node.args.args[1].arg)

    def about_other(t):
        return t == other or t[0] == "call" and t[1][0] == "cls" and t[2] and t[2][0] == other

    for absolute in (True, False):
        def decide(t):
            neg = t[0] == "not"
            w = is_abs(t[1] if neg else t)
            if w is not None and (about_other(w) or w[0] == "any" and all(about_other(x) for x in w[1])):
                return absolute != neg
            return None

        def see(ev, st, ip):
            if ev.kind == "store_attr" and ev.attr == "internal_path":
                return [st.mon | {(ev.base, ev.value)}]
        ip = Interp(p, Case(decide, see), no_inline=("_resolve", "is_absolute", "__init__"))
        o = ip.run(f, c)
        for st, v, node in o.ret:
            mine = {x for b, val in st.mon if b & v for x in val}
            if absolute:
                cx.check(not mine and all(about_other(t) or t[0] not in ("self", "call", "param") for t in v), "C40.join", "an absolute path", f.loc(node),
                         "joining with an absolute path does not give that path")
                continue
            cx.check(not (v & {SELF}) and not any(about_other(t) for t in v), "C40.join", "a relative path", f.loc(node),
                     "joining with a relative path gives one of the two paths")
            for x in mine:
                divs = [y for y in subterms(x) if y[0] == "binop" and y[1] == "Div"]
                cx.check(not (divs and x[0] == "binop"), "C40.join", "resolved", f.loc(node), "joining leaves '..' steps in the path")
                for y in divs:
                    left = any(z == SELF for z in subterms(y[2]))
                    right = any(z == other for z in subterms(y[3]))
                    swapped = any(z == other for z in subterms(y[2])) and any(z == SELF for z in subterms(y[3]))
                    cut = any(z[0] == "attr" and z[2] in ("parent", "name", "stem", "root", "anchor", "parents") for z in subterms(y[2])) and left and right
                    cx.check(not cut, "C40.join", "all of the first", f.loc(node), "joining leaves out a part of the first path")
                    cx.check(not swapped, "C40.join", "first then second", f.loc(node), "joining puts the second path first")
                if not divs and x[0] == "call" and x[1][0] == "func" and x[2]:
                    src = x[2][0]
                    cx.check(any(z == SELF for z in subterms(src)) and any(z == other for z in subterms(src)) or src[0] not in ("attr", "param"),
                             "C40.join", "both paths", f.loc(node), "joining leaves out one of the paths")


def resolve(p, cx, c):
    f = c.find_method("_resolve")
    cx.fn(f)
    res = {"up": set(), "keep": set(), "root": False, "n": 0, "ups": 0, "iters": [], "empty": False}
    path = ("param", f.node.args.args[-1].arg)

    def is_part(t):
        return t[0] == "elem" or t[0] == "any" and any(x[0] == "elem" for x in t[1])

    def which(t):
        """What a condition on the current step asks"""
        if t[0] == "cmp" and t[1] in ("Eq", "NotEq"):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if is_part(a) and b[0] == "const":
                    return b[1], t[1] == "Eq"
        return None

    class Steps(Case):
        def init(self):
            return (None, ())

        def event(self, ev, st, ip):
            step, did = st.mon
            if ev.kind == "iter":
                res["iters"].append(ev)
                return [("?", ())]
            if ev.kind == "branch" and step is not None:
                if step == "up" and any(x[0] == "obj" for t in ev.cond for x in subterms(t)):
                    res["empty"] = True
                for t in ev.cond:
                    neg = t[0] == "not"
                    w = which(t[1] if neg else t)
                    if w and w[0] == "..":
                        up = (w[1] != neg) == ev.taken
                        res["ups"] += up
                        return [("up" if up else "other", did)]
            if ev.kind == "call" and step is not None and ev.recv is not None and ev.name in ("pop", "append", "insert", "clear", "remove", "popleft",
                                                                                             "appendleft", "extend"):
                res["n"] += 1
                (res["up"] if step == "up" else res["keep"]).add((ev.name, any(t != ("const", -1) for a in ev.args or () for t in a), ev.loc(),
                                                                  all(is_part(t) for a in ev.args or () for t in a)))
            return NotImplemented
    ip = Interp(p, Steps())
    o = ip.run(f, None)
    if not res["n"]:
        cx.notes.append("EPath._resolve: the steps were not followed")
        return
    ups = {x[0] for x in res["up"]}
    for name, args, loc, own in res["up"]:
        cx.check(name not in ("append", "appendleft", "extend", "clear"), "C40.resolve", f"'..': {name}", loc, f"resolving does {name} for '..'")
        cx.check(not (name == "pop" and args), "C40.resolve", "'..': last step", loc, "resolving drops another step than the last for '..'")
    rebuilt = any(x[0] == "slice" and x[1][0] in ("obj", "any") for st, v, _ in o.ret for t in v for x in subterms(t))
    deletes = any(isinstance(x, ast.Delete) and any(isinstance(t, ast.Subscript) for t in x.targets) for x in ast.walk(f.node))
    cx.check("pop" in ups or rebuilt or deletes or not res["ups"], "C40.resolve", "'..': drops", f.loc(), "resolving does not drop a step for '..'")
    for ev in res["iters"]:
        for t in ev.value or ():
            if t[0] == "slice" and any(x[0] == "attr" and x[2] == "parts" for x in subterms(t)):
                a, _, b = t[2].partition(":")
                cx.check(not (a.strip().isdigit() and int(a) > 1) and not b.strip(), "C40.resolve", "all steps", ev.loc(),
                         "resolving leaves out steps of the path")
    for name, args, loc, own in res["keep"]:
        cx.check(name not in ("pop", "clear", "remove", "popleft", "insert", "appendleft"), "C40.resolve", f"step: {name}", loc,
                 f"resolving does {name} for an ordinary step")
        cx.check(name != "append" or own, "C40.resolve", "step: kept", loc, "resolving keeps something else than the step")
    cx.check(any(x[0] in ("append", "extend") for x in res["keep"]) or not res["keep"] and not ups, "C40.resolve", "step: keeps", f.loc(),
             "resolving does not keep ordinary steps")
    if res["ups"] and (res["empty"] or not ("pop" in ups or deletes)):
        # without asking, the list itself refuses to drop a step it does not have
        cx.check(any(r[0].mon[0] == "up" for r in o.exc), "C40.resolve", "root", f.loc(), "resolving accepts leaving the root")
    unresolved(p, cx, f)
    for st, v, node in o.ret:
        built = [t for t in v if t[0] == "call" and any(x[0] == "obj" for x in subterms(t))]
        for t in built:
            cx.check(not any(x[0] == "slice" and x[1][0] == "obj" and ("pop" in ups or x[2] != ":-1") for x in subterms(t)) and (("const", "/") in subterms(t) if t[1] == (
                "ext", "pathlib.PurePosixPath") else True), "C40.resolve", "result", f.loc(node), "resolving does not return all steps below the root")


def unresolved(p, cx, f):
    """A path with '..' steps is not returned as it is"""
    def plain(t):
        return not any(x[0] == "obj" for x in subterms(t))

    class Gate(Case):
        def event(self, ev, st, ip):
            if ev.kind == "iter":
                return ["asked"]
            if ev.kind != "branch":
                return NotImplemented
            mon = st.mon
            for t in ev.cond:
                neg = t[0] == "not"
                u = t[1] if neg else t
                if u[0] == "cmp" and u[1] in ("In", "NotIn") and u[2] == ("const", "..") and "parts" in str(u[3]) and "slice" not in str(u[3]):
                    if ((u[1] == "In") != neg) != ev.taken:
                        return []
                elif u[0] == "call" and u[1] == ("ext", "isinstance") or u[0] == "cmp" and u[1] in ("Eq", "NotEq") and ("const", "/") in u[2:] or \
                        u[0] == "cmp" and u[1] in ("In", "NotIn") and u[2] == ("const", "."):
                    continue
                elif u[0] == "cmp" and u[1] in ("Eq", "NotEq", "In", "NotIn") and ("const", "..") in u[2:] and any(
                        x[0] in ("sub", "slice") for x in subterms(u)):
                    continue
                else:
                    mon = "asked"
            return [mon]
        def init(self):
            return "plain"
    ip = Interp(p, Gate())
    ip.bool_branches = True
    o = ip.run(f, None)
    for st, v, node in o.ret:
        if st.mon == "plain":
            cx.check(not (v and all(plain(t) for t in v)), "C40.resolve", "'..': resolved", f.loc(node), "resolving leaves '..' steps in the path")


def listing(p, cx, c):
    f = c.find_method("glob")
    cx.fn(f)
    for proto in ("local", "rclone"):
        stores, missed = [], []

        def found(t):
            return t[0] == "elem" and any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "glob" for x in subterms(t))

        def decide(t):
            if t[0] == "cmp" and t[1] in ("Eq", "NotEq") and ("attr", SELF, "protocol") in t[2:] or \
                    t[0] == "cmp" and t[1] in ("Eq", "NotEq") and any(
                        x[0] == "attr" and x[2] == "protocol" for x in t[2:] if isinstance(x, tuple)):
                k = next((x[1] for x in t[2:] if x[0] == "const"), None)
                if k is not None:
                    return (k == proto) == (t[1] == "Eq")
            return None

        def see(ev, st, ip):
            if ev.kind == "store_attr" and ev.attr == "internal_path":
                stores.append(ev)
        ip = Interp(p, Case(decide, see), no_inline=("_resolve", "fork_guard", "__truediv__", "__init__"))
        o = ip.run(f, c)
        for ev in stores:
            for t in ev.value:
                sub = set(subterms(t))
                got = any(found(x) for x in sub)
                heads = {k for w, k in split(t)}
                if not got:
                    cx.bad("C40.list", f"{proto}: the match", ev.loc(), "glob lists something else than the match")
                    continue
                if proto == "local":
                    cx.check(not heads, "C40.list", "local: the match", ev.loc(), "glob puts a part in front of local matches")
                else:
                    cx.check("outer" in heads or not heads and any(x[0] in ("param", "fstr", "call") and x[0] == "fstr" for x in sub), "C40.list",
                             "remote: on the same storage", ev.loc(), "glob does not list remote matches as paths on this storage")
                    cx.check("inner" not in heads and "whole" not in heads and "fixed" not in heads, "C40.list", "remote: the match", ev.loc(),
                             "glob puts more than the storage in front of remote matches")

    class Each(Case):
        def init(self):
            return "no"

        def event(self, ev, st, ip):
            if ev.kind == "iter" and any(any(x[0] == "call" and x[1][0] == "attr" and x[1][2] == "glob" for x in subterms(t)) for t in ev.value or ()):
                if st.mon == "in":
                    missed.append(ev)
                return ["in"]
            if ev.kind == "yield":
                return ["out"]
            if ev.kind == "branch" and st.mon in ("in", "out") and any(found(x) for t in ev.cond for x in subterms(t)):
                return ["asked"]
            return NotImplemented
    missed = []
    o = Interp(p, Each(), no_inline=("_resolve", "fork_guard", "__truediv__", "__init__")).run(f, c)
    cx.check(not missed and not any(st.mon == "asked" for st, _, _ in o.ret), "C40.list", "each match", f.loc(), "glob leaves out matches")


def text(p, cx, c):
    f = c.find_method("url")
    cx.fn(f)
    for proto in ("local", "rclone"):
        def decide(t):
            if t[0] == "cmp" and t[1] in ("Eq", "NotEq") and ("attr", SELF, "protocol") in t[2:]:
                k = next((x[1] for x in t[2:] if x[0] == "const"), None)
                if k is not None:
                    return (k == proto) == (t[1] == "Eq")
            return None
        ip = Interp(p, Case(decide))
        o = ip.run(f, c)
        for st, v, node in o.ret:
            for t in v:
                sub = set(subterms(t))
                sep = any(x[0] == "const" and isinstance(x[1], str) and "://" in x[1] for x in sub)
                if proto == "local":
                    cx.check(not sep, "C40.text", "local", f.loc(node), "the text of a local path names a protocol")
                else:
                    cx.check(sep or not (t[0] == "call" and t[1] == ("ext", "str")), "C40.text", "remote", f.loc(node),
                             "the text of a remote path does not name its protocol")
                heads = {k for w, k in split(t)}
                cx.check(not heads or heads == {"whole"}, "C40.text", f"{proto}: whole path", f.loc(node), "the text of a path leaves out a part of it")
                last = any(x[0] == "attr" and x[2] in ("name", "parent", "stem") and x[1] == FULL for x in sub)
                cx.check(not last, "C40.text", f"{proto}: all of it", f.loc(node), "the text of a path leaves out a part of it")
    s = c.find_method("_split_protocol")
    if s is not None:
        cx.fn(s)
        ip = Interp(p, Case())
        for st, v, node in ip.run(s, None).ret:
            for t in v:
                if t[0] != "tuple" or len(t[1]) != 2:
                    continue
                names = [next((x[2][0][1] for x in subterms(e) if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "group" and x[2] and
                               x[2][0][0] == "const"), None) for e in t[1]]
                cx.check(names in ([None, None], ["protocol", "path"], [1, 2]) or None in names, "C40.text", "protocol and path", s.loc(node),
                         "protocol and path are mixed up")


class StoresOf(Case):
    """Notes the last value stored into each attribute"""

    def event(self, ev, st, ip):
        if ev.kind == "store_attr" and ev.base == V(SELF):
            return [frozenset((a, v) for a, v in st.mon if a != ev.attr) | {(ev.attr, ev.value)}]
        return Case.event(self, ev, st, ip)


def make(p, cx, c):
    f = c.find_method("__init__")
    cx.fn(f)
    given = ("param", f.node.args.args[1].arg)

    ip = Interp(p, StoresOf(), no_inline=("_resolve", "_split_protocol", "create_s3fs_from_rclone_remote"))
    o = ip.run(f, c)
    ends = [(st, node) for st, _, node in o.ret]
    n = 0
    for st, node in ends:
        got = dict(st.mon)
        proto = got.get("protocol")
        if not proto or len(proto) != 1:
            continue
        n += 1
        (k,) = proto
        num, fs = got.get("num_fs_path_parts", frozenset()), got.get("fs", frozenset())
        if k == ("attr", given, "protocol"):
            for a in ("internal_path", "fs", "num_fs_path_parts", "s3_args"):
                cx.check(got.get(a) == V(("attr", given, a)) or a in got and any(
                    t[0] == "call" and t[1] != ("ext", "LocalFileSystem") and not (t[1][0] == "ext" and t[1][1].endswith("LocalFileSystem"))
                    for t in got[a]), "C40.make", f"copy: {a}", f.loc(),
                         f"a copy of a path does not take over its {a}")
        elif k == ("const", "local"):
            cx.check(num == V(("const", 0)) or not num or any(t[0] != "const" for t in num), "C40.make", "local: parts", f.loc(),
                     "a local path has parts that select the storage")
            cx.check(not any(x[0] == "call" and x[1][0] in ("func", "bm") for t in fs for x in subterms(t)), "C40.make", "local: storage", f.loc(),
                     "a local path does not refer to the local storage")
        elif k == ("const", "rclone"):
            cx.check(num == V(("const", 2)) or not num or any(t[0] != "const" for t in num), "C40.make", "remote: parts", f.loc(),
                     "the parts of a remote path that select the storage are not root and remote name")
            cx.check(not any(x[0] == "ext" and x[1].endswith("LocalFileSystem") for t in fs for x in subterms(t)), "C40.make", "remote: storage",
                     f.loc(), "a remote path refers to the local storage")
            for t in fs:
                for x in subterms(t):
                    if x[0] == "sub" and x[1][0] == "attr" and x[1][2] == "parts" and x[2][0] == "const":
                        cx.check(x[2][1] == 1, "C40.make", "remote: name", f.loc(), "the remote is not named by the first step of the path")
    def is_path(t):
        if t[0] == "call" and t[1] == ("ext", "isinstance") and len(t[2]) == 2 and t[2][0] == given:
            return t[2][1][1].startswith("pathlib.") if t[2][1][0] in ("ext", "cls") else None
        return None
    o = Interp(p, StoresOf(is_path), no_inline=("_resolve", "_split_protocol", "create_s3fs_from_rclone_remote")).run(f, c)
    for st, _, node in o.ret:
        for t in dict(st.mon).get("internal_path", ()):
            cx.check(t != given and t != ("call", ("ext", "pathlib.PurePosixPath"), (given,), ()), "C40.make", "local: absolute", f.loc(),
                     "a path made from a pathlib path is not absolute")
    f = c.find_method("absolute")
    if f is not None:
        cx.fn(f)

        def decide(t):
            if t[0] == "cmp" and t[1] in ("Eq", "NotEq") and ("attr", SELF, "protocol") in t[2:]:
                k = next((x[1] for x in t[2:] if x[0] == "const"), None)
                return None if k is None else (k == "local") == (t[1] == "Eq")
            neg = t[0] == "not"
            w = is_abs(t[1] if neg else t)
            return neg if w == SELF else None
        o = Interp(p, Case(decide), no_inline=("is_absolute", "__init__")).run(f, c)
        for st, v, node in o.ret:
            cx.check(SELF not in v, "C40.make", "absolute", f.loc(node), "EPath.absolute returns a relative path")
    if n < 3:
        cx.notes.append(f"EPath: {n} way(s) of making a path followed")


def derive(p, cx, c):
    for name, attr in (("parent", "parent"), ("with_suffix", "with_suffix"), ("name", "name")):
        f = c.find_method(name)
        if f is None:
            continue
        cx.fn(f)
        vals = []

        def see(ev, st, ip):
            if ev.kind == "store_attr" and ev.attr == "internal_path":
                vals.append((ev.value, ev.loc()))
        ip = Interp(p, Case(None, see), no_inline=("__init__",))
        o = ip.run(f, c)
        if name == "name":
            vals = [(v, f.loc(n)) for _, v, n in o.ret]
        for v, loc in vals:
            for t in v:
                for x in subterms(t):
                    if x[0] == "attr" and x[1] == FULL and x[2] in ("parent", "with_suffix", "name", "stem", "with_name", "with_stem", "suffix"):
                        cx.check(x[2] == attr or t != x and not (t[0] == "call" and t[1] == x), "C40.derive", name, loc,
                                 f"EPath.{name} gives the {x[2]} of the path")
                n, x = 0, t
                while x[0] == "attr" and x[2] == "parent":
                    n, x = n + 1, x[1]
                cx.check(name != "parent" or x != FULL or n == 1, "C40.derive", "parent: one step", loc, f"EPath.parent goes up {n} steps")
                cx.check(t != FULL, "C40.derive", name, loc, f"EPath.{name} gives the path itself")
                if name == "with_suffix" and t[0] == "call" and t[1] == ("attr", FULL, "with_suffix"):
                    cx.check(bool(t[2]) and t[2][0][0] != "const", "C40.derive", "with_suffix: suffix", loc, "EPath.with_suffix sets another suffix")
    f = c.find_method("relative_to")
    cx.fn(f)
    other = ("param", f.node.args.args[1].arg)
    ip = Interp(p, Case(), no_inline=("fork_guard",))
    o = ip.run(f, c)
    for st, v, node in o.ret:
        for t in v:
            for x in subterms(t):
                if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "relative_to" and x[2]:
                    own = SELF in subterms(x[1][1]) and other not in subterms(x[1][1])
                    cx.check(own and other in subterms(x[2][0]), "C40.derive", "relative_to", f.loc(node), "EPath.relative_to mixes up the two paths")
    f = c.find_method("__lt__")
    if f is not None:
        cx.fn(f)
        o = Interp(p, Case(), no_inline=("fork_guard",)).run(f, c)
        for st, v, node in o.ret:
            for t in v:
                if t[0] == "cmp" and t[1] in ("Lt", "Gt", "LtE", "GtE"):
                    a, b = (t[2], t[3]) if t[1] == "Lt" else (t[3], t[2]) if t[1] == "Gt" else (None, None)
                    cx.check(a is not None and SELF in subterms(a), "C40.derive", "__lt__", f.loc(node), "paths are not sorted in ascending order")
