"""C14: the index of a shard appears under its final name complete or not at all."""
import ast

from ..flow import Interp, Monitor, subterms
from ..model import AnalysisBroken

WRITER, READER = "TarIndexWriter", "TarIndexReader"
PATH = "EPath"
FAIL = "Exception?"
MOVES = {"move", "rename", "replace"}
REMOVES = {"unlink", "remove"}


def unwrap(t):
    """EPath(x) names the same file as x."""
    while t[0] == "call" and t[1][0] == "cls" and t[1][1].split(".")[-1] == PATH and len(t[2]) == 1:
        t = t[2][0]
    return t


class Files(Monitor):
    """Names of files become ("tok", "file", path, suffix)."""

    def __init__(self):
        self.attrs = {}
        self.opens = []
        self.unknown = []

    def inline(self, fi, recv, ip, stack):
        if fi.cls is not None and fi.cls.name == PATH:
            return False
        return NotImplemented

    def result(self, ev, st, ip):
        if ev.kind == "call" and ev.name == "with_suffix" and ev.args:
            base = ev.recv
            for b in (base if isinstance(base, frozenset) else [base]):
                for a in ev.args[0]:
                    return ("tok", "file", unwrap(b), a)
        return None

    def event(self, ev, st, ip):
        if ev.kind == "store_attr" and ("self",) in ev.base:
            self.attrs.setdefault(ev.attr, set()).update(ev.value)
        if ev.kind == "call" and ev.name == "open" and ev.recv is not None:
            mode = ev.args[0] if ev.args else ev.kwargs.get("mode", frozenset())
            self.opens.append((ev.recv, mode, ev))
        return NotImplemented


def names(m, t):
    """File tokens a term may stand for."""
    if t[0] == "any":
        return set().union(*[names(m, x) for x in t[1]])
    if t[0] == "attr" and t[1] == ("self",):
        return set().union(set(), *[names(m, x) for x in m.attrs.get(t[2], ()) if x != t])
    if t[:2] == ("tok", "file"):
        return {t}
    if t[0] == "call" and unwrap(t) != t:
        return names(m, unwrap(t))
    return {("raw", t)} if t[0] == "param" else set()


def constructor(p, c):
    f = c.find_method("__init__")
    if f is None:
        raise AnalysisBroken(f"{c.name}.__init__ not found")
    m = Files()
    Interp(p, m).run(f, c)
    out = []
    for recv, mode, ev in m.opens:
        out.append((names(m, recv), {t[1] for t in mode if t[0] == "const"}, ev))
    return f, m, out


class Exit(Monitor):
    """mon = (what happened, in order)"""

    def __init__(self, attrs, temp, final, handle):
        self.attrs, self.temp, self.final, self.handle = attrs, temp, final, handle
        self.m = Files()
        self.m.attrs = attrs

    def init(self):
        return ()

    def inline(self, fi, recv, ip, stack):
        if fi.cls is not None and fi.cls.name == PATH:
            return False
        return NotImplemented

    def result(self, ev, st, ip):
        return self.m.result(ev, st, ip)

    def event(self, ev, st, ip):
        if ev.kind != "call" or ev.tag == "inlined" or ev.recv is None:
            return NotImplemented
        r = ev.recv
        what = None
        if ev.name == "close" and r[0] == "attr" and r[1] == ("self",) and r[2] in self.handle:
            what = "close"
        n = names(self.m, r)
        if n and ev.name in MOVES:
            to = set().union(set(), *[names(self.m, x) for v in list(ev.args) + list(ev.kwargs.values()) for x in v])
            what = "publish" if n == {self.temp} and to == {self.final} else "othermove"
        elif n and ev.name in REMOVES:
            what = "discard" if n == {self.temp} else "remove"
        if what is None:
            return NotImplemented
        return st.mon + (what,) if len(st.mon) < 5 else NotImplemented


def writer_class(p, cx):
    cx.rule("C14.temp", "while the index is being written, its file has another name than the one readers open, beside it")
    cx.rule("C14.publish", "after success the closed temporary file is moved to the name the readers open, after a failure it is "
            "removed and nothing is moved")
    w, r = p.cls(WRITER), p.cls(READER)
    rf, rm, ro = constructor(p, r)
    cx.fn(rf)
    final = set().union(set(), *[n for n, mode, ev in ro])
    suffixes = {t[3] for t in final if t[0] == "tok"}
    if len(suffixes) != 1:
        raise AnalysisBroken("the name the index reader opens is not understood")
    suffix = next(iter(suffixes))
    cx.check(all(t[0] == "tok" and t[2][0] == "param" for t in final), "C14.temp", f"{READER}.name", rf.loc(),
             "the index is opened under a name not made from the path of the shard")
    wf, wm, wo = constructor(p, w)
    cx.fn(wf)
    writes = [(n, ev) for n, mode, ev in wo if any(isinstance(x, str) and ("w" in x or "x" in x or "a" in x) for x in mode)]
    if not writes:
        raise AnalysisBroken("the index writer opens no file for writing")
    temps = set()
    for n, ev in writes:
        bad = [t for t in n if t[0] != "tok" or t[3] == suffix or t[2][0] != "param"]
        cx.check(n and not bad, "C14.temp", f"{WRITER}.open", ev.where(),
                 "the index is written under the name the readers open, so an incomplete one is visible")
        temps |= n
    if len(temps) != 1:
        return
    temp = next(iter(temps))
    handle = {a for a, v in wm.attrs.items() if any(t[0] == "call" and (t[1][0] == "attr" and t[1][2] == "open" or
                                                                       t[1][0] == "bm") for t in v)
              and not any(t[:2] == ("tok", "file") for t in v)}
    fin = ("tok", "file", temp[2], suffix)
    f = w.find_method("__exit__")
    if f is None:
        raise AnalysisBroken(f"{WRITER}.__exit__ not found")
    cx.fn(f)
    ps = [a.arg for a in f.all_params()][1:4]
    for case, v in (("success", ("const", None)), ("failure", ("tok", "exc"))):
        m = Exit(dict(wm.attrs), temp, fin, handle)
        o = Interp(p, m).run(f, w, bind={x: frozenset({v}) for x in ps})
        want = ("close", "publish" if case == "success" else "discard")
        got = {st.mon for st, _, _ in o.ret} | {st.mon for st in (o.normal or ())}
        if not got:
            raise AnalysisBroken(f"no path through {WRITER}.__exit__")
        wrong = sorted(g for g in got if g != want)
        cx.check(not wrong, "C14.publish", f"{WRITER}.{case}", f.loc(),
                 f"leaving the index writer after {case} does {', '.join(wrong[0]) or 'nothing' if wrong else ''} instead of "
                 f"{', '.join(want)}")


class Use(Monitor):
    """mon = (writer open, a failure was caught while it was open, a failure was caught, count stored)"""

    def __init__(self):
        self.made = []
        self.swallowed = {}
        self.entered = 0

    def init(self):
        return (False, False, False, False)

    def inline(self, fi, recv, ip, stack):
        if fi.cls is not None and fi.cls.name in (PATH, WRITER):
            return False
        return NotImplemented

    def result(self, ev, st, ip):
        if ev.kind == "call" and ev.func and ev.func[0] == "cls" and ev.func[1].split(".")[-1] == WRITER:
            return ("tok", "writer")
        if ev.kind == "call" and ev.func and ev.func[0] == "cls" and ev.func[1].split(".")[-1] == "ShardInfo":
            return ("tok", "info")
        return None

    def raises(self, ev, st, ip):
        if ev.kind == "next" or ev.kind == "call" and ev.tag != "inlined":
            return (FAIL,)
        return ()

    def event(self, ev, st, ip):
        op, inner, caught, count = st.mon
        if ev.kind == "call" and ev.func and ev.func[0] == "cls" and ev.func[1].split(".")[-1] == WRITER:
            self.made.append(ev)
            return NotImplemented
        if ev.kind == "with_enter" and ("tok", "writer") in ev.value or \
                ev.kind == "call" and ev.name == "append" and ev.recv == ("tok", "writer"):
            return (True, inner, caught, count)
        if ev.kind == "with_exit" and ("tok", "writer") in self.flat(ev.value):
            if inner and ev.tag == "normal":
                self.swallowed.setdefault(id(ev.node), ev)
            self.entered += 1
            return (False, False, caught, count)
        if ev.kind == "call" and ev.name == "close" and ev.recv == ("tok", "writer"):
            a = ev.args[0] if ev.args else ev.kwargs.get("finalize", frozenset({("const", True)}))
            if a != frozenset({("const", False)}) and inner:
                self.swallowed.setdefault(id(ev.node), ev)
            self.entered += 1
            return (False, False, caught, count)
        if ev.kind == "catch" and ev.tag == FAIL and set(ev.value) - {"StopIteration"}:
            return (op, inner or op, True, count)
        if ev.kind == "store_attr" and ev.attr == "count":
            return (op, inner, caught, ev.value != frozenset({("const", 0)}))
        return NotImplemented

    @staticmethod
    def flat(v):
        return {x for t in v or () for x in subterms(t)}


def uses(p, cx):
    cx.rule("C14.use", "wherever an index is written, a failure while writing it reaches the index writer (it is not swallowed "
            "inside), and the writer is always left")
    cx.rule("C14.count", "a shard whose index failed part-way is not reported as usable")
    n = 0
    for f in p.all_functions():
        if not mentions(f.node, WRITER) or f.outer is not None:
            continue
        m = Use()
        try:
            o = Interp(p, m).run(f, f.cls)
        except RecursionError:
            continue
        if not m.made:
            continue
        cx.fn(f)
        n += 1
        name = f.qualname
        bad = next(iter(m.swallowed.values()), None)
        cx.check(bad is None, "C14.use", f"{name}.swallow", bad.where() if bad else f.loc(),
                 "a failure while writing the index is swallowed inside the writer: the partial index is published")
        left = [st for st, _, _ in o.ret if st.mon[0]] + [st for st in (o.normal or ()) if st.mon[0]] + \
               [e[0] for e in o.exc if e[0].mon[0]]
        cx.check(not left, "C14.use", f"{name}.left", m.made[0].where(),
                 "the index writer is not left on every path: the temporary file stays behind")
        wrong = [node for st, _, node in o.ret if st.mon[2] and st.mon[3]]
        cx.check(not wrong, "C14.count", f"{name}", f.loc(wrong[0]) if wrong else f.loc(),
                 "after a failure the shard is returned with the number of samples seen so far, although it has no index")
    cx.floor("functions writing an index", n, 1)


def mentions(node, name):
    return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(node))


def check(p, cx):
    writer_class(p, cx)
    uses(p, cx)
