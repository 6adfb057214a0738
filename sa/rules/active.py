"""C09: typestate of the active worker and of the stack of sample numbers."""
import ast

from ..flow import Interp, Monitor, is_attr, subterms
from ..model import AnalysisBroken, ClassInfo, walk_own
from .errors import entries
from .keys import alts, dataset_attrs, restorers, user_fn_attrs

ERR = "Failure#"
ACT = ("worker_activate", "worker_deactivate")
STACK = ("worker_push_sample_index", "worker_pop_sample_index")


class Balance(Monitor):
    """mon = (active, depth, counted): nesting of activate / push, increments of the counter since the last sample"""

    def __init__(self, streams):
        self.streams = streams
        self.bad = {}
        self.acts = self.pushes = 0
        self.counter = None          # attribute holding the number given to worker_activate
        self.numbers = []

    def init(self):
        return (0, 0, None)

    def note(self, what, ev):
        self.bad.setdefault(what, ev)

    def is_stream(self, v):
        return any(is_attr(y, ("self",)) and y[2] in self.streams for t in v for y in subterms(t))

    def event(self, ev, st, ip):
        a, d, n = st.mon
        k = ev.kind
        if k == "call" and ev.tag != "inlined":
            if ev.name == "worker_activate":
                self.acts += 1
                if a:
                    self.note("is activated while it is active", ev)
                self.numbers.append((ev, st, ip))
                c = {attr_of(t) for t in (ev.args[0] if ev.args else ev.arg(None, "sample_index") or ())}
                if len(c) == 1 and None not in c:
                    self.counter = c.pop()
                    if n is not None and n != 1:
                        self.note("is activated for the next sample under the number of the previous one"
                                  if n == 0 else "skips a number", ev)
                return (1, d, None)
            if ev.name == "worker_deactivate":
                if not a:
                    self.note("is deactivated although it is not active", ev)
                if d:
                    self.note("is deactivated within the processing of a sample", ev)
                return (0, d, n)
            if ev.name == STACK[0]:
                self.pushes += 1
                return (a, min(d + 1, 3), n)
            if ev.name == STACK[1]:
                if not d:
                    self.note("sample number is taken back although none was set", ev)
                return (a, max(d - 1, 0), n)
            if ev.name in ("restore_sample",) and self.acts and not a and self.is_stream([ev.func]):
                self.note("is not active while the inner dataset works", ev)
        if k in ("next", "iter") and self.acts and self.is_stream(ev.value):
            if k == "next":
                if not a:
                    self.note("is not active while the inner dataset works", ev)
                return (a, d, 0)
        if k == "call" and ev.func == ("ext", "next") and ev.args and self.acts and self.is_stream(ev.args[0]) and not a:
            self.note("is not active while the inner dataset works", ev)
        if k in ("yield", "yield_from") and len(ev.stack) >= 1:
            if a:
                self.note("is still active when a sample is handed out", ev)
            if d:
                self.note("sample number is still set when a sample is handed out", ev)
        if k in ("store_attr", "store_sub") and n is not None:
            if self.is_counter(ev):
                return (a, d, min(n + 1, 2))
        return NotImplemented

    def is_counter(self, ev):
        if self.counter is None:
            return False
        if ev.kind == "store_attr":
            return any(b == ("self",) for b in ev.base) and ev.attr == self.counter
        return any(is_attr(b, ("self",), self.counter) for b in ev.base)

    def raises(self, ev, st, ip):
        if ev.kind in ("yield", "yield_from"):
            return ("GeneratorExit",)
        if ev.kind == "next":
            return (ERR,)
        if ev.kind == "call" and ev.tag != "inlined":
            if ev.name in ACT + STACK or ev.func[0] == "ext" and ev.func[1] in ("len", "iter", "print", "list", "id"):
                return ()
            return (ERR,)
        return ()

    def inline(self, fi, recv, ip, stack):
        if fi.cls is not None and fi.cls.name == "SampleIndex" and (fi.is_contextmanager or fi.is_generator):
            return True
        return NotImplemented


def attr_of(t):
    for x in alts(t):
        while x[0] in ("sub", "elem"):
            x = x[1]
        return x[2] if is_attr(x, ("self",)) else None


def callers(p, names):
    """Functions (outermost) calling one of the names."""
    out = {}
    for fi in p.all_functions():
        for n in walk_own(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names:
                top = fi
                while top.outer is not None:
                    top = top.outer
                out[top.key] = top
    return list(out.values())


def run(p, cx, c, m, what):
    mon = Balance(dataset_attrs(p, c))
    ip = Interp(p, mon)
    o = ip.run(m, c)
    if not mon.acts and not mon.pushes:
        return 0
    cx.fn(m)
    for st, v, node in o.ret:
        if st.mon[0]:
            mon.note("is left active at the end", None)
        if st.mon[1]:
            mon.note("sample number is left set at the end", None)
    for st, tag, ev in o.exc:
        if isinstance(tag, tuple):
            continue
        how = "when the generator is closed early" if tag == "GeneratorExit" else "when an error passes through"
        if st.mon[0]:
            mon.note(f"is left active {how}", ev)
        if st.mon[1]:
            mon.note(f"sample number is left set {how}", ev)
    con = f"{c.name}.{m.name}"
    if not mon.bad:
        cx.ok("C09.balance", con, m.loc())
    for w, ev in sorted(mon.bad.items()):
        cx.bad("C09.balance", con + "/" + w, ev.loc() if ev is not None else m.loc(), f"the {what} {w}")
    numbers(cx, c, m, mon)
    return 1


def numbers(cx, c, m, mon):
    """The number a worker is activated with is the counter of the samples handed out, or the one of the key."""
    for ev, st, ip in mon.numbers:
        a = ev.args[0] if ev.args else (ev.kwargs or {}).get("sample_index", frozenset())
        good = bool(a) and all(attr_of(t) or from_param(t) for t in a)
        cx.check(good, "C09.number", f"{c.name}.{m.name}", ev.loc(),
                 "the worker is activated with a number which is neither its sample counter nor the one of the key")


def from_param(t):
    return any(x[0] == "param" for x in subterms(t))


def check(p, cx):
    cx.rule("C09.balance", "on every path (value, error at any call, error of the inner dataset, generator closed at "
            "any yield) each activation of the worker and each sample number set is taken back exactly once, none is "
            "in place while a sample is handed out, and the worker is active whenever the inner dataset runs")
    cx.rule("C09.number", "the worker is activated with the counter of its samples, which advances by one between two "
            "activations, or with the number of the restore key")
    cx.rule("C09.stack", "the stack of sample numbers is started with the number given, extended and shortened at "
            "the same end, cleared together with the active worker, and touched by nothing else")
    wc = p.cls("WorkerConfig")
    n = 0
    done = set()
    for f in callers(p, ACT):
        if f.cls is wc:
            continue
        if f.cls is None:
            raise AnalysisBroken(f"{f.qualname} activates a worker outside a class")
        c = f.cls
        if c.name in done:
            continue
        done.add(c.name)
        k = 0
        for m in entries(p, c):
            k += run(p, cx, c, m, "worker")
        n += k
    cx.floor("methods activating the worker", n, 4)
    k = 0
    for f in callers(p, STACK):
        if f.cls is wc or f.cls is None:
            continue
        if f.cls.name in done:
            continue
        done.add(f.cls.name)
        for m in entries(p, f.cls):
            k += stack_users(p, cx, f.cls, m)
    cx.floor("methods setting sample numbers", k, 2)
    k = 0
    base = p.cls("SavableDataset")
    for c in sorted(p.subclasses(base), key=lambda x: x.qualname):
        if c.name in done:
            continue
        for name in ("__iter__", "restore_sample"):
            m = c.find_method(name)
            if m is None or m.is_abstract or (c.name != m.cls.name and name == "restore_sample"):
                continue
            k += run(p, cx, c, m, "worker")
    cx.floor("iterations under a sample number", k, 8)
    worker_config(p, cx, wc)
    index_values(p, cx)
    reads(p, cx, wc)


def stack_users(p, cx, c, m):
    """ctx() and iter_ctx(): balanced for every way the body of the with / the consumer ends."""
    mon = CtxBalance(m.is_contextmanager)
    ip = Interp(p, mon)
    o = ip.run(m, c)
    if not mon.pushes:
        return 0
    cx.fn(m)
    con = f"{c.name}.{m.name}"
    for st, v, node in o.ret:
        if st.mon[1]:
            mon.note("is left set at the end", None)
        if m.is_contextmanager and not st.mon[2]:
            mon.note("is never handed to the body", None)
    for st, tag, ev in o.exc:
        if isinstance(tag, str) and st.mon[1]:
            mon.note("is left set when the body fails" if tag != "GeneratorExit" else
                     "is left set when the generator is closed", ev)
    if not mon.bad:
        cx.ok("C09.balance", con, m.loc())
    for w, ev in sorted(mon.bad.items()):
        cx.bad("C09.balance", con + "/" + w, ev.loc() if ev is not None else m.loc(), f"the sample number {w}")
    return 1


class CtxBalance(Balance):
    def __init__(self, ctxm):
        super().__init__(set())
        self.ctxm = ctxm

    def event(self, ev, st, ip):
        a, d, n = st.mon
        if ev.kind in ("yield", "yield_from"):
            if self.ctxm:
                if d != 1:
                    self.note("is not set while the body runs", ev)
                return (a, d, 1)
            if d:
                self.note("is still set when a sample is handed out", ev)
            return NotImplemented
        if ev.kind == "call" and ev.func == ("ext", "next") and not d:
            self.note("is not set while the sample is produced", ev)
        if ev.kind == "next" and not self.ctxm and not d:
            self.note("is not set while the sample is produced", ev)
        return super().event(ev, st, ip)

    def raises(self, ev, st, ip):
        if ev.kind in ("yield", "yield_from"):
            return ("GeneratorExit", ERR) if self.ctxm else ("GeneratorExit",)
        return super().raises(ev, st, ip)


class Stores(Monitor):
    """Order of accesses to the class attributes of WorkerConfig."""

    def __init__(self, wc):
        self.wc = wc
        self.stores, self.calls, self.loads = {}, [], []

    def init(self):
        return frozenset()

    def on_cls(self, b):
        return any(t[0] == "cls" and t[1].split(".")[-1] == self.wc.name or t == ("self",) for t in b)

    def event(self, ev, st, ip):
        if ev.kind == "store_attr" and self.on_cls(ev.base):
            self.stores.setdefault(ev.attr, []).append((ev, ev.value))
            return st.mon | {ev.attr}
        if ev.kind == "call" and ev.func is not None and ev.func[0] == "attr":
            self.calls.append(ev)
            return st.mon | {"call:" + ev.func[2]}
        return NotImplemented


def class_attr(t, wc):
    return t[0] == "attr" and (t[1][0] == "cls" and t[1][1].split(".")[-1] == wc.name or t[1] == ("self",))


def run_wc(p, wc, name):
    m = wc.find_method(name)
    if m is None:
        raise AnalysisBroken(f"{wc.name}.{name} not found")
    mon = Stores(wc)
    ip = Interp(p, mon)
    o = ip.run(m, wc)
    return m, mon, ip, o


def worker_config(p, cx, wc):
    m, mon, ip, o = run_wc(p, wc, "worker_activate")
    cx.fn(m)
    ps = m.params()[0][1:]
    stack = active = None
    for a, lst in mon.stores.items():
        for ev, v in lst:
            for t in v:
                h = next((s.heap.get(t) for s, _, _ in o.ret if t[0] == "obj"), None)
                if h is not None and any(("param", ps[0]) in x for _, x in h[1]):
                    stack = a
                elif t == ("self",):
                    active = a
    loc = m.loc()
    cx.check(stack is not None, "C09.stack", "activate/number", loc, "activation does not start the stack with the number given")
    cx.check(active is not None, "C09.stack", "activate/worker", loc, "activation does not set the active worker")
    over = {a for a, lst in mon.stores.items() for _, v in lst for t in v if len(ps) > 1 and t == ("param", ps[1])}
    cx.check(bool(over) or len(ps) < 2, "C09.stack", "activate/override", loc, "activation drops the overridden worker id")
    need = {a for a in (stack, active) if a} | over
    for st, v, node in o.ret:
        cx.check(need <= st.mon, "C09.stack", "activate/all", loc, f"a path of the activation does not set {sorted(need - st.mon)}")
    # deactivate: all of them are reset together
    m, mon, ip, o = run_wc(p, wc, "worker_deactivate")
    cx.fn(m)
    full = [st for st, v, node in o.ret if need <= st.mon]
    part = [st for st, v, node in o.ret if st.mon & need and not need <= st.mon]
    cx.check(bool(full) and not part, "C09.stack", "deactivate/all", m.loc(),
             f"deactivation does not reset all of {sorted(need)}")
    for a in sorted(need):
        vals = {t for ev, v in mon.stores.get(a, ()) for t in v}
        cx.check(vals == {("const", None)}, "C09.stack", f"deactivate/{a}", m.loc(), f"deactivation does not clear {a}")
    for st, v, node in o.ret:
        if not st.mon & need:
            # only where no worker is active
            cx.check(any("active" in str(f) or active in str(f) for f in st.facts), "C09.stack", "deactivate/guard",
                     m.loc(), "a path of the deactivation resets nothing although a worker is active")
    # push / pop work on the same end
    push, pm, pip, po = run_wc(p, wc, STACK[0])
    pops, qm, qip, qo = run_wc(p, wc, STACK[1])
    cx.fn(push)
    cx.fn(pops)
    ps = push.params()[0][1:]
    ok = [ev for ev in pm.calls if ev.func[2] == "append" and class_attr(ev.func[1], wc) and ev.func[1][2] == stack
          and ev.args and ev.args[0] == frozenset({("param", ps[0])})]
    cx.check(len(ok) == 1 and all("call:append" in st.mon for st, _, _ in po.ret), "C09.stack", "push", push.loc(),
             "a sample number is not put on the end of the stack")
    ok = [ev for ev in qm.calls if ev.func[2] == "pop" and class_attr(ev.func[1], wc) and ev.func[1][2] == stack
          and (not ev.args or ev.args[0] == frozenset({("const", -1)}))]
    cx.check(len({id(e.node) for e in ok}) == 1 and all("call:pop" in st.mon for st, _, _ in qo.ret), "C09.stack", "pop",
             pops.loc(), "the sample number taken back is not the last one of the stack")
    # nobody else touches them
    names = {stack, active}
    for fi in p.all_functions():
        top = fi
        while top.outer is not None:
            top = top.outer
        if top.cls is wc:
            continue
        for n in walk_own(fi.node):
            if isinstance(n, ast.Attribute) and n.attr in names and (
                    isinstance(n.ctx, (ast.Store, ast.Del)) or n.attr == stack):
                cx.bad("C09.stack", f"{fi.qualname}/{n.attr}", fi.loc(n), f"{n.attr} is touched outside {wc.name}")
    cx.stack_attr, cx.active_attr = stack, active


def index_values(p, cx):
    """get_next hands out each number once."""
    si = p.cls("SampleIndex")
    m = si.find_method("get_next")
    if m is None:
        return
    mon = Versions()
    ip = Interp(p, mon)
    o = ip.run(m, si)
    cx.fn(m)
    ok = bool(o.ret)
    for st, v, node in o.ret:
        ok = ok and st.mon == 1 and all(before(t) for t in v)
    cx.check(ok, "C09.number", "SampleIndex.get_next", m.loc(),
             "the number handed out is not the count before, or the count does not advance by one")


class Versions(Monitor):
    def init(self):
        return 0

    def event(self, ev, st, ip):
        if ev.kind == "store_sub" and any(is_attr(b, ("self",)) for b in ev.base):
            d = delta(ev)
            return st.mon + d if d is not None and st.mon < 3 else 9
        return NotImplemented

    def loaded(self, t, st, ip):
        if t[0] == "sub" and is_attr(t[1], ("self",)):
            return ("ver", t, st.mon)
        return t


def delta(ev):
    """Amount the store adds to what was there."""
    for t in ev.value:
        if t[0] == "binop" and t[1] == "Add" and t[3] == ("const", 1) or t[0] == "binop" and t[1] == "Add" and t[2] == ("const", 1):
            return 1
        if t[0] == "num":
            return 1
    if ev.op is not None and ev.op == "Add":
        return 1 if ev.value == frozenset({("const", 1)}) else None
    return None


def before(t):
    if t[0] == "ver":
        return t[2] == 0
    if t[0] == "binop" and t[1] == "Sub" and t[3] == ("const", 1) and t[2][0] == "ver":
        return t[2][2] == 1
    return False


def reads(p, cx, wc):
    """What user code reads as its number: the innermost one, made unique over the workers of the rank."""
    cx.rule("C09.read", "the sample number user code reads is the innermost one set, the batch number the outermost, "
            "both spread over the workers of the rank; the task encoder's properties read exactly these")
    for name, pos in (("active_worker_sample_index", -1), ("active_worker_batch_index", 0)):
        m = wc.find_method(name)
        if m is None:
            raise AnalysisBroken(f"{name} not found")
        ip = Interp(p, Monitor(), no_inline={"rank_worker_id"})
        o = ip.run(m, wc)
        cx.fn(m)
        for st, v, node in o.ret:
            good = all(spread(t, wc, cx.stack_attr, pos, ip) for t in v)
            cx.check(good, "C09.read", name, m.loc(),
                     "is not the number of the expected end of the stack times the workers plus the worker's own")
    te = p.cls("TaskEncoder")
    for name, want in (("current_sample_index", "active_worker_sample_index"),
                       ("current_batch_index", "active_worker_batch_index")):
        m = te.find_method(name)
        if m is None:
            raise AnalysisBroken(f"TaskEncoder.{name} not found")
        ip = Interp(p, Monitor())
        o = ip.run(m, te)
        cx.fn(m)
        good = bool(o.ret) and all(t[0] == "attr" and t[2] == want and t[1][0] == "attr" and t[1][2] == cx.active_attr
                                   for st, v, node in o.ret for t in v)
        cx.check(good, "C09.read", f"TaskEncoder.{name}", m.loc(), f"does not read {want} of the active worker")


def spread(t, wc, stack, pos, ip):
    if t[0] != "binop" or t[1] != "Add":
        return False
    for a, b in ((t[2], t[3]), (t[3], t[2])):
        if a[0] == "binop" and a[1] == "Mult" and is_rank_worker(b, ip):
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if x[0] == "sub" and x[2] == ("const", pos) and class_attr(x[1], wc) and x[1][2] == stack and \
                        y[0] == "call" and y[1] == ("ext", "max") and ("const", 1) in y[2] and \
                        any(z[0] == "attr" and z[2] == "num_workers" for z in y[2]):
                    return True
    return False


def is_rank_worker(t, ip):
    return t[0] == "call" and (t[1][0] == "attr" and t[1][2] == "rank_worker_id"
                               or t[1][0] == "bm" and ip.func_of(t[1]).name == "rank_worker_id")
