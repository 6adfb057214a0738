"""C18: commands and sample production exclude each other; C19: one answer for every command."""
import ast

from ..flow import Interp, Monitor, MUTATORS, NONE, is_attr, subterms
from ..model import AnalysisBroken, walk_own

FAIL = "Failure#"
SELF = ("self",)
LOCKS = ("threading.RLock", "threading.Lock")


def facts(p):
    """(worker side class, thread function, lock attribute, command names, loader class)"""
    for c in p.classes():
        for f in c.methods.values():
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and any(k.arg == "target" for k in n.keywords) and ast.unparse(n.func).endswith("Thread"):
                    lock = {t.attr for g in c.methods.values() for a in walk_own(g.node) if isinstance(a, ast.Assign) and
                            isinstance(a.value, ast.Call) and ast.unparse(a.value.func) in LOCKS + ("RLock", "Lock")
                            for t in a.targets if isinstance(t, ast.Attribute)}
                    if not lock:
                        continue
                    target = next(k.value for k in n.keywords if k.arg == "target")
                    name = target.attr if isinstance(target, ast.Attribute) else getattr(target, "id", None)
                    g = c.find_method(name) if name else None
                    if g is None:
                        g = next((x for x in p.all_functions() if x.name == name and x.module is f.module), None)
                    if g is None:
                        raise AnalysisBroken("the function of the command thread is not found")
                    cmds, sender = set(), None
                    for h in p.all_functions():
                        for m in walk_own(h.node):
                            if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and \
                                    m.args and isinstance(m.args[0], ast.Constant) and isinstance(m.args[0].value, str) and \
                                    m.args[0].value in c.methods and h.cls is not None and h.cls.find_method(m.func.attr) is not None:
                                cmds.add(m.args[0].value)
                                sender = (h.cls, h.cls.find_method(m.func.attr))
                    if not cmds:
                        raise AnalysisBroken("no command sent to the workers is found")
                    return c, g, lock, cmds, sender
    raise AnalysisBroken("the worker's command thread is not found")


class Lock(Monitor):
    """mon = (depth of the lock, thread known not to run, lock held across the last hand-out)"""

    def __init__(self, lock, own=SELF, guarded=frozenset(), streams=frozenset(), thread=frozenset()):
        self.lock, self.own = lock, own
        self.guarded, self.streams, self.thread = guarded, streams, thread
        self.bad = {}
        self.yields = self.fetches = self.changes = self.calls = self.starts = 0

    def init(self):
        return (0, False)

    def note(self, what, ev):
        self.bad.setdefault(what, ev)

    def is_lock(self, t):
        return t[0] == "attr" and t[1] == self.own and t[2] in self.lock

    def stream(self, v):
        return any(y[0] == "attr" and y[1] == SELF and y[2] in self.streams for t in v or () for y in subterms(t))

    def event(self, ev, st, ip):
        d, off = st.mon
        k = ev.kind
        if k in ("with_enter", "with_exit") and any(self.is_lock(x) for t in ev.value or () for x in subterms(t)):
            if k == "with_enter":
                return (min(d + 1, 3), off)
            if not d:
                self.note("is released although it is not held", ev)
            return (max(d - 1, 0), off)
        if k == "call" and ev.recv is not None and self.is_lock(ev.recv):
            if ev.name == "acquire":
                return (min(d + 1, 3), off)
            if ev.name == "release":
                if not d:
                    self.note("is released although it is not held", ev)
                return (max(d - 1, 0), off)
        if k == "branch":
            for t in ev.cond:
                if t[0] == "cmp" and t[1] in ("Is", "IsNot") and NONE in t[2:4]:
                    x = t[2] if t[3] == NONE else t[3]
                    if x[0] == "attr" and x[1] == SELF and x[2] in self.thread:
                        return (d, (t[1] == "Is") == bool(ev.taken))
            return NotImplemented
        if k == "store_attr" and SELF in ev.base and ev.attr in self.lock and ev.value != frozenset({NONE}) and not off:
            self.note("is replaced although the command thread may use it", ev)
        if k == "call" and ev.name == "start" and ev.recv is not None and ev.recv[0] == "attr" and ev.recv[2] in self.thread:
            self.starts += 1
            if not d:
                self.note("is not held when the command thread starts", ev)
        if k in ("yield", "yield_from") and self.streams:
            self.yields += 1
            if d:
                self.note("is held while a sample is handed out: commands wait for the next one", ev)
        if k == "next" and self.stream(ev.value) or k == "call" and ev.func == ("ext", "next") and self.stream(ev.args[0]):
            self.fetches += 1
            if not d:
                self.note("is not held while a sample is produced", ev)
        w = self.change(ev)
        if w:
            self.changes += 1
            if not d:
                self.note(f"is not held when {w} changes", ev)
        return NotImplemented

    def change(self, ev):
        if ev.kind == "store_attr" and SELF in ev.base and ev.attr in self.guarded:
            return ev.attr
        if ev.kind in ("store_sub", "del_sub"):
            for b in ev.base:
                if b[0] == "attr" and b[1] == SELF and b[2] in self.guarded:
                    return b[2]
        if ev.kind == "call" and ev.name in MUTATORS and ev.recv is not None and ev.recv[0] == "attr" and \
                ev.recv[1] == SELF and ev.recv[2] in self.guarded:
            return ev.recv[2]
        return None

    def raises(self, ev, st, ip):
        if ev.kind in ("yield", "yield_from"):
            return ("GeneratorExit",)
        if ev.kind == "next":
            return (FAIL,)
        if ev.kind == "call" and ev.tag != "inlined" and ev.name in ("save_state", "worker_activate", "start", "restore_state"):
            return (FAIL,)
        return ()


class Reads(Monitor):
    """Attributes read, and those whose content the worker changes"""

    def __init__(self):
        self.read = set()
        self.written = set()

    def event(self, ev, st, ip):
        if ev.kind == "load_attr" and SELF in ev.base:
            self.read.add(ev.attr)
        for v in [ev.value, ev.cond, ev.base] + list(ev.args or ()) + [frozenset({ev.recv}) if ev.recv else None]:
            if isinstance(v, frozenset):
                self.read |= {x[2] for t in v for x in subterms(t) if x[0] == "attr" and x[1] == SELF}
        if ev.kind == "store_attr" and SELF in ev.base:
            if not any(t[0] == "call" and t[1][0] in ("bm", "attr") and
                       (ip.func_of(t[1]).name if t[1][0] == "bm" else t[1][2]) == "rank_worker_id" for t in ev.value):
                self.written.add(ev.attr)
        if ev.kind in ("store_sub", "del_sub"):
            self.written |= {b[2] for b in ev.base if b[0] == "attr" and b[1] == SELF}
        if ev.kind == "call" and ev.name in MUTATORS and ev.recv is not None and ev.recv[0] == "attr" and ev.recv[1] == SELF:
            self.written.add(ev.recv[2])
        return NotImplemented


def check_lock(p, cx):
    cx.rule("C18.produce", "the command lock is held whenever the inner dataset produces a sample")
    cx.rule("C18.pause", "it is free while a sample is handed out, taken again on every way back, and free when iteration ends")
    cx.rule("C18.state", "whatever commands read and iteration writes changes only under the lock")
    cx.rule("C18.thread", "the command thread starts under the lock, keeps using the same lock, and executes commands only while "
            "holding it")
    c, thread, lock, cmds, sender = facts(p)
    f = c.find_method("__iter__")
    attrs = set()
    for n in sorted(cmds):
        r = Reads()
        Interp(p, r).run(c.find_method(n), c)
        cx.fn(c.find_method(n))
        attrs |= r.read
    w = Reads()
    Interp(p, w).run(f, c)
    guarded = (attrs & w.written) - set(lock)
    if not guarded:
        raise AnalysisBroken("nothing is shared between commands and iteration")
    from .keys import dataset_attrs
    streams = frozenset(dataset_attrs(p, c)) or frozenset({"dataset"})
    threads = {t.attr for g in c.methods.values() for a in walk_own(g.node) if isinstance(a, ast.Assign) and
               isinstance(a.value, ast.Call) and ast.unparse(a.value.func).endswith("Thread") for t in a.targets
               if isinstance(t, ast.Attribute)}
    m = Lock(lock, SELF, guarded, streams, threads)
    o = Interp(p, m).run(f, c)
    cx.fn(f)
    if not m.yields or not m.fetches or not m.changes:
        raise AnalysisBroken("production and hand-out of samples are not found")
    groups = {"C18.produce": ["is not held while a sample is produced"],
              "C18.pause": ["is held while a sample is handed out: commands wait for the next one",
                            "is released although it is not held"],
              "C18.thread": ["is replaced although the command thread may use it", "is not held when the command thread starts"]}
    for rule, texts in groups.items():
        for t in texts:
            ev = m.bad.get(t)
            cx.check(ev is None, rule, f"{c.name}.__iter__:{t.split(':')[0]}", ev.where() if ev else f.loc(), f"the command lock {t}")
    for a in sorted(guarded):
        t = f"is not held when {a} changes"
        ev = m.bad.get(t)
        cx.check(ev is None, "C18.state", f"{c.name}.{a}", ev.where() if ev else f.loc(), f"the command lock {t}")
    ends = [s for s, _, _ in o.ret] + list(o.normal or ()) + [e[0] for e in o.exc]
    held = [s for s in ends if s.mon[0]]
    cx.check(not held, "C18.pause", f"{c.name}.__iter__:end", f.loc(), "the command lock is still held when iteration ends")
    if threads and not m.starts:
        raise AnalysisBroken("the start of the command thread is not found")
    # the thread
    own = ("param", thread.all_params()[0].arg) if thread.is_static or thread.cls is None else SELF
    e = Exec(lock, own)
    Interp(p, e).run(thread, None if own != SELF else c)
    cx.fn(thread)
    if not e.calls:
        raise AnalysisBroken("the execution of commands is not found")
    bad = next((ev for ev, d in e.calls if not d), None)
    cx.check(bad is None, "C18.thread", f"{thread.qualname}", bad.where() if bad else thread.loc(),
             "a command is executed without holding the command lock")


class Exec(Lock):
    """The command thread: mon = (depth, thread off, command at hand, answers, failed, good)"""

    def __init__(self, lock, own):
        super().__init__(lock, own)
        self.calls = []
        self.wrong = {}
        self.gets = 0

    def init(self):
        return (0, False, None, 0, False)

    def event(self, ev, st, ip):
        d, off, cmd, n, failed = st.mon
        r = super().event(ev, State2(st, (d, off)), ip)
        if r is not NotImplemented:
            d, off = r
        k = ev.kind
        if k == "branch":
            for t in ev.cond:
                if t[0] == "cmp" and t[1] in ("Is", "IsNot") and NONE in t[2:4]:
                    x = t[2] if t[3] == NONE else t[3]
                    if ("tok", "cmd") in set(subterms(x)) and (t[1] == "Is") == bool(ev.taken):
                        cmd = "end"
            return (d, off, cmd, n, failed)
        if k == "call" and ev.tag != "inlined":
            if ev.name in ("get", "get_nowait") and ev.recv is not None and self.queue(ev.recv):
                self.gets += 1
                self.finish(st.mon, ev)
                return (d, off, "got", 0, False)
            if self.is_command(ev):
                self.calls.append((ev, d))
                return (d, off, cmd, n, failed)
            if ev.name in ("put", "put_nowait") and ev.recv is not None and self.queue(ev.recv):
                self.answer(ev, st, failed)
                return (d, off, cmd, min(n + 1, 2), failed)
        if k == "catch" and ev.tag == FAIL:
            return (d, off, cmd, n, True)
        if k == "catch" and cmd == "got" and "queue.Empty" in str(ev.tag) or k == "catch" and ev.tag == "Empty":
            return (d, off, None, 0, False)
        return (d, off, cmd, n, failed)

    def queue(self, t):
        """the attribute of a queue picked by the worker's own number"""
        if t[0] == "sub" and t[1][0] == "attr" and t[1][1] == self.own:
            return t[1][2]
        return None

    def is_command(self, ev):
        f = ev.func
        return f is not None and (f == ("tok", "fn") or f[0] == "call" and f[1] == ("ext", "getattr"))

    @staticmethod
    def key(k):
        if isinstance(k, tuple) and k:
            return k[1] if k[0] == "k" else k
        return ("const", k)

    def finish(self, mon, ev):
        d, off, cmd, n, failed = mon
        if cmd == "got" and n != 1:
            self.wrong.setdefault("a command gets no answer" if n == 0 else "a command gets more than one answer", ev)

    def answer(self, ev, st, failed):
        v = ev.args[0] if ev.args else frozenset()
        for t in v:
            items = None
            if t[0] == "obj" and t in st.heap:
                items = [(k, x) for k, x in st.heap[t][1]]
            elif t[0] == "dict":
                items = list(t[1])
            if items is None:
                continue
            sub = self.queue(ev.recv)
            key = {x for k, _ in items for x in (k if isinstance(k, frozenset) else [self.key(k)])}
            if ev.recv[0] == "sub" and key and not any(x == ev.recv[2] for x in key):
                self.wrong.setdefault("an answer carries another number than that of the worker", ev)
            vals = {y for _, x in items for t2 in (x if isinstance(x, frozenset) else [x]) for y in subterms(t2)}
            if failed and not any(y[0] == "exc" for y in vals):
                self.wrong.setdefault("a failed command is not answered with its error", ev)
            if not failed and ("tok", "answer") not in vals:
                self.wrong.setdefault("a command is not answered with its result", ev)

    def result(self, ev, st, ip):
        if ev.kind != "call":
            return None
        if ev.func == ("ext", "getattr"):
            return ("tok", "fn")
        if ev.name in ("get", "get_nowait") and ev.recv is not None and self.queue(ev.recv):
            return ("tok", "cmd")
        if self.is_command(ev):
            return ("tok", "answer")
        return None

    def raises(self, ev, st, ip):
        if ev.kind == "call" and self.is_command(ev):
            return (FAIL,)
        if ev.kind == "call" and ev.func == ("ext", "getattr"):
            return (FAIL,)
        if ev.kind == "call" and ev.name in ("get", "get_nowait") and ev.recv is not None and self.queue(ev.recv):
            return ("queue.Empty", )
        return ()


class State2:
    """A state with part of the rule's value"""

    def __init__(self, st, mon):
        self.st, self.mon = st, mon

    def __getattr__(self, n):
        return getattr(self.st, n)


def sliced(t):
    return any(x[0] == "slice" or x[0] == "call" and x[1][0] == "ext" and x[1][1] in ("slice", "itertools.islice") for x in subterms(t))


class Send(Monitor):
    """The loader's side: mon = (puts since the last queue, gets since the last queue, all sent, all collected, all checked,
    error at hand)"""

    def __init__(self):
        self.bad = {}
        self.puts = self.gets = self.raised = 0
        self.cq, self.rq = set(), set()
        self.shuffled = False

    def init(self):
        return (None, None, False, False, False, False)

    def note(self, what, ev):
        self.bad.setdefault(what, ev)

    def result(self, ev, st, ip):
        if ev.kind == "call" and ev.name in ("get", "get_nowait"):
            return ("tok", "result")
        return None

    def of(self, v):
        """attribute of queues iterated over"""
        for t in v or ():
            for x in subterms(t):
                if x[0] == "attr" and x[1] == SELF and "queue" in x[2]:
                    return x[2]
        return None

    def event(self, ev, st, ip):
        pu, ge, sent, got, checked, err = st.mon
        k = ev.kind
        if k == "next":
            a = self.of(ev.value)
            self.turn(st.mon, ev)
            if a and any(x[0] == "call" and x[1] in (("ext", n) for n in ("reversed", "sorted", "set", "frozenset"))
                         for t in ev.value for x in subterms(t)):
                self.shuffled = True
            if a:
                return (0, 0, sent, got, checked, err)
            return (None if pu is None else pu, ge, sent, got, checked, err)
        if k == "exhausted":
            a = self.of(ev.value)
            if a:
                self.turn(st.mon, ev)
            if a and a in self.cq:
                return (None, None, True, got, checked, err)
            if a and a in self.rq:
                return (None, None, sent, True, checked, err)
            return NotImplemented
        if k == "call" and ev.tag != "inlined" and ev.recv is not None:
            if ev.name in ("put", "put_nowait"):
                self.puts += 1
                a = self.of([ev.recv])
                if a:
                    self.cq.add(a)
                if ev.recv[0] not in ("elem", "sub") or ev.recv[0] == "sub" and ev.recv[2][0] == "const" or sliced(ev.recv):
                    self.note("a command is not sent to each worker's queue in turn", ev)
                return (min((pu or 0) + 1, 2), ge, sent, got, checked, err)
            if ev.name in ("get", "get_nowait"):
                self.gets += 1
                a = self.of([ev.recv])
                if ev.recv[0] == "sub" and ev.recv[2][0] == "const" or sliced(ev.recv):
                    self.note("the answer is not taken from each worker's queue in turn", ev)
                if a:
                    self.rq.add(a)
                return (pu, min((ge or 0) + 1, 2), sent, got, checked, err)
        if k == "branch":
            for t in ev.cond:
                pol = bool(ev.taken)
                while t[0] in ("not", "unop") and isinstance(t[-1], tuple):
                    t, pol = t[-1], not pol
                if t[0] == "call" and t[1] == ("ext", "isinstance") and len(t[2]) == 2 and \
                        t[2][1] in (("ext", "Exception"), ("ext", "BaseException")):
                    if not got:
                        self.note("an error is raised before all answers were collected", ev)
                    return (pu, ge, sent, got, True, pol)
        if k == "raise" and err:
            self.raised += 1
        return NotImplemented

    def turn(self, mon, ev):
        if mon[0] is not None and mon[0] > 1 or mon[1] is not None and mon[1] > 1:
            self.note("a worker gets more than one command or answers more than once", ev)


def check_answers(p, cx):
    cx.rule("C19.once", "for every command taken from its queue the worker puts exactly one answer on its own result queue")
    cx.rule("C19.tagged", "the answer carries the worker's own number, with the result, or with the error if the command failed")
    cx.rule("C19.queues", "loader and workers use one command queue and one result queue per worker, each for its own purpose")
    cx.rule("C19.collect", "the loader sends the command to every worker, collects an answer from each, orders them by number, and "
            "raises an error only after all are collected")
    c, thread, lock, cmds, (lc, sender) = facts(p)
    own = ("param", thread.all_params()[0].arg) if thread.is_static or thread.cls is None else SELF
    e = Exec(lock, own)
    o = Interp(p, e).run(thread, None if own != SELF else c)
    cx.fn(thread)
    if not e.gets or not e.calls:
        raise AnalysisBroken("the command thread is not understood")
    ends = [s for s, _, _ in o.ret] + list(o.normal or ()) + [x[0] for x in o.exc]
    for s in ends:
        d, off, cmd, n, failed = s.mon
        if cmd == "got" and n != 1:
            e.wrong.setdefault("a command gets no answer" if n == 0 else "a command gets more than one answer", None)
    escaped = [x for x in o.exc if x[1] == FAIL]
    if escaped:
        e.wrong.setdefault("the error of a command ends the command thread", None)
    for rule, texts in (("C19.once", ["a command gets no answer", "a command gets more than one answer",
                                      "the error of a command ends the command thread"]),
                        ("C19.tagged", ["an answer carries another number than that of the worker",
                                        "a failed command is not answered with its error", "a command is not answered with its result"])):
        for t in texts:
            bad = t in e.wrong
            ev = e.wrong.get(t)
            cx.check(not bad, rule, f"{thread.qualname}:{t}", ev.where() if ev else thread.loc(), t)
    # the queues
    tq = {"get": set(), "put": set()}
    idx = {}
    for n in ast.walk(thread.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Subscript) and \
                isinstance(n.func.value.value, ast.Attribute):
            k = {"get": "get", "get_nowait": "get", "put": "put", "put_nowait": "put"}.get(n.func.attr)
            if k:
                tq[k].add(n.func.value.value.attr)
    q = Queues(c)
    for f in (c.find_method("__init__"),):
        Interp(p, q).run(f, c)
    params = {a: t for a, t in q.stored.items()}
    m = Send()
    o = Interp(p, m).run(sender, lc)
    cx.fn(sender)
    if not m.puts or not m.gets:
        raise AnalysisBroken("the sending of commands is not found")
    mk = Made(c.name)
    Interp(p, mk).run(lc.find_method("__init__"), lc)
    cx.fn(lc.find_method("__init__"))
    if tq["get"] and tq["put"] and mk.passed:
        for kind, attrs, lattrs in (("command", tq["get"], m.cq), ("result", tq["put"], m.rq)):
            pn = {params.get(a) for a in attrs}
            got = {mk.passed.get(x) for x in pn}
            cx.check(len(attrs) == 1 and got == set(lattrs) and None not in got, "C19.queues", kind, sender.loc(),
                     f"the {kind} queues of loader and workers are not the same ({sorted(map(str, got))} and {sorted(lattrs)})")
    if not (tq["get"] and tq["put"]):
        cx.notes.append("queues of the thread are not addressed by attribute")
    for a in sorted(m.cq | m.rq):
        cx.check(mk.sized.get(a) is not False, "C19.queues", f"{lc.name}.{a}", sender.loc(), f"there is not one queue per worker in {a}")
    for t in ("a command is not sent to each worker's queue in turn", "the answer is not taken from each worker's queue in turn", "a worker gets more than one command or answers more than once",
              "an error is raised before all answers were collected"):
        ev = m.bad.get(t)
        cx.check(ev is None, "C19.collect", t, ev.where() if ev else sender.loc(), t)
    rets = [s.mon for s, _, _ in o.ret] + [s.mon for s in (o.normal or ())]
    cx.check(all(x[2] and x[3] for x in rets) and rets, "C19.collect", "all", sender.loc(),
             "a result is returned although not every worker was asked or answered")
    cx.check(m.raised and not any(x[5] for x in rets), "C19.collect", "error", sender.loc(),
             "an error a worker answered is not raised")
    cx.check(not m.shuffled or ordered(o), "C19.collect", "order", sender.loc(),
             "the answers are returned neither in the order of the queues nor by worker number")


class Queues(Monitor):
    def __init__(self, c):
        self.stored = {}

    def event(self, ev, st, ip):
        if ev.kind == "store_attr" and SELF in ev.base:
            for t in ev.value:
                if t[0] == "param":
                    self.stored[ev.attr] = t[1]
        return NotImplemented


class Made(Monitor):
    """How the loader makes the queues and gives them to the workers"""

    def __init__(self, name):
        self.name = name
        self.passed = {}
        self.sized = {}

    def event(self, ev, st, ip):
        if ev.kind == "call" and ev.func and ev.func[0] == "cls" and ev.func[1].split(".")[-1] == self.name:
            for k, v in ev.kwargs.items():
                for t in v:
                    if t[0] == "attr" and t[1] == SELF:
                        self.passed[k] = t[2]
        if ev.kind == "store_attr" and SELF in ev.base:
            from .slots import size_of
            for t in ev.value:
                n = size_of(t, st) if t[0] == "obj" else None
                if n is not None:
                    self.sized[ev.attr] = n[0] == "attr" and n[2] == "num_workers"
        return NotImplemented


def ordered(o):
    """Are the returned answers picked by ascending number?"""
    ok = False
    for st, v, _ in o.ret:
        for t in v or ():
            if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("list", "sorted", "tuple"):
                if t[1][1] == "sorted":
                    ok = True
                    continue
                t = t[2][0]
            flat = set(subterms(t))
            for x in list(flat):
                if x[0] == "obj" and x in st.heap:
                    sh, items = st.heap[x]
                    if isinstance(sh, tuple):
                        flat |= {z for y in sh[1:] if isinstance(y, tuple) for z in subterms(y)}
                    for _, y in items:
                        for w in y:
                            flat |= set(subterms(w))
            if any(x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("values", "items") for x in flat) and \
                    not any(x[0] == "call" and x[1] == ("ext", "sorted") for x in flat):
                return False
            if any(x[0] == "call" and x[1][0] == "ext" and x[1][1] in ("range", "sorted") for x in flat):
                ok = True
    return ok
