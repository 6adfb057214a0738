"""Abstract interpreter over syntax trees (dataflow analysis with inlining).

Values are finite sets of *terms* (provenance: where does this value come from),
states are joined at control-flow merges whenever the rule's automaton state
(`mon`) agrees, loops are iterated to a fixpoint.  Helpers of the same class,
nested functions, module functions, generators consumed in place and
``@contextmanager`` functions are inlined, so a rule sees the order of effects
and not how the code is split into functions.  Nothing is executed and no path
is handed to a solver.
"""
import ast
from .model import (AnalysisBroken, BUILTIN_EXC, ClassInfo, Ext, FuncInfo, Global, Module,
                    walk_own)

TOP = ("top",)
NONE = ("const", None)
LIMIT = 10
DEPTH = 24

MUTATORS = {"append", "extend", "insert", "pop", "clear", "remove", "update", "setdefault",
            "popitem", "add", "discard", "sort", "reverse", "appendleft", "popleft"}


def V(*terms):
    return frozenset(terms)


VTOP = V(TOP)
VNONE = V(NONE)


def const(v):
    return V(("const", v))


def depth(t, lim=DEPTH + 2):
    if not isinstance(t, tuple) or lim <= 0:
        return 0
    m = 0
    for x in t:
        if isinstance(x, tuple):
            d = depth(x, lim - 1)
            if d > m:
                m = d
    return m + 1


def mk(*t):
    if depth(t) > DEPTH:
        return TOP
    return t


def bounds(sl, vals):
    """Lower bound, upper bound and step of a slice, from the values of those which are given"""
    it = iter(vals)
    return tuple(V(("const", None)) if x is None else next(it) for x in (sl.lower, sl.upper, sl.step))


def join_v(a, b):
    if a == b:
        return a
    r = a | b
    if len(r) > LIMIT:
        return VTOP
    return r


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def is_attr(t, base=None, name=None):
    return (isinstance(t, tuple) and len(t) == 3 and t[0] == "attr"
            and (base is None or t[1] == base) and (name is None or t[2] == name))


class State:
    __slots__ = ("env", "heap", "facts", "mon", "pend")

    def __init__(self, env=None, heap=None, facts=frozenset(), mon=None, pend=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts
        self.mon = mon
        self.pend = pend

    def copy(self, **kw):
        s = State(self.env, self.heap, self.facts, self.mon, self.pend)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def set(self, key, v):
        if self.env.get(key) == v:
            return self
        e = dict(self.env)
        e[key] = v
        return self.copy(env=e)

    def hset(self, site, val):
        if self.heap.get(site) == val:
            return self
        h = dict(self.heap)
        h[site] = val
        return self.copy(heap=h)

    def same(self, o):
        return (self.mon == o.mon and self.pend == o.pend and self.facts == o.facts
                and self.env == o.env and self.heap == o.heap)


def join_states(a, b):
    env = dict(a.env)
    for k, v in b.env.items():
        env[k] = join_v(env[k], v) if k in env else v
    heap = dict(a.heap)
    for k, v in b.heap.items():
        if k in heap and heap[k] != v:
            heap[k] = join_heap(heap[k], v)
        else:
            heap[k] = v
    return State(env, heap, a.facts & b.facts, a.mon, a.pend)


def join_heap(a, b):
    shape = a[0] if a[0] == b[0] else "any"
    d = dict(a[1])
    for k, v in b[1]:
        d[k] = join_v(d[k], v) if k in d else v
    return (shape, frozenset(d.items()))


def merge(states):
    groups = {}
    for s in states:
        k = (s.mon, s.pend)
        if k in groups:
            if groups[k] is not s:
                groups[k] = join_states(groups[k], s)
        else:
            groups[k] = s
    return list(groups.values())


class Out:
    __slots__ = ("normal", "ret", "exc", "brk", "cont")

    def __init__(self, normal=()):
        self.normal = list(normal)
        self.ret = []
        self.exc = []      # (state, tag, origin)
        self.brk = []
        self.cont = []

    def absorb(self, o, normal=False):
        if normal:
            self.normal += o.normal
        self.ret += o.ret
        self.exc += o.exc
        self.brk += o.brk
        self.cont += o.cont


class Event:
    __slots__ = ("kind", "node", "fn", "stack", "func", "args", "kwargs", "result", "callee",
                 "base", "attr", "value", "index", "op", "cond", "taken", "tag", "frame", "argsplat")

    def __init__(self, kind, node, fn, stack, **kw):
        self.kind, self.node, self.fn, self.stack = kind, node, fn, stack
        for k in ("func", "args", "kwargs", "result", "callee", "base", "attr", "value", "index",
                  "op", "cond", "taken", "tag", "frame", "argsplat"):
            setattr(self, k, kw.get(k))

    @property
    def name(self):
        """Name of the called attribute / function."""
        f = self.func
        if self.callee is not None:
            return self.callee.name
        if f is None:
            return None
        if f[0] == "attr":
            return f[2]
        if f[0] == "ext":
            return f[1].split(".")[-1]
        if f[0] == "cls":
            return f[1].split(".")[-1]
        return None

    @property
    def recv(self):
        """Receiver term of a method call."""
        f = self.func
        if f is None:
            return None
        if f[0] == "attr":
            return f[1]
        if f[0] == "bm":
            return f[1]
        return None

    def loc(self):
        return f"{self.fn.module.relpath}:{getattr(self.node, 'lineno', '?')}"

    def where(self):
        chain = " < ".join(q for q in reversed(self.stack))
        return f"{self.loc()} in {chain}"

    def arg(self, i, name=None):
        if name is not None and name in (self.kwargs or {}):
            return self.kwargs[name]
        if self.args is not None and i is not None and i < len(self.args):
            return self.args[i]
        return None


class Monitor:
    """Base class of rules driven by the interpreter."""

    def init(self):
        return None

    def event(self, ev, st, ip):
        """Return the new mon value, or a list of them (nondeterminism), or
        NotImplemented to leave it unchanged."""
        return NotImplemented

    def raises(self, ev, st, ip):
        """Exception tags the (not inlined) call may raise."""
        return ()

    def dead(self, ev, st, ip):
        """Does the call (which has raised what raises() says) not return in this state?"""
        return False

    def result(self, ev, st, ip):
        """A term to stand for the result of a call that is not inlined (None: the call term itself)."""
        return None

    #: ask raises() about subscripts, too
    sub_raises = False

    #: report assignments to local names as "store_name" events
    names = False

    #: set to a method (term, state, interp) -> term to rewrite loaded values
    loaded = None

    def inline(self, fi, recv, ip, stack):
        return NotImplemented


class Frame:
    __slots__ = ("fi", "parent", "nonlocals", "globals", "self_term", "cls", "locals", "fid")


def counted_names(n):
    """Names a for loop increases by one at the top level of its body, with no way around it and no other assignment."""
    stores = {}
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            stores[x.id] = stores.get(x.id, 0) + 1
        elif isinstance(x, (ast.Nonlocal, ast.Global)):
            for y in x.names:
                stores[y] = 99

    def continues(x):
        if isinstance(x, ast.Continue):
            return True
        if isinstance(x, (ast.For, ast.AsyncFor, ast.While)):
            return any(continues(y) for y in x.orelse)
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return False
        return any(continues(y) for y in ast.iter_child_nodes(x))

    for s in n.body:
        name = None
        one = lambda x: isinstance(x, ast.Constant) and x.value == 1 and not isinstance(x.value, bool)
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and one(s.value):
            name = s.target.id
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) \
                and isinstance(s.value.op, ast.Add):
            a, b = s.value.left, s.value.right
            same = lambda x: isinstance(x, ast.Name) and x.id == s.targets[0].id
            if same(a) and one(b) or one(a) and same(b):
                name = s.targets[0].id
        if name is not None and stores.get(name) == 1:
            yield name
        if continues(s):
            return


class Interp:
    MAXDEPTH = 14
    MAXSTEPS = 250000

    def __init__(self, project, monitor=None, inline_classes=(), no_inline=()):
        self.p = project
        self.mon = monitor or Monitor()
        self.inline_classes = set(inline_classes)
        self.no_inline = set(no_inline)
        self.frames = []
        self._intern = {}
        self.funcs = []
        self.terms_type = {}
        self.steps = 0
        self.handlers = []       # yield handlers
        self.curexc = []
        self.stop_caught = 0      # enclosing handlers of StopIteration
        self.known_true = {}
        self.param_nonnull = set()
        self.visited = set()
        self.events = 0
        self.folds = False        # compute with constants and with literal dicts
        self.comp_twice = False   # run the body of comprehensions a second time
        self.bool_branches = False   # branch events for operands of and/or used as values
        self.isinst = None        # optional hook(term, ClassInfo|name) -> bool|None

    # -- interning -------------------------------------------------------
    def intern(self, key):
        i = self._intern.get(key)
        if i is None:
            i = len(self._intern)
            self._intern[key] = i
        return i

    def func_term(self, fi, closure=None, bound=None):
        k = ("fn", id(fi.node), closure, bound)
        i = self._intern.get(k)
        if i is None:
            i = len(self.funcs)
            self.funcs.append((fi, closure, bound))
            self._intern[k] = i
        return ("func", i)

    def func_of(self, t):
        """FuncInfo of a func/bm term."""
        if t[0] == "func":
            return self.funcs[t[1]][0]
        if t[0] == "bm":
            return self.funcs[t[2]][0]
        return None

    # -- entry -----------------------------------------------------------
    def run(self, fi, self_cls=None, bind=None, closure_bind=None, mon=None, self_term=None, heap=None):
        """Interpret function `fi` with symbolic parameters. Returns Out."""
        st = State(mon=self.mon.init() if mon is None else mon)
        self_term_v = self_term
        if fi.cls is not None and not fi.is_static:
            cls = self_cls or fi.cls
            if self_term_v is None:
                self_term_v = ("self",)
            self.terms_type[self_term_v] = ("cls", cls)
        frame, st = self.new_frame(fi, None, self_term_v, self_cls or fi.cls, ("entry", fi.key), st)
        params, kwonly = fi.params()
        names = list(params)
        if fi.cls is not None and not fi.is_static and names:
            first = names.pop(0)
            st = st.set((frame, first), V(self_term_v if not fi.is_classmethod
                                          else ("cls", (self_cls or fi.cls).qualname)))
        for a in fi.all_params():
            if a.arg in names or a.arg in kwonly:
                t = ("param", a.arg)
                if a.annotation is not None:
                    ty = self.p.type_of_annotation(a.annotation, fi.module)
                    if ty:
                        self.terms_type.setdefault(t, ty)
                st = st.set((frame, a.arg), (bind or {}).get(a.arg, V(t)))
        if fi.node.args.vararg:
            st = st.set((frame, fi.node.args.vararg.arg), V(("param", "*" + fi.node.args.vararg.arg)))
        if fi.node.args.kwarg:
            st = st.set((frame, fi.node.args.kwarg.arg), (bind or {}).get(
                "**" + fi.node.args.kwarg.arg, V(("param", "**" + fi.node.args.kwarg.arg))))
        for t, h in (heap or {}).items():
            st = st.hset(t, h)
        for k, v in (closure_bind or {}).items():
            st = st.set((frame, k), v)
        self.stack = [fi.qualname]
        self.fnstack = [fi]
        self.framestack = [frame]
        self.entry_frame = frame
        out = self.exec_body(fi.node.body if isinstance(fi.node.body, list)
                             else [ast.Return(fi.node.body)], [st])
        for s in out.normal:
            out.ret.append((s, VNONE, None))
        out.normal = []
        return out

    def new_frame(self, fi, parent, self_term, cls, key, st):
        k = ("frame", key, id(fi.node), parent, self_term)
        fid = self._intern.get(k)
        if fid is None:
            fid = self._intern[k] = len(self._intern)
            while len(self.frames) <= fid:
                self.frames.append(None)
        f = Frame()
        f.fi, f.parent, f.self_term, f.cls, f.fid = fi, parent, self_term, cls, fid
        f.nonlocals, f.globals, f.locals = set(), set(), set()
        for n in walk_own(fi.node):
            if isinstance(n, ast.Nonlocal):
                f.nonlocals |= set(n.names)
            elif isinstance(n, ast.Global):
                f.globals |= set(n.names)
        while len(self.frames) <= fid:
            self.frames.append(None)
        self.frames[fid] = f
        return fid, st

    @property
    def fn(self):
        return self.fnstack[-1]

    @property
    def frame(self):
        return self.framestack[-1]

    def step(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise AnalysisBroken(f"analysis budget exceeded in {'<'.join(self.stack[:1])}")

    # -- events ----------------------------------------------------------
    def emit(self, states, kind, node, **kw):
        """-> list of states after the monitor has seen the event."""
        ev = Event(kind, node, self.fn, tuple(self.stack), frame=self.frame, **kw)
        self.events += 1
        res = []
        for s in states:
            r = self.mon.event(ev, s, self)
            if r is NotImplemented:
                res.append(s)
            elif isinstance(r, list):
                for m in r:
                    res.append(m if isinstance(m, State) else s.copy(mon=m))
            elif isinstance(r, State):
                res.append(r)
            else:
                res.append(s if r == s.mon else s.copy(mon=r))
        return res, ev

    # -- names -----------------------------------------------------------
    def lookup(self, name, st):
        f = self.frame
        while f is not None:
            fr = self.frames[f]
            if name not in fr.globals and name not in fr.nonlocals:
                v = st.env.get((f, name))
                if v is not None:
                    return v
            f = fr.parent
        if name == "__class__":
            return VTOP
        r = self.fn.module.resolve_name(name)
        return V(self.entity_term(r, name))

    def entity_term(self, r, name="?"):
        if isinstance(r, ClassInfo):
            self._intern.setdefault(("clsobj", r.qualname), r)
            return ("cls", r.qualname)
        if isinstance(r, FuncInfo):
            return self.func_term(r)
        if isinstance(r, Module):
            return ("mod", r.name)
        if isinstance(r, Ext):
            return ("ext", r.name)
        if isinstance(r, Global):
            v = r.value
            if isinstance(v, ast.Constant):
                return ("const", v.value)
            if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
                return ("const", -v.operand.value)
            return ("global", r.module.name, r.name)
        return ("unknown", name)

    def cls_of(self, t):
        if t[0] == "cls":
            return self._intern.get(("clsobj", t[1]))
        return None

    def assign_name(self, name, v, st):
        f = self.frame
        fr = self.frames[f]
        if name in fr.nonlocals:
            g = fr.parent
            while g is not None:
                if (g, name) in st.env and name not in self.frames[g].nonlocals:
                    return st.set((g, name), v)
                g = self.frames[g].parent
            if fr.parent is not None:
                return st.set((fr.parent, name), v)
        return st.set((f, name), v)

    # -- types -----------------------------------------------------------
    def type_of(self, t):
        ty = self.terms_type.get(t)
        if ty is not None:
            return ty
        k = t[0]
        if k == "attr":
            b = self.type_of(t[1])
            if b and b[0] == "cls":
                return self.p.attr_type(b[1], t[2])
        elif k in ("sub", "elem", "val"):
            b = self.type_of(t[1])
            if b and b[0] in ("list", "dict"):
                return b[1]
            if b and b[0] == "tuple" and k == "sub" and t[2][0] == "const" and isinstance(t[2][1], int):
                if t[2][1] < len(b[1]):
                    return b[1][t[2][1]]
        elif k == "slice":
            return self.type_of(t[1])
        elif k == "obj":
            if t[1] == "rec":
                return self.terms_type.get(t)
            if t[1] in ("list",):
                return ("list", None)
        elif k == "call":
            f = t[1]
            if f[0] == "cls":
                c = self.cls_of(f)
                return ("cls", c) if c else None
            if f[0] == "attr" and f[2] == "get":
                b = self.type_of(f[1])
                if b and b[0] == "dict":
                    return b[1]
            if f[0] == "ext" and f[1] in ("iter", "list", "sorted", "reversed"):
                return self.type_of(t[2][0]) if t[2] else None
            if f[0] == "ext" and f[1] == "next" and t[2]:
                b = self.type_of(t[2][0])
                return b[1] if b and b[0] in ("list",) else None
            fi = self.func_of(f)
            if fi is not None and getattr(fi.node, "returns", None) is not None:
                return self.p.type_of_annotation(fi.node.returns, fi.module)
        elif k == "enter":
            return self.type_of(t[1])
        return None

    # -- expressions -----------------------------------------------------
    def ev_list(self, exprs, st):
        """Evaluate expressions in order: -> list of (state, [V...])."""
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def ev(self, e, st):
        self.step()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, VTOP)]
        return m(e, st)

    def site(self, node, tag=""):
        return self.intern(("site", self.frame, id(node), tag))

    def e_Constant(self, e, st):
        return [(st, const(e.value) if not isinstance(e.value, (bytes, complex)) else V(("const", repr(e.value))))]

    def e_Name(self, e, st):
        return [(st, self.lookup(e.id, st))]

    def e_Starred(self, e, st):
        return [(s, V(*[mk("star", t) for t in v])) for s, v in self.ev(e.value, st)]

    def e_JoinedStr(self, e, st):
        subs = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        out = []
        for s, vs in self.ev_list(subs, st):
            parts = tuple(mk("fmt", self.pick(v)) if isinstance(x, ast.FormattedValue) and (x.conversion != -1 or x.format_spec)
                          else self.pick(v) for x, v in zip(e.values, vs))
            out.append((s, V(mk("fstr", parts))))
        return out

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_Tuple(self, e, st):
        out = []
        for s, vs in self.ev_list(e.elts, st):
            out.append((s, V(mk("tuple", tuple(self.pick(v) for v in vs)))))
        return out

    def pick(self, v):
        """One term standing for a value set."""
        if len(v) == 1:
            return next(iter(v))
        return mk("any", tuple(sorted(v, key=repr)))

    def new_obj(self, kind, node, st, items, shape="lit", tag=""):
        t = ("obj", kind, self.site(node, tag))
        return st.hset(t, (shape, frozenset(items))), t

    def e_List(self, e, st):
        out = []
        for s, vs in self.ev_list(e.elts, st):
            s2, t = self.new_obj("list", e, s, [(i, v) for i, v in enumerate(vs)])
            s2, _ = self.emit1(s2, "newobj", e, result=t)
            out.append((s2, V(t)))
        return out

    def emit1(self, st, kind, node, **kw):
        ss, ev = self.emit([st], kind, node, **kw)
        return (ss[0] if ss else st), ev

    def e_Set(self, e, st):
        out = []
        for s, vs in self.ev_list(e.elts, st):
            s2, t = self.new_obj("set", e, s, [("*", v) for v in vs])
            s2, _ = self.emit1(s2, "newobj", e, result=t)
            out.append((s2, V(t)))
        return out

    def e_Dict(self, e, st):
        exprs = []
        for k, v in zip(e.keys, e.values):
            exprs.append(k if k is not None else ast.Constant(None))
            exprs.append(v)
        out = []
        for s, vs in self.ev_list(exprs, st):
            d = {}
            for i, k in enumerate(e.keys):
                kv, vv = vs[2 * i], vs[2 * i + 1]
                if k is None:
                    for t in vv:
                        h = s.heap.get(t)
                        if t[0] == "obj" and h is not None:
                            for kk, v2 in h[1]:
                                d[kk] = v2 if t[1] == "dict" and len(vv) == 1 else join_v(d.get(kk, v2), v2)
                        else:
                            d[("**", t)] = V(t)
                else:
                    kt = self.pick(kv)
                    kk = kt[1] if kt[0] == "const" else ("k", kt)
                    d[kk] = vv
            s2, t = self.new_obj("dict", e, s, d.items())
            s2, _ = self.emit1(s2, "newobj", e, result=t)
            out.append((s2, V(t)))
        return out

    def comp(self, e, st, kind, elts):
        # comprehension scope shares the frame (names may shadow; fine for analysis)
        states = [st]
        filtered = False
        iters = []
        ends = {}

        def gen(i, states):
            nonlocal filtered
            res = []
            if i == len(e.generators):
                for s in states:
                    for s2, vs in self.ev_list(elts, s):
                        res.append((s2, vs))
                return res
            g = e.generators[i]
            for s in states:
                for s2, itv in self.ev(g.iter, s):
                    iters.append(self.pick(itv))
                    ends[i] = (g, join_v(ends[i][1], itv) if i in ends else itv)
                    s2s, _ = self.emit([s2], "next", g.iter, value=itv)
                    inner = []
                    for s3 in s2s:
                        inner += self.assign(g.target, self.elem_v(itv, s3), s3, e)
                    for c in g.ifs:
                        filtered = True
                        nn = []
                        for s3 in inner:
                            t, f = self.cond(c, s3)
                            nn += t
                        inner = nn
                    res += gen(i + 1, merge(inner))
            return res

        pairs = gen(0, states)
        if self.comp_twice:
            n, f = len(iters), filtered
            pairs = pairs + gen(0, merge([s for s, _ in pairs]))
            del iters[n:]
            filtered = f
        acc = {}
        final = []
        for s, vs in pairs:
            final.append(s)
            if kind == "dict":
                kt = self.pick(vs[0])
                kk = kt[1] if kt[0] == "const" else ("k", kt)
                acc[kk] = join_v(acc.get(kk, vs[1]), vs[1])
            else:
                acc["*"] = join_v(acc.get("*", vs[0]), vs[0])
        final = merge(final) if final else [st]
        for g, itv in reversed(list(ends.values())):
            final, _ = self.emit(final, "exhausted", g.iter, value=itv)
        shape = ("filter" if filtered else "map",) + tuple(iters)
        out = []
        for s in final:
            s2, t = self.new_obj(kind, e, s, acc.items(), shape)
            s2, _ = self.emit1(s2, "newobj", e, result=t)
            out.append((s2, V(t)))
        return out

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list", [e.elt])

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set", [e.elt])

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "list", [e.elt])

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict", [e.key, e.value])

    def e_Lambda(self, e, st):
        fi = self._lam(e)
        return [(st, V(self.func_term(fi, self.frame)))]

    def _lam(self, e):
        k = ("lam", id(e))
        fi = self._intern.get(k)
        if fi is None:
            fi = FuncInfo(e, self.fn.module, None, self.fn)
            self._intern[k] = fi
        return fi

    def e_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            for s2 in self.assign(e.target, v, s, e):
                out.append((s2, v))
        return out

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_IfExp(self, e, st):
        t, f = self.cond(e.test, st)
        out = []
        for s in t:
            out += self.ev(e.body, s)
        for s in f:
            out += self.ev(e.orelse, s)
        return self.merge_pairs(out)

    def merge_pairs(self, pairs):
        groups = {}
        for s, v in pairs:
            k = (s.mon, s.pend)
            if k in groups:
                s0, v0 = groups[k]
                groups[k] = (s0 if s0 is s else join_states(s0, s), join_v(v0, v))
            else:
                groups[k] = (s, v)
        return list(groups.values())

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        out = []
        cur = [st]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                if last:
                    out += self.ev(x, s)
                else:
                    for s1, v in self.ev(x, s):
                        tr = self.truth(v, s1)
                        ts, fs = self.refine(x, v, s1)
                        if self.bool_branches:
                            ts = [] if tr is False else self.emit(ts, "branch", x, cond=v, taken=True)[0]
                            fs = [] if tr is True else self.emit(fs, "branch", x, cond=v, taken=False)[0]
                        go, stop = (ts, fs) if is_and else (fs, ts)
                        if tr is not None:
                            if tr == is_and:
                                stop = []
                            else:
                                go = []
                        nxt += go
                        for s2 in stop:
                            vv = frozenset(t for t in v if self.truth1(t, s2) in (None, not is_and))
                            if is_and and not any(t[0] == "const" for t in v):
                                vv = v | V(("const", False)) if len(v) < LIMIT else v
                            out.append((s2, vv or v))
            cur = merge(nxt)
        return self.merge_pairs(out)

    def e_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                tr = self.truth(v, s)
                out.append((s, const(not tr) if tr is not None else V(mk("not", self.pick(v)))))
            elif isinstance(e.op, ast.USub) and len(v) == 1 and self.pick(v)[0] == "const" \
                    and isinstance(self.pick(v)[1], (int, float)):
                out.append((s, const(-self.pick(v)[1])))
            else:
                out.append((s, V(mk("unop", type(e.op).__name__, self.pick(v)))))
        return out

    def e_BinOp(self, e, st):
        out = []
        for s, (a, b) in self.ev_list([e.left, e.right], st):
            if self.folds and isinstance(e.op, ast.BitOr) and len(a) == 1:
                made = self.fold_dict(("attr", self.pick(a), "__or__"), [b], {}, s, e)
                if made is not None:
                    out.append((made[0], V(made[1])))
                    continue
            out.append((s, self.binop(type(e.op).__name__, a, b, s, e)))
        return out

    def fold(self, op, x, y, st):
        """Constant arithmetic"""
        if x[0] == y[0] == "const" and op in ("Mod", "FloorDiv") and all(type(z[1]) is int for z in (x, y)) and y[1] != 0:
            return ("const", x[1] % y[1] if op == "Mod" else x[1] // y[1])
        if x[0] == y[0] == "const" and op in ("Mult", "Add", "Sub") and all(
                isinstance(z[1], (int, float)) and not isinstance(z[1], bool) for z in (x, y)):
            r = x[1] * y[1] if op == "Mult" else x[1] + y[1] if op == "Add" else x[1] - y[1]
            return ("const", r) if abs(r) < 1000 else None
        return None

    def lit_dict(self, v, st):
        """Contents of a dict which is completely known"""
        if len(v) != 1:
            return None
        t = next(iter(v))
        if t[0] != "obj" or t[1] != "dict" or t not in st.heap or st.heap[t][0] != "lit":
            return None
        d = dict(st.heap[t][1])
        return d if all(isinstance(k, str) and k not in ("*", "**") for k in d) else None

    def fold_dict(self, ft, args, kwargs, st, node):
        """dict(a, **b), a.copy(), a | b of known dicts: (state, term)"""
        if ft == ("ext", "dict") and len(args) <= 1:
            d = self.lit_dict(args[0], st) if args else {}
            for k, v in kwargs.items():
                more = self.lit_dict(v, st) if k == "**" else {k: v}
                if d is None or more is None:
                    return None
                d = {**d, **more}
        elif ft[0] == "attr" and ft[2] in ("copy", "__or__") and len(args) == (ft[2] == "__or__") or \
                ft in (("ext", "copy.copy"), ("ext", "copy.deepcopy")) and len(args) == 1:
            vs = [V(ft[1])] + list(args) if ft[0] == "attr" else list(args)
            ds = [self.lit_dict(v, st) for v in vs]
            d = None if None in ds else {k: v for x in ds for k, v in x.items()}
        else:
            return None
        if d is None:
            return None
        return self.new_obj("dict", node, st, d.items(), tag="fold")

    def binop(self, op, a, b, st, node):
        if len(a) * len(b) > 6:
            return V(mk("binop", op, self.pick(a), self.pick(b)))
        res = []
        for x in a:
            for y in b:
                if self.folds and self.fold(op, x, y, st) is not None:
                    res.append(self.fold(op, x, y, st))
                    continue
                if x[0] == "const" and y[0] == "const":
                    try:
                        r = x[1] + y[1] if op == "Add" else x[1] - y[1] if op == "Sub" else None
                        if isinstance(r, int) and not isinstance(r, bool) and abs(r) > 3:
                            res.append(("num",))     # widening of counters
                            continue
                        if r is not None:
                            res.append(("const", r))
                            continue
                    except TypeError:
                        pass
                if ("num",) in (x, y) and all(z == ("num",) or z[0] == "const" for z in (x, y)):
                    res.append(("num",))
                    continue
                if x[0] == "binop" and x[1] == op and x[3] == y and y[0] == "const" \
                        and x[2][0] == "binop" and x[2][1] == op and x[2][3] == y:
                    res.append(x)                    # base + c + c + ...
                    continue
                res.append(mk("binop", op, x, y))
        return frozenset(res)

    def e_Compare(self, e, st):
        out = []
        for s, vs in self.ev_list([e.left] + e.comparators, st):
            terms = []
            for i, op in enumerate(e.ops):
                a, b = vs[i], vs[i + 1]
                r = self.cmp_known(type(op).__name__, a, b, s)
                if r is not None:
                    terms.append(("const", r))
                else:
                    terms.append(mk("cmp", type(op).__name__, self.pick(a), self.pick(b)))
            if len(terms) == 1:
                out.append((s, V(terms[0])))
            else:
                out.append((s, V(mk("and", tuple(terms)))))
        return out

    def nullness(self, t, st):
        """True: is None; False: is not None; None: unknown."""
        if t == NONE:
            return True
        if t[0] in ("const", "obj", "func", "cls", "tuple", "bm", "fstr", "gen", "self", "exc", "mod", "tok"):
            return False
        if t in self.param_nonnull:
            return False
        if (t, "none") in st.facts:
            return True
        if (t, "notnone") in st.facts or (t, "true") in st.facts:
            return False
        return None

    def cmp_known(self, op, a, b, st):
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            for x, y in ((a, b), (b, a)):
                if y == VNONE:
                    r = {self.nullness(t, st) for t in x}
                    if r == {True}:
                        return op in ("Is", "Eq")
                    if r == {False}:
                        return op in ("IsNot", "NotEq")
        if len(a) == 1 and len(b) == 1:
            x, y = self.pick(a), self.pick(b)
            if x[0] == "const" and y[0] == "const":
                try:
                    if op in ("Eq", "Is"):
                        return x[1] == y[1]
                    if op in ("NotEq", "IsNot"):
                        return x[1] != y[1]
                    if self.folds and op in ("Lt", "LtE", "Gt", "GtE"):
                        return {"Lt": x[1] < y[1], "LtE": x[1] <= y[1], "Gt": x[1] > y[1], "GtE": x[1] >= y[1]}[op]
                except Exception:
                    return None
            f = self.fact_cmp(op, x, y)
            if f is not None:
                if (f[0], f[1]) in st.facts:
                    return True
                neg = {"true": "false", "false": "true"}[f[1]]
                if (f[0], neg) in st.facts:
                    return False
        return None

    def fact_cmp(self, op, x, y):
        """Canonical fact for a comparison: (term, 'true'|'false')."""
        flip = {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In", "GtE": "Lt", "LtE": "Gt"}
        pol = "true"
        if op in flip:
            op, pol = flip[op], "false"
        if op == "Gt":
            x, y, op = y, x, "Lt"
        if op in ("Eq", "Is") and repr(y) < repr(x):
            x, y = y, x
        return ("cmp", op, x, y), pol

    def truth1(self, t, st):
        if t[0] == "const":
            return bool(t[1])
        if t[0] in ("func", "cls", "bm", "self", "mod", "exc", "gen", "tok"):
            return True
        if t[0] == "obj":
            if t[1] == "rec":
                return True
            h = st.heap.get(t)
            if self.folds and h is not None and self.lit_dict(V(t), st) is not None:
                return bool(h[1])
            return None
        if t[0] == "tuple":
            return len(t[1]) > 0 if not any(x[0] == "star" for x in t[1]) else None
        if t[0] == "not":
            r = self.truth1(t[1], st)
            return None if r is None else not r
        if (t, "true") in st.facts:
            return True
        if (t, "false") in st.facts or (t, "none") in st.facts:
            return False
        if t in self.known_true:
            return self.known_true[t]
        return None

    def truth(self, v, st):
        r = {self.truth1(t, st) for t in v}
        if len(r) == 1:
            return next(iter(r))
        return None

    def e_Attribute(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            out += self.load_attr(e, v, e.attr, s)
        return out

    def load_attr(self, node, v, name, st):
        res = []
        acc = set()
        for t in v:
            r = self.attr1(node, t, name, st)
            if isinstance(r, list):       # inlined property: own states
                res += r
            else:
                acc |= r
        if acc:
            if len(acc) > LIMIT:
                acc = {TOP}
            if self.mon.loaded is not None:
                acc = {self.mon.loaded(t, st, self) for t in acc}
            s2, _ = self.emit1(st, "load_attr", node, base=v, attr=name, result=frozenset(acc))
            res.append((s2, frozenset(acc)))
        return self.merge_pairs(res)

    def attr1(self, node, t, name, st):
        if t[0] == "obj":
            h = st.heap.get(t)
            if h is not None and t[1] == "rec":
                d = dict(h[1])
                if name in d:
                    return set(d[name])
            return {mk("attr", t, name)}
        if t[0] == "mod":
            m = self.p.modules.get(t[1])
            r = m.resolve_name(name) if m else None
            if r is None and m is not None:
                r = self.p.modules.get(f"{t[1]}.{name}")
            return {self.entity_term(r, name)}
        if t[0] == "ext":
            return {("ext", f"{t[1]}.{name}")}
        if t[0] == "cls":
            c = self.cls_of(t)
            if c is not None:
                if name in c.inner:
                    return {self.entity_term(c.inner[name])}
                m = c.find_method(name)
                if m is not None:
                    if m.is_classmethod:
                        ft = self.func_term(m, None, t)
                        return {("bm", t, ft[1])}
                    return {self.func_term(m)}
            return {mk("attr", t, name)}
        if t[0] == "super":
            cls, selft = t[1], t[2]
            ty = self.type_of(selft)
            conc = ty[1] if ty and ty[0] == "cls" else (self.cls_of(selft) if selft[0] == "cls" else None)
            base = self._intern.get(("clsobj", cls))
            m = conc.find_method(name, after=base) if conc is not None and base is not None else None
            if m is not None:
                if m.is_property:
                    return self.inline_prop(node, m, selft, st)
                ft = self.func_term(m, None, selft)
                return {("bm", selft, ft[1])}
            return {mk("attr", t, name)}
        ty = self.type_of(t)
        if ty and ty[0] == "cls":
            c = ty[1]
            nm = name
            m = c.find_method(nm)
            if m is not None:
                if m.is_property:
                    if self.want_inline(m, t, st):
                        return self.inline_prop(node, m, t, st)
                    return {mk("attr", t, name)}
                if m.is_static:
                    return {self.func_term(m)}
                ft = self.func_term(m, None, t)
                return {("bm", t, ft[1])}
        return {mk("attr", t, name)}

    def inline_prop(self, node, m, t, st):
        return self.call_inline(node, m, None, t, [], {}, st)

    def e_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            parts = [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]
            out = []
            for s, vs in self.ev_list([e.value] + parts, st):
                r = V(*[self.slice1(t, e.slice) for t in vs[0]])
                ss, _ = self.emit([s], "load_slice", e, base=vs[0], args=bounds(e.slice, vs[1:]), result=r)
                out += [(s2, r) for s2 in ss]
            return out
        out = []
        for s, (b, i) in self.ev_list([e.value, e.slice], st):
            r = self.sub_v(b, i, s)
            if self.mon.loaded is not None:
                r = frozenset(self.mon.loaded(t, s, self) for t in r)
            s2, ev = self.emit1(s, "load_sub", e, base=b, index=i, result=r)
            if self.mon.sub_raises:
                for tag in self.mon.raises(ev, s2, self):
                    self.throw(s2, tag, ev)
            out.append((s2, r))
        return out

    def slice1(self, t, sl):
        if self.folds and t[0] == "tuple" and not any(x[0] == "star" for x in t[1]):
            try:
                lo, up, by = (None if x is None else ast.literal_eval(x) for x in (sl.lower, sl.upper, sl.step))
                return ("tuple", t[1][lo:up:by])
            except (ValueError, TypeError):
                pass
        return mk("slice", t, ast.unparse(sl))

    def sub_v(self, b, i, st):
        res = set()
        it = self.pick(i)
        for t in b:
            if t[0] == "call" and t[1] == ("ext", "zip") and len(t[2]) == 1 and t[2][0][0] == "star" \
                    and it[0] == "const" and isinstance(it[1], int):
                res.add(mk("unzip", t[2][0][1], it[1]))
                continue
            if t[0] == "unzip":
                res |= self.elem1(t, st)
                continue
            if t[0] == "tuple" and it[0] == "const" and isinstance(it[1], int) \
                    and -len(t[1]) <= it[1] < len(t[1]) and not any(x[0] == "star" for x in t[1]):
                res.add(t[1][it[1]])
                continue
            if t[0] == "obj":
                h = st.heap.get(t)
                if h is not None:
                    d = dict(h[1])
                    k = it[1] if it[0] == "const" else ("k", it)
                    if k in d and h[0] in ("lit",):
                        res |= d[k]
                        continue
                    if d:
                        for v in d.values():
                            res |= v
                        continue
            res.add(mk("sub", t, it))
        if len(res) > LIMIT:
            return VTOP
        return frozenset(res)

    def elem_v(self, v, st):
        res = set()
        for t in v:
            res |= self.elem1(t, st)
        if len(res) > LIMIT:
            return VTOP
        return frozenset(res)

    def elem1(self, t, st):
        if t[0] == "unzip":
            r = set()
            for x in self.elem1(t[1], st):
                if x[0] == "tuple" and t[2] < len(x[1]) and not any(y[0] == "star" for y in x[1]):
                    r.add(x[1][t[2]])
                else:
                    r.add(mk("sub", x, ("const", t[2])))
            return r
        if t[0] == "obj":
            h = st.heap.get(t)
            if h is not None and h[1]:
                if t[1] == "dict":
                    return {mk("key", t)}
                r = set()
                for _, v in h[1]:
                    for x in v:
                        if x[0] == "star":
                            r |= self.elem1(x[1], st)
                        else:
                            r.add(x)
                return r
        if t[0] == "tuple" and t[1]:
            r = set()
            for x in t[1]:
                r |= self.elem1(x[1], st) if x[0] == "star" else {x}
            return r
        if t[0] == "call":
            f, args = t[1], t[2]
            if f[0] == "ext":
                n = f[1].split(".")[-1]
                if n == "enumerate" and args:
                    el = self.elem1(args[0], st)
                    i = ("index", args[0])
                    first = args[1] if len(args) > 1 else dict(t[3]).get("start") if len(t) > 3 else None
                    if first is not None and first != ("const", 0):
                        i = ("binop", "Add", i, first)
                    return {mk("tuple", (i, x)) for x in el}
                if n == "zip" and args:
                    return {mk("tuple", tuple(self.pick(frozenset(self.elem1(a, st))) for a in args))}
                if n in ("list", "tuple", "iter", "sorted", "reversed", "set") and args:
                    return self.elem1(args[0], st)
                if n == "range":
                    return {mk("index", t)}
            if f[0] == "attr":
                if f[2] == "items":
                    return {mk("tuple", (mk("key", f[1]), mk("val", f[1])))}
                if f[2] == "values":
                    if f[1][0] == "obj" and f[1] in st.heap:
                        r = set()
                        for _, v in st.heap[f[1]][1]:
                            r |= v
                        return r or {mk("val", f[1])}
                    return {mk("val", f[1])}
                if f[2] == "keys":
                    return {mk("key", f[1])}
        ty = self.type_of(t)
        if ty and ty[0] == "dict":
            return {mk("key", t)}
        return {mk("elem", t)}

    def e_Yield(self, e, st):
        out = []
        prs = self.ev(e.value, st) if e.value is not None else [(st, VNONE)]
        for s, v in prs:
            out += self.do_yield(e, v, s)
        return self.merge_pairs(out)

    def do_yield(self, node, v, st):
        if self.handlers and self.handlers[-1] is not None:
            return self.handlers[-1](node, v, st)
        ss, ev = self.emit([st], "yield", node, value=v)
        out = []
        for s in ss:
            for tag in self.mon.raises(ev, s, self):
                self.throw(s, tag, ev)
            out.append((s, V(("sent",))))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            t = self.pick(v)
            if t[0] == "gen":
                out += self.run_gen_through(e, t, s)
            else:
                ss, ev = self.emit([s], "yield_from", e, value=v)
                for s2 in ss:
                    for tag in self.mon.raises(ev, s2, self):
                        self.throw(s2, tag, ev)
                    # each element is handed to the consumer
                    rs = self.do_yield(e, self.elem_v(v, s2), s2)
                    out += [(r, VTOP) for r, _ in rs]
                    out.append((s2, VTOP))
        return self.merge_pairs(out)

    # exceptions inside expression evaluation
    def throw(self, st, tag, ev):
        self.sinks[-1].append((st, tag, ev))

    sinks = [[]]

    # -- calls -----------------------------------------------------------
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = self.frame
            fr = self.frames[f]
            while fr.fi.cls is None and fr.parent is not None:
                fr = self.frames[fr.parent]
            c = fr.fi.cls
            if c is not None:
                self._intern.setdefault(("clsobj", c.qualname), c)
                return [(st, V(("super", c.qualname, fr.self_term)))]
        out = []
        exprs = [e.func]
        argn = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                exprs.append(a.value)
                argn.append("*")
            else:
                exprs.append(a)
                argn.append(None)
        for k in e.keywords:
            exprs.append(k.value)
            argn.append(k.arg if k.arg is not None else "**")
        for s, vs in self.ev_list(exprs, st):
            fv, rest = vs[0], vs[1:]
            args, kwargs, splat = [], {}, False
            for n, v in zip(argn, rest):
                if n is None:
                    args.append(v)
                elif n == "*":
                    t = self.pick(v)
                    if t[0] == "tuple" and not any(x[0] == "star" for x in t[1]):
                        args += [V(x) for x in t[1]]
                    else:
                        splat = True
                        args.append(V(*[mk("star", x) for x in v]))
                elif n == "**":
                    ok = False
                    if len(v) == 1:
                        t = self.pick(v)
                        h = s.heap.get(t) if t[0] == "obj" and t[1] == "dict" else None
                        if h is not None and h[0] == "lit" and all(isinstance(k, str) for k, _ in h[1]):
                            known = dict(h[1])
                            if "**" not in known:
                                kwargs.update(known)
                                ok = True
                        if not ok and h is not None and "**" in dict(h[1]) and all(isinstance(k, str) for k, _ in h[1]):
                            # parameters handed on together with further unknown ones
                            known = dict(h[1])
                            v = known.pop("**")
                            kwargs.update(known)
                    if not ok:
                        splat = True
                        if "**" in kwargs:
                            v = V(mk("tuple", tuple(sorted(kwargs["**"] | v, key=repr))))
                        kwargs["**"] = v
                else:
                    kwargs[n] = v
            for ft in fv:
                out += self.call(e, ft, args, kwargs, s, splat)
        return self.merge_pairs(out)

    def want_inline(self, fi, recv, st):
        if len(self.stack) > self.MAXDEPTH or fi.is_abstract:
            return False
        if any(f is fi.node for f in (x.node for x in self.fnstack)) and self.fnstack.count(fi) >= 1:
            return False
        r = self.mon.inline(fi, recv, self, tuple(self.stack))
        if r is not NotImplemented:
            return r
        if fi.qualname in self.no_inline or fi.name in self.no_inline:
            return False
        for d in fi.decorators:
            if d.split(".")[-1] not in ("property", "staticmethod", "classmethod", "contextmanager",
                                         "wraps", "stateless", "lru_cache", "cache"):
                return False
        if fi.outer is not None or isinstance(fi.node, ast.Lambda):
            return True
        if fi.cls is None:
            return True
        if recv is not None and recv[0] in ("self", "super"):
            return True
        if fi.cls.name in self.inline_classes:
            return True
        if recv is not None and recv[0] == "cls":
            return fi.cls.name in self.inline_classes or self.fn.cls is fi.cls
        return False

    def call(self, node, ft, args, kwargs, st, splat=False):
        # partial application
        if ft[0] == "call" and ft[1] == ("ext", "functools.partial") and ft[2]:
            pre = [V(x) for x in ft[2][1:]]
            kw = {k: V(v) for k, v in ft[3]}
            kw.update(kwargs)
            return self.call(node, ft[2][0], pre + list(args), kw, st, splat)
        fi = self.func_of(ft)
        recv = None
        closure = None
        if fi is not None:
            if ft[0] == "bm":
                recv = ft[1]
            else:
                closure = self.funcs[ft[1]][1]
            if ft[0] == "func" and fi.cls is not None and not fi.is_static and not fi.is_classmethod and args:
                # Class.method(self, ...)
                rt = self.pick(args[0])
                if rt[0] in ("self",):
                    recv, args = rt, args[1:]
            # dataclass-style extend()
            if fi.name == "extend" and ft[0] == "bm" and ft[1][0] == "cls" and args:
                c = self.cls_of(ft[1])
                return self.make_rec(node, c, args[0], {k: v for k, v in kwargs.items()}, st, ft, args[1:])
            if self.want_inline(fi, recv, st) and not (splat and self.bad_splat(fi, args, kwargs)):
                ss, ev = self.emit([st], "call", node, func=ft, args=args, kwargs=kwargs, callee=fi,
                                   result=None, argsplat=splat, tag="inlined")
                out = []
                for s in ss:
                    if fi.is_generator:
                        out += self.make_gen(node, fi, closure, recv, args, kwargs, s)
                    else:
                        out += self.call_inline(node, fi, closure, recv, args, kwargs, s)
                return out
        if ft[0] == "cls":
            c = self.cls_of(ft)
            if c is not None and (c.is_dataclass or self.is_state(c)) and not splat:
                fields = c.all_fields()
                kw = dict(kwargs)
                for i, a in enumerate(args):
                    if i < len(fields):
                        kw[fields[i]] = a
                return self.make_rec(node, c, None, kw, st, ft, args)
        res = mk("call", ft, tuple(self.pick(a) for a in args),
                 tuple(sorted(((k, self.pick(v)) for k, v in kwargs.items()), key=lambda x: x[0])))
        # isinstance folding
        rv = V(res)
        if ft == ("ext", "isinstance") and len(args) == 2 and self.isinst is not None:
            rs = {self.isinst(t, self.pick(args[1]), st, self) for t in args[0]}
            if len(rs) == 1 and None not in rs:
                rv = const(rs.pop())
        ss, ev = self.emit([st], "call", node, func=ft, args=args, kwargs=kwargs, callee=fi,
                           result=rv, argsplat=splat)
        out = []
        for s in ss:
            tags = tuple(self.mon.raises(ev, s, self))
            if ft == ("ext", "next") and len(args) == 1 and self.stop_caught and "StopIteration" not in tags:
                tags += ("StopIteration",)
            for tag in tags:
                self.throw(s, tag, ev)
            if tags and self.mon.dead(ev, s, self):
                continue
            own = self.mon.result(ev, s, self)
            if own is None and self.folds:
                made = self.fold_dict(ft, args, kwargs, s, node)
                if made is not None:
                    out.append((made[0], V(made[1])))
                    continue
            if own is None and ft in (("ext", "set"), ("ext", "list"), ("ext", "dict")) and not args and not kwargs:
                s, t = self.new_obj(ft[1], node, s, [])
                s, _ = self.emit1(s, "newobj", node, result=t)
                out.append((s, V(t)))
                continue
            s = self.builtin_effect(ft, args, kwargs, s, node)
            out.append((s, rv if own is None else V(own)))
        return out

    def is_state(self, c):
        return any(b.name in ("State", "MergedState") for b in c.mro())

    def bad_splat(self, fi, args, kwargs):
        """Can the splatted call not be bound?  (Unknown keywords become unknown parameter values.)"""
        return False

    def make_rec(self, node, c, src, kw, st, ft, extra):
        d = {}
        if src is not None:
            for t in src:
                h = st.heap.get(t)
                if t[0] == "obj" and t[1] == "rec" and h is not None:
                    for k, v in h[1]:
                        d[k] = join_v(d[k], v) if k in d else v
                else:
                    for f in c.all_fields():
                        if f not in kw:
                            x = V(mk("attr", t, f))
                            d[f] = join_v(d[f], x) if f in d else x
        d.update(kw)
        t = ("obj", "rec", self.site(node, c.qualname))
        self.terms_type[t] = ("cls", c)
        st = st.hset(t, ("rec:" + c.name, frozenset(d.items())))
        ss, ev = self.emit([st], "newrec", node, func=ft, args=[src] if src is not None else list(extra),
                           kwargs=kw, result=t, value=frozenset(d.items()))
        out = []
        for s in ss:
            tags = tuple(self.mon.raises(ev, s, self))
            for tag in tags:
                self.throw(s, tag, ev)
            if tags and self.mon.dead(ev, s, self):
                continue
            out.append((s, V(t)))
        return out

    def builtin_effect(self, ft, args, kwargs, st, node):
        if ft[0] == "attr" and ft[2] in MUTATORS and ft[1][0] == "obj":
            t = ft[1]
            h = st.heap.get(t)
            if h is None:
                return st
            d = dict(h[1])
            m = ft[2]
            if m in ("append", "add", "appendleft") and args:
                d["*"] = join_v(d.get("*", args[0]), args[0])
            elif m == "insert" and len(args) > 1:
                d["*"] = join_v(d.get("*", args[1]), args[1])
            elif m in ("extend", "update") and args:
                for x in args[0]:
                    if m == "update" and x[0] == "obj" and x[1] == "dict" and x in st.heap:
                        for k, v in st.heap[x][1]:
                            d[k] = v
                        continue
                    for el in self.elem1(x, st):
                        d["*"] = join_v(d.get("*", V(el)), V(el))
                for k, v in kwargs.items():
                    d[k] = v
            elif m == "clear":
                return st.hset(t, ("lit", frozenset()))
            elif m == "setdefault" and len(args) > 1:
                kt = self.pick(args[0])
                k = kt[1] if kt[0] == "const" else ("k", kt)
                d[k] = join_v(d.get(k, args[1]), args[1])
            else:
                return st
            shape = h[0] if m in ("setdefault", "update") else "built"
            return st.hset(t, (shape, frozenset(d.items())))
        if ft == ("ext", "setattr"):
            pass
        return st

    def bind_args(self, fi, closure, recv, args, kwargs, node, st):
        cls = fi.cls
        if recv is not None and recv[0] not in ("cls",):
            ty = self.type_of(recv)
            if ty and ty[0] == "cls":
                cls = ty[1]
        selft = recv
        if fi.cls is None and closure is not None:
            selft = self.frames[closure].self_term
        frame, st = self.new_frame(fi, closure, selft, cls, ("call", self.frame, id(node)), st)
        params, kwonly = fi.params()
        names = list(params)
        pos = list(args)
        if fi.cls is not None and not fi.is_static and (recv is not None):
            pos.insert(0, V(recv))
        env = dict(st.env)
        for k in [k for k in env if k[0] == frame]:
            del env[k]
        extra = []
        for i, v in enumerate(pos):
            if any(t[0] == "star" for t in v):
                # unknown splat: remaining parameters come from it
                for n in names[i:]:
                    if n not in kwargs:
                        env[(frame, n)] = VTOP
                extra.append(v)
                break
            if i < len(names):
                env[(frame, names[i])] = v
            else:
                extra.append(v)
        rest = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                env[(frame, k)] = v
            else:
                rest[k] = v
        a = fi.node.args
        if a.vararg:
            tt = []
            for v in extra:
                tt.append(self.pick(v))
            env[(frame, a.vararg.arg)] = V(mk("tuple", tuple(tt)))
        if a.kwarg:
            t = ("obj", "dict", self.site(node, "kwargs" + str(frame)))
            h = dict(st.heap)
            h[t] = ("lit" if "**" not in rest else "any", frozenset(rest.items()))
            st = st.copy(heap=h)
            env[(frame, a.kwarg.arg)] = V(t)
        defaults = {}
        allp = a.posonlyargs + a.args
        for p, d in zip(allp[len(allp) - len(a.defaults):], a.defaults):
            defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        splat = kwargs.get("**")
        if splat:
            for _ in range(4):
                nxt = set()
                for t in splat:
                    h = st.heap.get(t) if t[0] == "obj" else None
                    inner = dict(h[1]).get("**") if h is not None and h[0] == "any" else None
                    nxt |= set(inner) if inner else {t}
                if nxt == set(splat):
                    break
                splat = frozenset(nxt)
        for n in names + kwonly:
            if (frame, n) not in env:
                d = defaults.get(n)
                if splat:
                    # any parameter which is not given explicitly may come from the splatted dict
                    env[(frame, n)] = V(*[mk("sub", t, ("const", n)) for t in splat])
                elif isinstance(d, ast.Constant):
                    env[(frame, n)] = const(d.value) if not isinstance(d.value, bytes) else V(("const", repr(d.value)))
                elif d is not None:
                    r = fi.module.resolve_expr(d) if isinstance(d, (ast.Name, ast.Attribute)) else None
                    env[(frame, n)] = V(self.entity_term(r)) if r is not None else VTOP
                else:
                    env[(frame, n)] = VTOP
        for p in fi.all_params():
            if p.annotation is not None:
                v = env.get((frame, p.arg))
                if v is not None and len(v) == 1:
                    t = next(iter(v))
                    if t[0] in ("param", "elem", "call", "sub") and self.type_of(t) is None:
                        ty = self.p.type_of_annotation(p.annotation, fi.module)
                        if ty:
                            self.terms_type[t] = ty
        return frame, st.copy(env=env)

    def make_gen(self, node, fi, closure, recv, args, kwargs, st):
        sid = self.intern(("gen", self.frame, id(node), id(fi.node)))
        t = ("gen", sid)
        self._intern[("gendef", sid)] = (fi, closure, recv, node)
        items = [(("p", i), v) for i, v in enumerate(args)] + [(("k", k), v) for k, v in kwargs.items()]
        return [(st.hset(t, ("gen", frozenset(items))), V(t))]

    def gen_parts(self, t, st):
        fi, closure, recv, node = self._intern[("gendef", t[1])]
        h = dict(st.heap.get(t, ("gen", frozenset()))[1])
        args = []
        i = 0
        while ("p", i) in h:
            args.append(h[("p", i)])
            i += 1
        kwargs = {k[1]: v for k, v in h.items() if k[0] == "k"}
        return fi, closure, recv, args, kwargs, node

    def run_callee(self, node, fi, closure, recv, args, kwargs, st, handler):
        frame, s = self.bind_args(fi, closure, recv, args, kwargs, node, st)
        self.stack.append(fi.qualname)
        self.fnstack.append(fi)
        self.framestack.append(frame)
        self.handlers.append(handler)
        body = fi.node.body if isinstance(fi.node.body, list) else [ast.copy_location(ast.Return(fi.node.body), fi.node.body)]
        ss, _ = self.emit([s], "enter", node, callee=fi, base=V(recv) if recv else None)
        try:
            out = self.exec_body(body, ss)
        finally:
            self.stack.pop()
            self.fnstack.pop()
            self.framestack.pop()
            self.handlers.pop()
        return out

    def call_inline(self, node, fi, closure, recv, args, kwargs, st):
        saved = self.handlers
        self.handlers = [None] if not saved else saved
        h = self.handlers[-1] if self.handlers else None
        out = self.run_callee(node, fi, closure, recv, args, kwargs, st, h)
        self.handlers = saved
        res = [(s, v) for s, v, _ in out.ret] + [(s, VNONE) for s in out.normal]
        for s, tag, ev in out.exc:
            self.throw(s, tag, ev)
        final = []
        for s, v in self.merge_pairs(res):
            ss, _ = self.emit([s], "leave", node, callee=fi, value=v)
            final += [(x, v) for x in ss]
        return final

    def run_gen_through(self, node, t, st):
        """`yield from gen` with gen inlined: its yields are ours."""
        fi, closure, recv, args, kwargs, cnode = self.gen_parts(t, st)
        h = self.handlers[-1] if self.handlers else None
        out = self.run_callee(cnode, fi, closure, recv, args, kwargs, st, h)
        for s, tag, ev in out.exc:
            self.throw(s, tag, ev)
        return self.merge_pairs([(s, v) for s, v, _ in out.ret] + [(s, VNONE) for s in out.normal])

    # -- conditions ------------------------------------------------------
    def cond(self, e, st):
        """-> (states where true, states where false), refined."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st)
            return f, t
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur = [st]
            stop = []
            for x in e.values:
                nxt = []
                for s in cur:
                    t, f = self.cond(x, s)
                    if is_and:
                        nxt += t
                        stop += f
                    else:
                        nxt += f
                        stop += t
                cur = merge(nxt)
            return (cur, merge(stop)) if is_and else (merge(stop), cur)
        T, F = [], []
        for s, v in self.ev(e, st):
            tr = self.truth(v, s)
            ts, fs = self.refine(e, v, s)
            if tr is not False:
                for x in ts:
                    ss, _ = self.emit([x], "branch", e, cond=v, taken=True)
                    T += ss
            if tr is not True:
                for x in fs:
                    ss, _ = self.emit([x], "branch", e, cond=v, taken=False)
                    F += ss
        return merge(T), merge(F)

    def refine(self, e, v, st):
        """Refine the state by the truth of expression e (whose value is v)."""
        ts, fs = st, st
        # variable nullness
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            for x, y in ((e.left, e.comparators[0]), (e.comparators[0], e.left)):
                if isinstance(y, ast.Constant) and y.value is None:
                    none_s, some_s = self.refine_null(x, st)
                    if isinstance(e.ops[0], (ast.Is, ast.Eq)):
                        ts, fs = none_s, some_s
                    else:
                        ts, fs = some_s, none_s
                    break
        elif isinstance(e, (ast.Name, ast.Attribute, ast.NamedExpr)):
            x = e.target if isinstance(e, ast.NamedExpr) else e
            if isinstance(x, ast.Name):
                key = self.env_key(x.id, st)
                cur = st.env.get(key) if key else None
                if cur is not None:
                    keep = frozenset(t for t in cur if self.truth1(t, st) is not False)
                    drop = frozenset(t for t in cur if self.truth1(t, st) is not True)
                    if keep and keep != cur:
                        ts = st.set(key, keep)
                    if drop and drop != cur:
                        fs = st.set(key, drop)
        if len(v) == 1:
            t = self.pick(v)
            if self.factable(t):
                if t[0] == "cmp":
                    f, pol = self.fact_cmp(t[1], t[2], t[3])
                    neg = {"true": "false", "false": "true"}[pol]
                    ts = ts.copy(facts=ts.facts | {(f, pol)})
                    fs = fs.copy(facts=fs.facts | {(f, neg)})
                elif t[0] not in ("const", "not"):
                    ts = ts.copy(facts=ts.facts | {(t, "true")})
                    fs = fs.copy(facts=fs.facts | {(t, "false")})
        return [ts], [fs]

    def factable(self, t):
        """Facts are kept about values, not about impure calls."""
        def bad(x):
            return x == TOP or x[0] in ("sent", "any", "exc") or (
                x[0] == "call" and not (x[1][0] == "ext" and x[1][1] in ("isinstance", "len", "callable", "hasattr",
                                                                         "inspect.isgeneratorfunction")))
        return not mentions(t, lambda x: isinstance(x, tuple) and len(x) > 0 and isinstance(x[0], str) and bad(x))

    def env_key(self, name, st):
        f = self.frame
        while f is not None:
            if (f, name) in st.env:
                return (f, name)
            f = self.frames[f].parent
        return None

    def refine_null(self, x, st):
        none_s = some_s = st
        if isinstance(x, ast.NamedExpr):
            x = x.target
        if isinstance(x, ast.Name):
            key = self.env_key(x.id, st)
            if key is not None:
                cur = st.env[key]
                rest = frozenset(t for t in cur if self.nullness(t, st) is not True)
                if rest and rest != cur:
                    some_s = st.set(key, rest)
                if len(cur) == 1:
                    t = next(iter(cur))
                    if t[0] in ("elem", "param", "attr", "sub", "val", "tuple", "index"):
                        if self.factable(t):
                            some_s = some_s.copy(facts=some_s.facts | {(t, "notnone")})
                            none_s = none_s.copy(facts=none_s.facts | {(t, "none")})
                none_s = none_s.set(key, VNONE)
        else:
            prs = self.quiet_ev(x, st)
            if prs is not None and len(prs) == 1 and self.factable(prs_t := next(iter(prs))):
                some_s = some_s.copy(facts=some_s.facts | {(prs_t, "notnone")})
                none_s = none_s.copy(facts=none_s.facts | {(prs_t, "none")})
        return none_s, some_s

    def quiet_ev(self, e, st):
        """Evaluate a pure access path without emitting events."""
        if isinstance(e, ast.Name):
            return self.lookup(e.id, st)
        if isinstance(e, ast.Attribute):
            b = self.quiet_ev(e.value, st)
            if b is None or len(b) != 1:
                return None
            t = next(iter(b))
            if t[0] == "obj":
                return None
            return V(mk("attr", t, e.attr))
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            b, i = self.quiet_ev(e.value, st), self.quiet_ev(e.slice, st)
            if b is None or i is None or len(b) != 1 or len(i) != 1:
                return None
            return V(mk("sub", next(iter(b)), next(iter(i))))
        if isinstance(e, ast.Constant):
            return const(e.value)
        return None

    def kill_facts(self, st, name=None):
        """Forget facts mentioning attribute `name` (or all heap facts)."""
        def hit(t):
            return mentions(t, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == "attr"
                            and (name is None or x[2] == name))
        f = frozenset(x for x in st.facts if not hit(x[0]))
        return st if f == st.facts else st.copy(facts=f)

    # -- statements ------------------------------------------------------
    def exec_body(self, body, states):
        out = Out()
        cur = merge(states)
        for stmt in body:
            if not cur:
                break
            nxt = []
            for s in cur:
                o = self.exec(stmt, s)
                nxt += o.normal
                out.absorb(o)
            cur = merge(nxt)
        out.normal = cur
        return out

    def exec(self, stmt, st):
        self.step()
        sink = []
        old = self.sinks
        self.sinks = old + [sink]
        try:
            m = getattr(self, "s_" + type(stmt).__name__, None)
            if m is None:
                out = Out([st])
            else:
                out = m(stmt, st)
        finally:
            self.sinks = old
        out.exc += sink
        return out

    def s_Expr(self, n, st):
        prs = self.ev(n.value, st)
        return Out(merge([s for s, _ in prs]))

    def s_Pass(self, n, st):
        return Out([st])

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, n, st):
        for a in n.names:
            r = self.p.modules.get(a.name)
            nm = a.asname or a.name.split(".")[0]
            st = st.set((self.frame, nm), V(("ext", a.name if a.asname else a.name.split(".")[0]) if r is None
                                            else ("mod", a.name)))
        return Out([st])

    def s_ImportFrom(self, n, st):
        for a in n.names:
            m = self.p.modules.get(n.module or "")
            if m is not None:
                r = m.resolve_name(a.name)
                t = self.entity_term(r, a.name)
            else:
                t = ("ext", f"{n.module}.{a.name}")
            st = st.set((self.frame, a.asname or a.name), V(t))
        return Out([st])

    def s_FunctionDef(self, n, st):
        k = ("nested", id(n))
        fi = self._intern.get(k)
        if fi is None:
            fi = FuncInfo(n, self.fn.module, None, self.fn)
            self._intern[k] = fi
        return Out([st.set((self.frame, n.name), V(self.func_term(fi, self.frame)))])

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st):
        return Out([st.set((self.frame, n.name), VTOP)])

    def s_Return(self, n, st):
        out = Out()
        prs = self.ev(n.value, st) if n.value is not None else [(st, VNONE)]
        for s, v in prs:
            if len(self.stack) == 1:
                ss, _ = self.emit([s], "return", n, value=v)
            else:
                ss = [s]
            for x in ss:
                out.ret.append((x, v, n))
        return out

    def s_Break(self, n, st):
        o = Out()
        o.brk = [st]
        return o

    def s_Continue(self, n, st):
        o = Out()
        o.cont = [st]
        return o

    def s_Assert(self, n, st):
        t, f = self.cond(n.test, st)
        out = Out(t)
        if f:
            for s in f:
                ss, ev = self.emit([s], "assert_fail", n)
                for x in ss:
                    for tag in self.mon.raises(ev, x, self):
                        out.exc.append((x, tag, ev))
        if not t:
            out.normal = []
        ss, _ = self.emit(out.normal, "assert", n)
        out.normal = ss
        return out

    def s_Delete(self, n, st):
        states = [st]
        for t in n.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Subscript):
                    if isinstance(t.slice, ast.Slice):
                        parts = [x for x in (t.slice.lower, t.slice.upper, t.slice.step) if x is not None]
                        for s2, vs in self.ev_list([t.value] + parts, s):
                            ss, _ = self.emit([s2], "del_sub", n, base=vs[0], index=V(("slice", ast.unparse(t.slice))),
                                              args=bounds(t.slice, vs[1:]))
                            nxt += ss
                    else:
                        for s2, (b, i) in self.ev_list([t.value, t.slice], s):
                            ss, _ = self.emit([s2], "del_sub", n, base=b, index=i)
                            nxt += ss
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        ss, _ = self.emit([s2], "del_attr", n, base=b, attr=t.attr)
                        nxt += ss
                else:
                    nxt.append(s)
            states = merge(nxt)
        return Out(states)

    def s_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            cur = [s]
            for t in n.targets:
                nxt = []
                for x in cur:
                    nxt += self.assign(t, v, x, n)
                cur = nxt
            out += cur
        return Out(merge(out))

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return Out([st])
        out = []
        for s, v in self.ev(n.value, st):
            if len(v) == 1:
                t = next(iter(v))
                if t[0] in ("call", "elem", "sub", "attr") and self.type_of(t) is None:
                    ty = self.p.type_of_annotation(n.annotation, self.fn.module)
                    if ty:
                        self.terms_type[t] = ty
            out += self.assign(n.target, v, s, n)
        return Out(merge(out))

    def s_AugAssign(self, n, st):
        out = []
        op = type(n.op).__name__
        t = n.target
        if isinstance(t, ast.Name):
            for s, (a, b) in self.ev_list([ast.Name(t.id, ast.Load()), n.value], st):
                v = self.binop(op, a, b, s, n)
                objs = [x for x in a if x[0] == "obj"]
                if objs and (op == "Add" or op == "BitOr" and self.folds and all(x[1] == "dict" for x in objs)):
                    for x in objs:
                        s = self.builtin_effect(("attr", x, "extend" if op == "Add" else "update"), [b], {}, s, n)
                    v = a
                ss, _ = self.emit([s], "aug_name", n, base=a, value=b, op=op, attr=t.id)
                for x in ss:
                    out.append(self.assign_name(t.id, v, x))
        elif isinstance(t, ast.Attribute):
            for s, (a, b) in self.ev_list([t.value, n.value], st):
                old = frozenset(mk("attr", x, t.attr) for x in a)
                v = self.binop(op, old, b, s, n)
                s = self.kill_facts(s, t.attr)
                ss, _ = self.emit([s], "store_attr", n, base=a, attr=t.attr, value=v, op=op, index=b)
                out += ss
        elif isinstance(t, ast.Subscript):
            for s, (a, i, b) in self.ev_list([t.value, t.slice, n.value], st):
                old = self.sub_v(a, i, s)
                v = self.binop(op, old, b, s, n)
                for x in a:
                    for y in subterms(x):
                        if is_attr(y):
                            s = self.kill_facts(s, y[2])
                ss, _ = self.emit([s], "store_sub", n, base=a, index=i, value=v, op=op, attr=b)
                out += ss
        return Out(merge(out))

    def assign(self, target, v, st, node):
        if isinstance(target, ast.Name):
            st = self.assign_name(target.id, v, st)
            if self.mon.names:
                return self.emit([st], "store_name", node, attr=target.id, value=v)[0]
            return [st]
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, node)
        if isinstance(target, (ast.Tuple, ast.List)):
            states = [st]
            n = len(target.elts)
            star = next((i for i, x in enumerate(target.elts) if isinstance(x, ast.Starred)), None)
            ss, _ = self.emit(states, "unpack", node, value=v, attr=(n, star))
            states = ss
            for i, x in enumerate(target.elts):
                nxt = []
                for s in states:
                    nxt += self.assign(x, self.unpack_item(v, i, n, star, s), s, node)
                states = nxt
            return states
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.ev(target.value, st):
                s = self.kill_facts(s, target.attr)
                for t in b:
                    if t[0] == "obj" and t in s.heap:
                        d = dict(s.heap[t][1])
                        d[target.attr] = v if len(b) == 1 else join_v(d.get(target.attr, v), v)
                        s = s.hset(t, (s.heap[t][0], frozenset(d.items())))
                ss, _ = self.emit([s], "store_attr", node, base=b, attr=target.attr, value=v)
                out += ss
            return out
        if isinstance(target, ast.Subscript):
            out = []
            if isinstance(target.slice, ast.Slice):
                for s, b in self.ev(target.value, st):
                    ss, _ = self.emit([s], "store_sub", node, base=b,
                                      index=V(("slice", ast.unparse(target.slice))), value=v)
                    out += ss
                return out
            for s, (b, i) in self.ev_list([target.value, target.slice], st):
                for t in b:
                    for y in subterms(t):
                        if is_attr(y):
                            s = self.kill_facts(s, y[2])
                    if t[0] == "obj" and t in s.heap:
                        d = dict(s.heap[t][1])
                        it = self.pick(i)
                        k = it[1] if it[0] == "const" and not isinstance(it[1], (list, dict)) else ("k", it)
                        strong = len(b) == 1 and it[0] == "const"
                        d[k] = v if strong or k not in d else join_v(d[k], v)
                        s = s.hset(t, (s.heap[t][0], frozenset(d.items())))
                ss, _ = self.emit([s], "store_sub", node, base=b, index=i, value=v)
                out += ss
            return out
        return [st]

    def unpack_item(self, v, i, n, star, st):
        res = set()
        for t in v:
            if t[0] == "tuple" and not any(x[0] == "star" for x in t[1]):
                items = t[1]
                if star is None:
                    res.add(items[i] if i < len(items) else TOP)
                elif i < star:
                    res.add(items[i] if i < len(items) else TOP)
                elif i == star:
                    res.add(mk("tuple", tuple(items[star:len(items) - (n - star - 1)])))
                else:
                    j = len(items) - (n - i)
                    res.add(items[j] if 0 <= j < len(items) else TOP)
            elif t[0] == "obj" and t in st.heap and st.heap[t][0] == "lit" and star is None:
                d = dict(st.heap[t][1])
                res |= d.get(i, VTOP)
            else:
                if star is None or i < star:
                    res |= self.sub_v(V(t), const(i), st)
                elif i == star:
                    res.add(mk("slice", t, f"{star}:" if star == n - 1 else f"{star}:{-(n - star - 1)}"))
                else:
                    res.add(mk("sub", t, ("const", i - n)))
        if len(res) > LIMIT:
            return VTOP
        return frozenset(res)

    def s_If(self, n, st):
        t, f = self.cond(n.test, st)
        out = Out()
        if t:
            o = self.exec_body(n.body, t)
            out.absorb(o, True)
        if f:
            o = self.exec_body(n.orelse, f)
            out.absorb(o, True)
        out.normal = merge(out.normal)
        return out

    def s_While(self, n, st):
        out = Out()
        head, _ = self.emit([st], "loop_enter", n)
        exits = []
        for _ in range(24):
            body_in, ex = [], []
            sub = Out()
            for s in head:
                sink = []
                old = self.sinks
                self.sinks = old + [sink]
                t, f = self.cond(n.test, s)
                self.sinks = old
                sub.exc += sink
                body_in += t
                ex += f
            o = self.exec_body(n.body, merge(body_in))
            ss, _ = self.emit(o.normal + o.cont, "loop_back", n)
            new = merge(head + ss)
            out_iter = o
            exits = ex
            if self.same_set(new, head):
                break
            head = new
        out.ret += o.ret
        out.exc += o.exc + sub.exc
        ex = merge(exits)
        if n.orelse:
            oe = self.exec_body(n.orelse, ex)
            out.absorb(oe)
            ex = oe.normal
        ex, _ = self.emit(merge(ex + o.brk), "loop_exit", n)
        out.normal = merge(ex)
        return out

    def same_set(self, a, b):
        if len(a) != len(b):
            return False
        return all(any(x.same(y) for y in b) for x in a)

    def s_For(self, n, st):
        out = Out()
        normal = []
        for s, itv in self.ev(n.iter, st):
            t = self.pick(itv)
            if t[0] == "gen":
                o = self.for_gen(n, t, s)
            elif t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("enumerate", "iter") and t[2] and t[2][0][0] == "gen":
                o = self.for_gen(n, t[2][0], s, t[1][1] == "enumerate" and t)
            else:
                o = self.for_loop(n, itv, s)
            normal += o.normal
            out.absorb(o)
        out.normal = merge(normal)
        return out

    s_AsyncFor = s_For

    def counted(self, n, t, st):
        """{name: value in a round} of the variables the loop counts its rounds with: increased by one, always and
        nowhere else in the loop."""
        if any(x[0] == "call" and x[1] == ("ext", "range") for x in subterms(t)):
            return {}
        names = n.__dict__.get("_sa_counted")
        if names is None:
            names = n._sa_counted = frozenset(counted_names(n))
        res = {}
        for name in names:
            v = st.env.get((self.frame, name))
            if v is not None and len(v) == 1:
                first = next(iter(v))
                idx = ("index", t)
                res[name] = V(idx if first == ("const", 0) else mk("binop", "Add", idx, first))
        return res

    def count(self, names, st):
        for name, v in names.items():
            st = self.assign_name(name, v, st)
        return st

    def for_loop(self, n, itv, st):
        out = Out()
        cnt = self.counted(n, self.pick(itv), st)
        ss, _ = self.emit([st], "loop_enter", n)
        ss, _ = self.emit(ss, "iter", n, value=itv)
        head = merge(ss)
        for _ in range(24):
            sub = Out()
            ss, ev = self.emit(head, "next", n, value=itv)
            for s in ss:
                for tag in self.mon.raises(ev, s, self):
                    sub.exc.append((s, tag, ev))
            body_in = []
            for s in ss:
                body_in += self.assign(n.target, self.elem_v(itv, s), self.count(cnt, s), n)
            o = self.exec_body(n.body, body_in)
            bs, _ = self.emit(o.normal + o.cont, "loop_back", n, value=itv)
            new = merge(head + bs)
            if self.same_set(new, head):
                break
            head = new
        out.ret += o.ret
        out.exc += o.exc + sub.exc
        ex, _ = self.emit(head, "exhausted", n, value=itv)
        ex = merge(ex)
        if n.orelse:
            oe = self.exec_body(n.orelse, ex)
            out.absorb(oe)
            ex = oe.normal
        ex, _ = self.emit(merge(ex + o.brk), "loop_exit", n)
        out.normal = merge(ex)
        return out

    def for_gen(self, n, t, st, enum=False):
        """for-loop over an inlined generator: the body runs at every yield."""
        fi, closure, recv, args, kwargs, cnode = self.gen_parts(t, st)
        out = Out()
        caller = (list(self.stack), list(self.fnstack), list(self.framestack), list(self.handlers))
        marker = self.intern(("forgen", self.frame, id(n)))
        cnt = self.counted(n, t, st)

        def handler(ynode, v, s):
            saved = (self.stack, self.fnstack, self.framestack, self.handlers)
            self.stack, self.fnstack, self.framestack = list(caller[0]), list(caller[1]), list(caller[2])
            self.handlers = list(caller[3])
            try:
                ss, _ = self.emit([s], "next", n, value=V(t))
                body_in = []
                idx = ("index", t)
                if enum:
                    first = enum[2][1] if len(enum[2]) > 1 else dict(enum[3]).get("start")
                    if first is not None and first != ("const", 0):
                        idx = ("binop", "Add", idx, first)
                val = V(*[mk("tuple", (idx, x)) for x in v]) if enum else v
                for x in ss:
                    body_in += self.assign(n.target, val, self.count(cnt, x), n)
                o = self.exec_body(n.body, body_in)
                bs, _ = self.emit(o.normal + o.cont, "loop_back", n, value=V(t))
            finally:
                self.stack, self.fnstack, self.framestack, self.handlers = saved
            for x in o.brk:
                self.throw(x, ("gen-brk", marker), None)
            for x, val, node in o.ret:
                x2 = x.copy(pend=x.pend + (("ret", marker, val, id(node)),))
                self._intern[("node", id(node))] = node
                self.throw(x2, ("gen-ret", marker), None)
            for x, tag, ev in o.exc:
                self.throw(x, ("gen-exc", marker, tag), ev)
            return [(x, V(("sent",))) for x in merge(bs)]

        ss, _ = self.emit([st], "loop_enter", n)
        st = ss[0]
        o = self.run_callee(cnode, fi, closure, recv, args, kwargs, st, handler)
        normal = [s for s, _, _ in o.ret] + o.normal
        ex, _ = self.emit(merge(normal), "exhausted", n, value=V(t))
        normal = merge(ex)
        if n.orelse:
            oe = self.exec_body(n.orelse, normal)
            out.absorb(oe)
            normal = oe.normal
        for s, tag, ev in o.exc:
            if isinstance(tag, tuple) and tag[1] == marker:
                if tag[0] == "gen-brk":
                    normal.append(s)
                elif tag[0] == "gen-ret":
                    p = s.pend[-1]
                    out.ret.append((s.copy(pend=s.pend[:-1]), p[2], self._intern.get(("node", p[3]))))
                else:
                    out.exc.append((s, tag[2], ev))
            else:
                out.exc.append((s, tag, ev))
        ex, _ = self.emit(merge(normal), "loop_exit", n)
        out.normal = merge(ex)
        return out

    def s_With(self, n, st):
        return self.with_items(n, n.items, st)

    s_AsyncWith = s_With

    def with_items(self, n, items, st):
        if not items:
            return self.exec_body(n.body, [st])
        item, rest = items[0], items[1:]
        out = Out()
        normal = []
        for s, v in self.ev(item.context_expr, st):
            t = self.pick(v)
            if t[0] == "gen" and self._intern[("gendef", t[1])][0].is_contextmanager:
                o = self.with_gen(n, item, rest, t, s)
            else:
                o = self.with_plain(n, item, rest, v, s)
            normal += o.normal
            out.absorb(o)
        out.normal = merge(normal)
        return out

    def with_plain(self, n, item, rest, v, st):
        out = Out()
        ss, ev = self.emit([st], "with_enter", item.context_expr, value=v)
        for s in ss:
            for tag in self.mon.raises(ev, s, self):
                self.throw(s, tag, ev)
        inner = []
        for s in ss:
            if item.optional_vars is not None:
                inner += self.assign(item.optional_vars, frozenset(mk("enter", t) for t in v), s, n)
            else:
                inner.append(s)
        o = Out()
        for s in merge(inner):
            oo = self.with_items(n, rest, s)
            o.normal += oo.normal
            o.absorb(oo)
        suppress = any(t[0] == "call" and t[1][0] == "ext" and t[1][1] == "contextlib.suppress" for t in v)

        def leave(states, how):
            r, _ = self.emit(states, "with_exit", item.context_expr, value=v, tag=how)
            return r
        out.normal = leave(merge(o.normal), "normal")
        out.brk = leave(merge(o.brk), "normal")
        out.cont = leave(merge(o.cont), "normal")
        for s, val, node in o.ret:
            for x in leave([s], "normal"):
                out.ret.append((x, val, node))
        for s, tag, ev in o.exc:
            for x in leave([s], "failed"):
                m = False
                if suppress and not isinstance(tag, tuple):
                    cl = []
                    for a in getattr(item.context_expr, "args", []):
                        cl += self.handler_classes(a)
                    m = self.matches(tag, cl) if cl else None
                    if m is not False:
                        ss2, _ = self.emit([x], "catch", item.context_expr, tag=tag, value=cl)
                        out.normal += ss2
                if m is not True:
                    out.exc.append((x, tag, ev))
        return out

    def with_gen(self, n, item, rest, t, st):
        fi, closure, recv, args, kwargs, cnode = self.gen_parts(t, st)
        caller = (list(self.stack), list(self.fnstack), list(self.framestack), list(self.handlers))
        marker = self.intern(("withgen", self.frame, id(n), id(item)))

        def handler(ynode, v, s):
            saved = (self.stack, self.fnstack, self.framestack, self.handlers)
            self.stack, self.fnstack, self.framestack = list(caller[0]), list(caller[1]), list(caller[2])
            self.handlers = list(caller[3])
            try:
                inner = self.assign(item.optional_vars, v, s, n) if item.optional_vars is not None else [s]
                o = Out()
                for x in inner:
                    oo = self.with_items(n, rest, x)
                    o.normal += oo.normal
                    o.absorb(oo)
            finally:
                self.stack, self.fnstack, self.framestack, self.handlers = saved
            res = [(x, V(("sent",))) for x in o.normal]
            for kind, lst in (("brk", o.brk), ("cont", o.cont)):
                for x in lst:
                    res.append((x.copy(pend=x.pend + ((kind, marker, None, 0),)), V(("sent",))))
            for x, val, node in o.ret:
                self._intern[("node", id(node))] = node
                res.append((x.copy(pend=x.pend + (("ret", marker, val, id(node)),)), V(("sent",))))
            for x, tag, ev in o.exc:
                self.throw(x, tag, ev)
            return self.merge_pairs(res)

        o = self.run_callee(cnode, fi, closure, recv, args, kwargs, st, handler)
        out = Out()
        out.exc = o.exc
        for s in [x for x, _, _ in o.ret] + o.normal:
            if s.pend and s.pend[-1][1] == marker:
                p = s.pend[-1]
                s2 = s.copy(pend=s.pend[:-1])
                if p[0] == "brk":
                    out.brk.append(s2)
                elif p[0] == "cont":
                    out.cont.append(s2)
                else:
                    out.ret.append((s2, p[2], self._intern.get(("node", p[3]))))
            else:
                out.normal.append(s)
        out.normal = merge(out.normal)
        return out

    # -- exceptions ------------------------------------------------------
    def exc_names(self, tag):
        """Class names in the MRO of exception tag."""
        t = tag.split("#")[0].rstrip("?")
        c = self.p.cls(t, must=False) if t not in BUILTIN_EXC else None
        if c is not None:
            names = [x.name for x in c.mro()]
            for x in c.mro():
                for b in x.base_names():
                    if b in BUILTIN_EXC:
                        names += [y.__name__ for y in BUILTIN_EXC[b].__mro__]
            return names
        if t in BUILTIN_EXC:
            return [y.__name__ for y in BUILTIN_EXC[t].__mro__]
        return [t, "Exception", "BaseException"]

    def handler_classes(self, e):
        if e is None:
            return ["BaseException"]
        if isinstance(e, ast.Tuple):
            r = []
            for x in e.elts:
                r += self.handler_classes(x)
            return r
        if isinstance(e, ast.Starred):
            return self.handler_classes(e.value)
        r = self.fn.module.resolve_expr(e)
        if r is None and isinstance(e, ast.Name):
            r = self.fn.module.resolve_name(e.id)
        if isinstance(r, Global):
            if isinstance(r.value, (ast.Tuple, ast.Name, ast.BinOp)):
                self.fnstack.append(FuncInfo(self.fn.node, r.module, None))
                try:
                    if isinstance(r.value, ast.BinOp):
                        return self.handler_classes(r.value.left) + self.handler_classes(r.value.right)
                    return self.handler_classes(r.value)
                finally:
                    self.fnstack.pop()
            return ["?"]
        if isinstance(r, ClassInfo):
            return [r.name]
        if isinstance(r, Ext):
            n = r.name.split(".")[-1]
            return [{"IOError": "OSError", "EnvironmentError": "OSError"}.get(n, n)]
        return ["?"]

    def matches(self, tag, classes):
        """True / False / None(maybe)."""
        names = self.exc_names(tag)
        if any(c in names for c in classes):
            return True
        if tag.endswith("?"):
            # unknown subclass of the tag class
            base = tag.rstrip("?")
            for c in classes:
                if c == "?" or base in self.exc_names(c):
                    return None
        return False

    def s_Try(self, n, st):
        out = Out()
        stop = any(self.matches("StopIteration", self.handler_classes(h.type)) is True for h in n.handlers)
        self.stop_caught += stop
        o = self.exec_body(n.body, [st])
        self.stop_caught -= stop
        after = Out()
        normal = o.normal
        if n.orelse:
            oe = self.exec_body(n.orelse, normal)
            normal = oe.normal
            after.absorb(oe)
        after.normal += normal
        after.ret += o.ret
        after.brk += o.brk
        after.cont += o.cont
        groups = {}
        order = []
        for s, tag, ev in o.exc:
            k = (tag, s.mon, s.pend)
            if k in groups:
                groups[k] = (join_states(groups[k][0], s), groups[k][1])
            else:
                groups[k] = (s, ev)
                order.append(k)
        for k in order:
            s, ev = groups[k]
            tag = k[0]
            if isinstance(tag, tuple):
                after.exc.append((s, tag, ev))
                continue
            caught = False
            for h in n.handlers:
                classes = self.handler_classes(h.type)
                m = self.matches(tag, classes)
                if m is False:
                    continue
                ss, _ = self.emit([s], "catch", h, tag=tag, value=classes)
                hs = []
                for x in ss:
                    hs.append(x.set((self.frame, h.name), V(("exc", tag))) if h.name else x)
                self.curexc.append(tag)
                oh = self.exec_body(h.body, hs)
                self.curexc.pop()
                after.absorb(oh, True)
                if m is True:
                    caught = True
                    break
            if not caught:
                after.exc.append((s, tag, ev))
        if not n.finalbody:
            after.normal = merge(after.normal)
            return after
        # finally on every way out
        def fin(states):
            return self.exec_body(n.finalbody, states)
        of = fin(merge(after.normal))
        out.normal = of.normal
        out.absorb(of)
        for kind in ("brk", "cont"):
            lst = merge(getattr(after, kind))
            if lst:
                of = fin(lst)
                getattr(out, kind).extend(of.normal)
                out.absorb(of)
        if after.ret:
            groups = {}
            for s, v, node in after.ret:
                groups.setdefault((s.mon, s.pend, v), []).append((s, node))
            for (_, _, v), lst in groups.items():
                of = fin(merge([x for x, _ in lst]))
                out.absorb(of)
                for s in of.normal:
                    out.ret.append((s, v, lst[0][1]))
        if after.exc:
            groups = {}
            for s, tag, ev in after.exc:
                groups.setdefault((s.mon, s.pend, tag), []).append((s, ev))
            for (_, _, tag), lst in groups.items():
                of = fin(merge([x for x, _ in lst]))
                out.absorb(of)
                for s in of.normal:
                    out.exc.append((s, tag, lst[0][1]))
        out.normal = merge(out.normal)
        return out

    s_TryStar = s_Try

    def exc_tag(self, v):
        tags = []
        for t in v:
            if t[0] == "exc":
                tags.append(t[1])
                continue
            u = t
            while True:
                if u[0] == "call":
                    u = u[1]
                elif u[0] == "bm":
                    u = u[1]
                elif u[0] == "attr":
                    u = u[1]
                else:
                    break
            if u[0] == "cls":
                tags.append(u[1].split(".")[-1])
            elif u[0] == "ext" and u[1].split(".")[-1] in BUILTIN_EXC:
                tags.append(u[1].split(".")[-1])
            elif t[0] == "obj" and self.type_of(t):
                tags.append(self.type_of(t)[1].name)
            else:
                tags.append("Exception?")
        return tags

    def s_Raise(self, n, st):
        out = Out()
        if n.exc is None:
            tag = self.curexc[-1] if self.curexc else "Exception?"
            ss, ev = self.emit([st], "raise", n, tag=tag, value=VTOP)
            out.exc = [(s, tag, ev) for s in ss]
            return out
        exprs = [n.exc] + ([n.cause] if n.cause is not None else [])
        for s, vs in self.ev_list(exprs, st):
            for tag in self.exc_tag(vs[0]):
                ss, ev = self.emit([s], "raise", n, tag=tag, value=vs[0])
                out.exc += [(x, tag, ev) for x in ss]
        return out

    def s_Match(self, n, st):
        out = Out()
        for s, v in self.ev(n.subject, st):
            for c in n.cases:
                o = self.exec_body(c.body, [s])
                out.absorb(o, True)
            out.normal.append(s)
        out.normal = merge(out.normal)
        return out


class Collector(Monitor):
    """Collect events of interest, deduplicated by node/stack/terms."""

    def __init__(self, kinds=None, pred=None, raises=(), inline=None):
        self.kinds = set(kinds) if kinds else None
        self.pred = pred
        self.out = []
        self.seen = set()
        self._raises = raises
        self._inline = inline

    def event(self, ev, st, ip):
        if (self.kinds is None or ev.kind in self.kinds) and (self.pred is None or self.pred(ev)):
            self.out.append((ev, st))
        return NotImplemented

    def raises(self, ev, st, ip):
        return self._raises if ev.kind == "call" else ()

    def inline(self, fi, recv, ip, stack):
        if self._inline is not None:
            return self._inline(fi, recv, ip, stack)
        return NotImplemented


def fmt(t, ip=None):
    """Human readable term."""
    if isinstance(t, frozenset):
        return " | ".join(sorted(fmt(x, ip) for x in t))
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if isinstance(k, tuple):
        return " | ".join(fmt(x, ip) for x in t)
    if k == "any":
        return "{" + " | ".join(fmt(x, ip) for x in t[1]) + "}"
    if k == "const":
        return repr(t[1])
    if k == "self":
        return "self"
    if k == "param":
        return t[1]
    if k == "attr":
        return f"{fmt(t[1], ip)}.{t[2]}"
    if k == "sub":
        return f"{fmt(t[1], ip)}[{fmt(t[2], ip)}]"
    if k == "slice":
        return f"{fmt(t[1], ip)}[{t[2]}]"
    if k == "call":
        return f"{fmt(t[1], ip)}({', '.join(fmt(a, ip) for a in t[2])}{''.join(', %s=%s' % (k2, fmt(v, ip)) for k2, v in t[3])})"
    if k in ("ext", "mod", "cls"):
        return t[1].split(".")[-1] if k == "cls" else t[1]
    if k == "func" and ip is not None:
        return ip.funcs[t[1]][0].qualname
    if k == "bm" and ip is not None:
        return f"{fmt(t[1], ip)}.{ip.funcs[t[2]][0].name}"
    if k == "tuple":
        return "(" + ", ".join(fmt(x, ip) for x in t[1]) + ")"
    if k == "elem":
        return f"each({fmt(t[1], ip)})"
    if k == "star":
        return "*" + fmt(t[1], ip)
    if k == "binop":
        return f"({fmt(t[2], ip)} {t[1]} {fmt(t[3], ip)})"
    if k == "cmp":
        return f"({fmt(t[2], ip)} {t[1]} {fmt(t[3], ip)})"
    if k == "obj":
        return f"<{t[1]}#{t[2]}>"
    return k + "(" + ", ".join(fmt(x, ip) for x in t[1:]) + ")"
