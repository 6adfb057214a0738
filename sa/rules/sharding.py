"""C35: shards are split over workers and slices without gaps and overlaps.

Positions are affine: sample number `o` of shard number `i` is at before[i] + o.  Loops are taken with the
affine relations which hold on entering them and are kept by every round."""
import ast
import itertools

from . import poly as P

L = P.atom("len(shards)")


class Unfollowed(Exception):
    """The code is written in a form this analysis does not follow; nothing is claimed about it."""


class Wrong(Exception):
    def __init__(self, node, msg):
        self.node, self.msg = node, msg


class St:
    def __init__(self, env, facts=(), out=()):
        self.env, self.facts, self.out = env, tuple(facts), tuple(out)

    def copy(self):
        return St(dict(self.env), self.facts, self.out)


def is_int(v):
    return isinstance(v, dict)


def lone(v):
    """A single unknown number."""
    return is_int(v) and len(v) == 1 and list(v.values()) == [1] and len(next(iter(v))) == 1 and next(iter(v))[0][0] in ("s", "k")


def map_value(v, f):
    if is_int(v):
        return f(v)
    if isinstance(v, tuple):
        return tuple(map_value(x, f) if isinstance(x, (dict, tuple, list)) else x for x in v)
    if isinstance(v, list):
        return [map_value(x, f) for x in v]
    return v


def same(a, b):
    if is_int(a) and is_int(b):
        return P.key(a) == P.key(b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def off(i):
    return P.atom(("off", P.key(i)))


def subst(p, a, by):
    """Polynomial substitution which reaches into off(...) too."""
    r = {}
    for m, c in p.items():
        t = P.const(c)
        for x in m:
            if x == a:
                y = by
            elif isinstance(x, tuple) and x and x[0] == "off":
                y = off(subst(P.unkey(x[1]), a, by))
            else:
                y = P.sub_atom(x, a, by)
            t = P.mul(t, y)
        r = P.add(r, t)
    return r


class Exec:
    """Affine execution of one function over (shards, offsets)."""

    def __init__(self, fi, shards, offsets, split, contract):
        self.fi = fi
        self.split = split          # names of functions splitting one shard
        self.contract = contract    # (item parameter, start parameter, end parameter, all parameters)
        self.fresh = itertools.count()
        self.emitted = []
        self.env0 = {shards: ("shards", {}, None), offsets: ("offs", {})}
        self.rounds = []            # loop symbols over the offsets: (symbol, first)

    def sym(self, name="s"):
        return (name, next(self.fresh))

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            raise Unfollowed(ast.dump(e)[:60])
        return m(e, st)

    def x_Constant(self, e, st):
        if isinstance(e.value, int) and not isinstance(e.value, bool):
            return P.const(e.value)
        return ("const", e.value)

    def x_Name(self, e, st):
        if e.id not in st.env:
            return ("name", e.id)
        return st.env[e.id]

    def x_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        if is_int(a) and is_int(b):
            if isinstance(e.op, ast.Add):
                return P.add(a, b)
            if isinstance(e.op, ast.Sub):
                return P.add(a, b, -1)
            if isinstance(e.op, ast.Mult):
                return P.mul(a, b)
        if isinstance(e.op, ast.Add) and a[0] == b[0] == "pieces":
            return ("pieces", tuple(a[1]) + tuple(b[1]))
        raise Unfollowed(ast.unparse(e)[:60])

    def x_Attribute(self, e, st):
        b = self.ev(e.value, st)
        if isinstance(b, tuple) and b[0] == "part":
            if e.attr == "count":
                return P.at("n", b[1])
            if e.attr == "offset":
                return {}
        return ("attr", e.attr)

    def x_Subscript(self, e, st):
        b = self.ev(e.value, st)
        if not isinstance(b, tuple):
            raise Unfollowed("subscript")
        if isinstance(e.slice, ast.Slice):
            if e.slice.step is not None:
                raise Unfollowed("step")
            lo = self.ev(e.slice.lower, st) if e.slice.lower is not None else {}
            hi = self.ev(e.slice.upper, st) if e.slice.upper is not None else None
            if not is_int(lo) or hi is not None and not is_int(hi):
                raise Unfollowed("slice")
            if b[0] == "shards" and b[2] is None:
                return ("shards", P.add(b[1], lo), None if hi is None else P.add(b[1], hi))
            if b[0] == "offs" and (hi is None or P.value(hi) == -1):
                return ("offs", P.add(b[1], lo))
            raise Unfollowed("slice")
        i = self.ev(e.slice, st)
        if not is_int(i):
            raise Unfollowed("index")
        if b[0] == "shards":
            return ("item", P.add(b[1], i))
        if b[0] == "offs":
            return off(P.add(b[1], i))
        if b[0] == "item":
            return ("part", b[1])
        raise Unfollowed("subscript")

    def x_List(self, e, st):
        if not e.elts:
            return ("pieces", ())
        raise Unfollowed("list")

    def x_Tuple(self, e, st):
        return ("tuple", tuple(self.ev(x, st) for x in e.elts))

    def x_IfExp(self, e, st):
        a, b = self.ev(e.body, st), self.ev(e.orelse, st)
        c = self.cond(e.test, st)
        if c is None:
            raise Unfollowed("condition")
        neg = False
        if a == ("pieces", ()):
            a, b, neg = b, a, True
        if a[0] == "pieces" and b == ("pieces", ()) and len(a[1]) == 1:
            # left out under the negated condition: it has to be empty then
            (x, y), = a[1]
            size = P.add(y, x, -1)
            op, d = c
            op = NEG[op] if neg else op
            self.needed(e, op, d, size)
            return a
        raise Unfollowed("conditional")

    def needed(self, node, op, d, size):
        """The piece is given out only if `d op 0`: is it empty (size <= 0) otherwise?"""
        k = P.value(P.add(d, size, -1))       # d = size + k
        if k is not None:
            # given out iff size + k op 0
            ok = {"Gt": k >= 0, "GtE": k >= -1, "NotEq": k == 0}.get(op, False)
        else:
            k = P.value(P.add(d, size))       # d = k - size
            if k is None:
                raise Unfollowed("condition")
            ok = {"Lt": k <= 0, "LtE": k <= 1, "NotEq": k == 0}.get(op, False)
        if not ok:
            raise Wrong(node, f"a part of {P.show(size)} samples is left out though it is not empty")

    def x_GeneratorExp(self, e, st):
        return self.x_ListComp(e, st)

    def x_ListComp(self, e, st):
        """Pieces of consecutive shards."""
        if len(e.generators) == 2 and isinstance(e.elt, ast.Name) and isinstance(e.generators[1].target, ast.Name) \
                and e.elt.id == e.generators[1].target.id and not e.generators[1].ifs and not e.generators[0].ifs:
            # [x for shard in shards for x in split(shard)]
            return self.pieces_of(e.generators[0], e.generators[1].iter, st, e)
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unfollowed("comprehension")
        return ("nested", self.pieces_of(e.generators[0], e.elt, st, e))

    def pieces_of(self, g, elt, st, node):
        it = self.ev(g.iter, st)
        if it[0] != "shards":
            raise Unfollowed("comprehension")
        k = self.sym("k")
        s = st.copy()
        self.bind(g.target, ("item", P.atom(k)), s)
        v = self.ev(elt, s)
        if v[0] != "pieces" or len(v[1]) != 1:
            raise Unfollowed("comprehension")
        (a, b), = v[1]
        lo, hi = it[1], it[2] if it[2] is not None else L
        nxt = subst(a, k, P.add(P.atom(k), P.const(1)))
        if not same(nxt, b):
            raise Wrong(node, f"of a shard in between only [{P.show(P.add(a, P.at('P', P.atom(k)), -1))}, "
                              f"{P.show(P.add(b, P.at('P', P.atom(k)), -1))}) is given out")
        return ("pieces", ((subst(a, k, lo), subst(a, k, hi)),))

    def x_Call(self, e, st):
        f = e.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if name == "len" and len(e.args) == 1:
            v = self.ev(e.args[0], st)
            if v[0] == "shards":
                return P.add(v[2] if v[2] is not None else L, v[1], -1)
            if v[0] == "offs":
                return P.add(P.atom("len(offsets)"), v[1], -1)
            raise Unfollowed("len")
        if name == "sum":
            v = self.ev(e.args[0], st)
            if v[0] == "nested":
                return v[1]
            raise Unfollowed("sum")
        if name in ("list", "tuple") and len(e.args) == 1:
            v = self.ev(e.args[0], st)
            if v[0] in ("pieces", "shards", "offs"):
                return v
            raise Unfollowed("list")
        if name in ("from_iterable",) and len(e.args) == 1:
            v = self.ev(e.args[0], st)
            if v[0] == "nested":
                return v[1]
        if name == "enumerate":
            kw = {k.arg: k.value for k in e.keywords}
            first = self.ev(e.args[1] if len(e.args) > 1 else kw["start"], st) if len(e.args) > 1 or "start" in kw else {}
            return ("enum", self.ev(e.args[0], st), first)
        if name in ("zip", "pairwise"):
            vs = [self.ev(a, st) for a in e.args]
            if name == "pairwise" and vs[0][0] == "offs":
                vs = [vs[0], ("offs", P.add(vs[0][1], P.const(1)))]
            return ("zip", tuple(vs))
        if name == "range" and len(e.args) in (1, 2):
            vs = [self.ev(a, st) for a in e.args]
            return ("range", vs[0] if len(vs) == 2 else {}, vs[-1])
        if name in self.split:
            ip, sp, ep, names = self.contract
            given = dict(zip(names, e.args))
            given.update({k.arg: k.value for k in e.keywords if k.arg})
            if not {ip, sp, ep} <= set(given):
                raise Unfollowed("split")
            v, a, b = (self.ev(given[n], st) for n in (ip, sp, ep))
            if v[0] != "item" or not is_int(a) or not is_int(b):
                raise Unfollowed("split")
            self.bounded(e, v[1], b, st)
            base = P.at("P", v[1])
            return ("pieces", ((P.add(base, a), P.add(base, b)),))
        raise Unfollowed("call of " + str(name))

    def bounded(self, node, idx, end, st):
        """The end of a part lies within its shard."""
        room = P.add(P.at("n", idx), end, -1)
        if not room:
            return
        for op, d in st.facts:
            # d op 0
            for sign in (1, -1):
                dd = d if sign == 1 else P.mul(d, P.const(-1))
                oo = op if sign == 1 else FLIP[op]
                k = P.value(P.add(room, dd, -1))    # room = dd + k
                if k is not None:
                    low = {"GtE": k, "Gt": k + 1, "Eq": k}.get(oo)
                    if low is not None and low >= 0:
                        return
                    if low is not None:
                        raise Wrong(node, f"a part may reach {-low} samples beyond its shard")

    # ------------------------------------------------------------ conditions
    def cond(self, e, st):
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, st), self.ev(e.comparators[0], st)
            n = type(e.ops[0]).__name__
            if is_int(a) and is_int(b) and n in NEG:
                return n, P.add(a, b, -1)
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            c = self.cond(e.operand, st)
            return None if c is None else (NEG[c[0]], c[1])
        return None

    def assume(self, st, op, d):
        """The state with `d op 0`, None if that cannot be."""
        v = P.value(d)
        if v is not None:
            return st if TEST[op](v) else None
        st = st.copy()
        if op == "Eq":
            for m, c in d.items():
                if len(m) == 1 and abs(c) == 1 and isinstance(m[0], tuple) and m[0][0] in ("s", "k"):
                    # replace the symbol, most recent first
                    a = max((x[0] for x, y in d.items() if len(x) == 1 and abs(y) == 1 and x[0][0] in ("s", "k")), key=lambda x: x[1])
                    ca = d[(a,)]
                    by = P.mul(P.add(d, {(a,): ca}, -1), P.const(-ca))
                    f = lambda p: subst(p, a, by)
                    st.env = {n: map_value(v, f) for n, v in st.env.items()}
                    st.facts = tuple((o, f(x)) for o, x in st.facts)
                    st.out = tuple((map_value(v, f), n, r) for v, n, r in st.out)
                    break
        st.facts += ((op, d),)
        return st

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        """[(state, how it is left)]"""
        cur, res = [st], []
        for s in body:
            nxt = []
            for x in cur:
                for y, how in self.stmt(s, x):
                    (nxt if how == "next" else res).append(y if how == "next" else (y, how))
            cur = nxt
        return res + [(x, "next") for x in cur]

    def bind(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, tuple) and v[0] == "tuple" and len(v[1]) == len(t.elts):
            for a, b in zip(t.elts, v[1]):
                self.bind(a, b, st)
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, tuple) and v[0] == "item" and isinstance(t.elts[0], ast.Name):
            st.env[t.elts[0].id] = ("part", v[1])
        else:
            raise Unfollowed("target")

    def stmt(self, s, st):
        if isinstance(s, (ast.Pass, ast.Assert)):
            return [(st, "next")]
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return [(st, "next")]
            if isinstance(s.value, ast.Yield):
                v = self.ev(s.value.value, st)
                st = st.copy()
                st.out += ((v, s, None),)
                return [(st, "next")]
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name):
                n, m = s.value.func.value.id, s.value.func.attr
                cur = st.env.get(n)
                if m in ("append", "extend") and len(s.value.args) == 1 and isinstance(cur, tuple) and cur[0] in ("pieces", "result"):
                    v = self.ev(s.value.args[0], st)
                    st = st.copy()
                    if m == "extend" and v[0] == "pieces" and cur[0] == "pieces":
                        st.env[n] = ("pieces", tuple(cur[1]) + tuple(v[1]))
                        return [(st, "next")]
                    if m == "append" and v[0] == "pieces" and (cur[0] == "result" or not cur[1]):
                        st.env[n] = ("result",)
                        st.out += ((v, s, None),)
                        return [(st, "next")]
            raise Unfollowed(ast.unparse(s)[:60])
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [(st, "next")]
            v = self.ev(s.value, st)
            st = st.copy()
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                self.bind(t, v, st)
            return [(st, "next")]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            v = self.x_BinOp(ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value), st)
            st = st.copy()
            st.env[s.target.id] = v
            return [(st, "next")]
        if isinstance(s, ast.If):
            c = self.cond(s.test, st)
            res = []
            for taken, body in ((True, s.body), (False, s.orelse)):
                if c is None:
                    x = st
                else:
                    x = self.assume(st, c[0] if taken else NEG[c[0]], c[1])
                if x is not None:
                    res += self.block(body, x.copy())
            return res
        if isinstance(s, ast.For):
            return self.loop(s, st)
        if isinstance(s, ast.While):
            return self.loop(s, st)
        if isinstance(s, ast.Break):
            return [(st, "break")]
        if isinstance(s, ast.Continue):
            return [(st, "continue")]
        if isinstance(s, ast.Raise):
            return [(st, "raise")]
        if isinstance(s, ast.Return):
            return [(st, "return")]
        raise Unfollowed(type(s).__name__)

    # ------------------------------------------------------------ loops
    def header(self, n, st, k):
        """(first index, value of the target for index k, is it over the offsets)"""
        def at(v, r):
            if v[0] == "shards":
                return ("item", P.add(v[1], r))
            if v[0] == "offs":
                return off(P.add(v[1], r))
            if v[0] == "range":
                return P.add(v[1], r)
            if v[0] == "enum":
                return ("tuple", (P.add(v[2], r), at(v[1], r)))
            if v[0] == "zip":
                return ("tuple", tuple(at(x, r) for x in v[1]))
            raise Unfollowed("iterable")

        def first(v):
            if v[0] in ("shards", "offs", "range"):
                return v[1]
            return first(v[1]) if v[0] == "enum" else first(v[1][0])

        def over(v):
            if v[0] == "offs":
                return True
            if v[0] == "range":
                return "len(offsets)" in [a for m in v[2] for a in m]
            return over(v[1]) if v[0] == "enum" else any(map(over, v[1])) if v[0] == "zip" else False
        it = self.ev(n.iter, st)
        if not isinstance(it, tuple):
            raise Unfollowed("iterable")
        lo = first(it)
        return lo, at(it, P.add(P.atom(k), lo, -1)), over(it), (it[2] if it[0] == "shards" else None)

    def loop(self, n, st):
        names = sorted({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        if isinstance(n, ast.For):
            k = self.sym("k")
            lo, val, over, _ = self.header(n, st, k)
            pivot = None
        else:
            # the variable which counts the rounds
            pivot = next((x for x in names if is_int(st.env.get(x)) and all(
                isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.value, ast.Constant) and b.value.value == 1
                for b in ast.walk(n) if isinstance(b, (ast.AugAssign, ast.Assign)) and any(
                    isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Store) for y in ast.walk(b)))), None)
            if pivot is None:
                raise Unfollowed("while")
            k, lo, val, over = self.sym("k"), st.env[pivot], P.atom(self.sym("k")), False
            val = None
        kk = P.atom(k)
        mod = [x for x in names if x in st.env and x != pivot]
        pick = {x: 0 for x in mod}
        fresh = {x: P.atom(self.sym()) for x in mod}

        def options(x, havoc):
            v = st.env[x]
            res = [v]
            lok = lambda p: P.add(P.add(p, P.at("P", lo), -1), P.at("P", kk))
            if over:
                pass
            elif is_int(v):
                res += [lok(v), P.add(P.add(v, lo, -1), kk)]
            elif isinstance(v, tuple) and v[0] in ("item", "part"):
                res += [(v[0], P.add(P.add(v[1], lo, -1), kk))]

            def sigma(p):
                for y in havoc:
                    e = st.env[y]
                    if is_int(e) and len(e) == 1 and list(e.values()) == [1]:
                        (m,) = e
                        if len(m) == 1:
                            p = subst(p, m[0], fresh[y])
                return p

            def shift(p):
                if not over:
                    return p
                r = {}
                for m, c in p.items():
                    t = P.const(c)
                    for a in m:
                        t = P.mul(t, off(P.add(P.add(P.unkey(a[1]), lo, -1), kk)) if isinstance(a, tuple) and a[0] == "off" else P.atom(a))
                    r = P.add(r, t)
                return r
            for f in (sigma, shift, lambda p: shift(sigma(p))):
                w = map_value(v, f)
                if not any(same(w, y) for y in res):
                    res.append(w)
            if is_int(v):
                res.append(fresh[x])
            elif isinstance(v, tuple) and v[0] in ("item", "part"):
                res.append((v[0], fresh[x]))
            return res

        def taken(x, havoc):
            o = options(x, havoc)
            return o[min(pick[x], len(o) - 1)]

        for _ in range(200):
            havoc = [x for x in mod if lone(st.env[x]) and same(taken(x, []), fresh[x])]
            havoc += [x for x in mod if is_int(st.env[x]) and not lone(st.env[x]) and same(taken(x, havoc), fresh[x])]
            head = st.copy()
            head.out = ()
            if pivot is not None:
                head.env[pivot] = kk
            for x in mod:
                head.env[x] = taken(x, havoc)
            body = head.copy()
            if pivot is None:
                self.bind(n.target, val, body)
            else:
                c = self.cond(n.test, head)
                if c is not None:
                    body = self.assume(body, *c) or body
            if over:
                self.rounds.append((k, lo))
            outs = self.block(n.body, body)
            if over:
                self.rounds.pop()
            back = [s for s, how in outs if how in ("next", "continue")]

            def later(v, s):
                v = map_value(v, lambda p: subst(p, k, P.add(kk, P.const(1))))
                for y in havoc:
                    (m,), = fresh[y]
                    v = map_value(v, lambda p: subst(p, m, s.env[y])) if is_int(s.env.get(y)) else v
                return v
            bad = [x for x in mod if any(x not in s.env or not same(s.env[x], later(head.env[x], s)) for s in back)]
            bad = [x for x in bad if x not in havoc and not (isinstance(head.env[x], tuple) and head.env[x][0] in ("item", "part")
                                                           and same(head.env[x][1], fresh[x]))]
            if not bad:
                break
            prog = False
            for x in sorted(bad, key=lambda x: not lone(st.env[x])):
                if pick[x] < len(options(x, mod)) - 1:
                    pick[x] += 1
                    prog = True
                    if lone(st.env[x]):
                        pick.update({y: 0 for y in mod if not lone(st.env[y])})
                    break
            if not prog:
                raise Unfollowed("loop")
        else:
            raise Unfollowed("loop")
        res = []
        if over:
            self.emissions(n, outs, k, lo)
        for s, how in outs:
            if how == "break":
                s = s.copy()
                s.out = st.out + (() if over else s.out)
                res.append((s, "next"))
            elif how in ("return", "raise"):
                res.append((s, how))
        if isinstance(n, ast.While):
            c = self.cond(n.test, head)
            if c is not None:
                x = self.assume(head.copy(), NEG[c[0]], c[1])
                if x is not None:
                    x.out = st.out
                    res.append((x, "next"))
                return res
        ex = head.copy()
        ex.out = st.out
        # after the last round
        end = {"shards": L}.get("shards") if not over else None
        res += self.block(n.orelse, ex) if n.orelse else [(ex, "next")]
        return res

    def emissions(self, n, outs, k, lo):
        for s, how in outs:
            if how in ("raise",):
                continue
            if how in ("break", "return"):
                raise Wrong(n, "not every worker gets its part of the shards: the loop over the offsets is left before its end")
            if len(s.out) != 1:
                node = s.out[1][1] if len(s.out) > 1 else n
                raise Wrong(node, f"{len(s.out)} lists of shards are given out in one round over the offsets")
            (v, node, _), = s.out
            if v[0] != "pieces" or not v[1]:
                raise Wrong(node, "a worker may get no part of the range assigned to it") if v == ("pieces", ()) else Unfollowed("result")
            ps = v[1]
            for (a, b), (c, d) in zip(ps, ps[1:]):
                if not same(b, c):
                    raise Wrong(node, f"a part ends at {P.show(b)}, the next one starts at {P.show(c)}")
            a, b = ps[0][0], ps[-1][1]
            f0 = lambda p: subst(p, k, lo)
            want_a, want_b = off({}), off(P.const(1))
            nxt = subst(a, k, P.add(P.atom(k), P.const(1)))
            if not self.is_off(b) or not same(f0(b), want_b):
                raise Wrong(node, f"the parts of a worker end at {P.show(b)} instead of the end of its range")
            if not same(f0(a), want_a) or not same(nxt, b):
                raise Wrong(node, f"the parts of a worker start at {P.show(a)} instead of the end of the previous worker's")
            self.emitted.append((node, a, b))

    @staticmethod
    def is_off(p):
        return len(p) == 1 and all(len(m) == 1 and m[0][0] == "off" and c == 1 for m, c in p.items())


NEG = {"Lt": "GtE", "GtE": "Lt", "Gt": "LtE", "LtE": "Gt", "Eq": "NotEq", "NotEq": "Eq"}
FLIP = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE", "Eq": "Eq", "NotEq": "NotEq"}
TEST = {"Lt": lambda a: a < 0, "LtE": lambda a: a <= 0, "Gt": lambda a: a > 0, "GtE": lambda a: a >= 0,
        "Eq": lambda a: a == 0, "NotEq": lambda a: a != 0}


class Slices(Exec):
    """Evaluation of functions computing positions: sequences indexed by a round, shares, running sums."""

    def __init__(self, fi, ints=(), names=()):
        self.fi = fi
        self.fresh = itertools.count()
        self.made = []             # (node, offset, count, rounds) of slices of shards
        self.ranges = []           # loops being in: (symbol, first, end)
        self.env0 = {n: P.atom(n) for n in ints}
        self.names = names         # functions splitting shards by offsets
        self.cuts = []             # calls of them: (node, offsets)
        self.kept = []

    def opaque(self, e, st):
        return P.atom(ast.unparse(e))

    def num(self, e, st):
        v = self.ev(e, st)
        if not is_int(v):
            raise Unfollowed(ast.unparse(e)[:50])
        return v

    def x_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        return P.atom(e.id)

    def x_Constant(self, e, st):
        if isinstance(e.value, bool) or not isinstance(e.value, int):
            return ("const", e.value)
        return P.const(e.value)

    def x_Attribute(self, e, st):
        return P.atom(ast.unparse(e))

    def x_UnaryOp(self, e, st):
        if isinstance(e.op, ast.USub):
            return P.mul(self.num(e.operand, st), P.const(-1))
        raise Unfollowed("unary")

    def x_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        op = type(e.op).__name__
        if is_int(a) and is_int(b):
            f = {"Add": P.add, "Sub": lambda x, y: P.add(x, y, -1), "Mult": P.mul, "FloorDiv": P.div, "Mod": P.mod, "Div": P.quot}.get(op)
            if f is None:
                raise Unfollowed(op)
            return f(a, b)
        if op == "Mult" and (is_int(a) and b[0] == "lst" or is_int(b) and a[0] == "lst"):
            l, n = (b, a) if is_int(a) else (a, b)
            if len(l[1]) == 1:
                return ("fill", l[1][0], n)
        if op == "Add" and (is_int(a) and b[0] == "share" or is_int(b) and a[0] == "share"):
            n, sh = (a, b) if is_int(a) else (b, a)
            if len(n) == 1 and list(n.values()) == [1]:
                (m,) = n
                if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == "carried":
                    return ("sum", m[0][1], sh)
        if op == "Add" and is_int(a) and b[0] == "either":
            return ("either", b[1], P.add(a, b[2]), P.add(a, b[3]))
        if op == "Add" and is_int(b) and a[0] == "either":
            return ("either", a[1], P.add(b, a[2]), P.add(b, a[3]))
        if op == "Add" and {a[0], b[0]} <= {"lst", "seq", "cum"} and a[0] == "lst" and a[1] == ({},) and b[0] == "cum":
            return ("cum", b[1], b[2])
        raise Unfollowed(ast.unparse(e)[:50])

    def x_IfExp(self, e, st):
        a, b = self.ev(e.body, st), self.ev(e.orelse, st)
        c = self.cond(e.test, st)
        if is_int(a) and is_int(b) and c is not None:
            return ("either", c, a, b)
        raise Unfollowed("conditional")

    def x_Compare(self, e, st):
        c = self.cond(e, st)
        if c is None:
            raise Unfollowed("comparison")
        return ("either", c, P.const(1), {})

    def x_List(self, e, st):
        vs = tuple(self.ev(x, st) for x in e.elts)
        return ("lst", vs)

    def x_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            b = self.ev(e.value, st)
            if e.slice.step is not None or is_int(b):
                raise Unfollowed("slice")
            lo = self.num(e.slice.lower, st) if e.slice.lower is not None else {}
            hi = self.num(e.slice.upper, st) if e.slice.upper is not None else None
            if b[0] == "seq" and hi is None:
                _, k, v, n = b
                return ("seq", k, map_value(v, lambda p: subst(p, k, P.add(P.atom(k), lo))), P.add(n, lo, -1))
            if b[0] == "cum":
                return ("cut", b, lo, hi)
            raise Unfollowed("slice")
        b, i = self.ev(e.value, st), self.ev(e.slice, st)
        if is_int(i) and not is_int(b) and b[0] == "seq":
            if P.value(i) is not None and P.value(i) < 0:
                i = P.add(b[3], i)
            for k, lo, hi in self.ranges:
                last = P.value(P.add(P.add(b[3], subst(i, k, P.add(hi, P.const(1), -1)), -1), P.const(1), -1))
                if k in atoms(i) and last is not None and last < 0:
                    raise Wrong(e, f"position {P.show(subst(i, k, P.add(hi, P.const(1), -1)))} is taken, of {P.show(b[3])} positions")
            return map_value(b[2], lambda p: subst(p, b[1], i))
        if is_int(i) and not is_int(b) and b[0] == "counts":
            return ("share", b, i)
        if is_int(b):
            return self.opaque(e, st)
        raise Unfollowed("subscript")

    def x_JoinedStr(self, e, st):
        return ("const", "")

    def x_Call(self, e, st):
        f = e.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if name == "int" and len(e.args) == 1:
            v = self.ev(e.args[0], st)
            return P.whole(v) if is_int(v) else v
        if name in ("floor",) and len(e.args) == 1:
            return P.whole(self.num(e.args[0], st))
        if name == "divmod" and len(e.args) == 2:
            a, b = self.num(e.args[0], st), self.num(e.args[1], st)
            return ("tuple", (P.div(a, b), P.mod(a, b)))
        if name == "range" and len(e.args) in (1, 2):
            vs = [self.num(a, st) for a in e.args]
            return ("range", vs[0] if len(vs) == 2 else {}, vs[-1])
        if name == "enumerate" and len(e.args) == 1 and not e.keywords:
            return ("enum", self.ev(e.args[0], st), {})
        if name == "zip" or name == "pairwise":
            vs = [self.ev(a, st) for a in e.args]
            if name == "pairwise" and vs[0][0] == "seq":
                _, k, v, n = vs[0]
                vs.append(("seq", k, map_value(v, lambda p: subst(p, k, P.add(P.atom(k), P.const(1)))), P.add(n, P.const(1), -1)))
            return ("zip", tuple(vs))
        if name == "accumulate" and e.args:
            v = self.ev(e.args[0], st)
            kw = {k.arg: k.value for k in e.keywords}
            if not is_int(v) and v[0] == "counts":
                if "initial" in kw and same(self.num(kw["initial"], st), {}):
                    return ("cum", v, v[5])
            raise Unfollowed("accumulate")
        if name in ("list", "tuple") and len(e.args) == 1:
            a = e.args[0]
            v = self.ev(a, st)
            return v
        if name == "len" and len(e.args) == 1:
            v = self.ev(e.args[0], st)
            if not is_int(v) and v[0] == "seq":
                return v[3]
            if not is_int(v) and v[0] in ("cum",):
                return P.add(v[2], P.const(1))
            return self.opaque(e, st)
        if name in ("replace", "ShardInfo", "copy"):
            kw = {k.arg: k.value for k in e.keywords}
            if "offset" in kw and "count" in kw:
                self.made.append((e, self.num(kw["offset"], st), self.num(kw["count"], st), tuple(self.ranges)))
                return ("shard",)
        if name in self.names:
            for a in list(e.args) + [k.value for k in e.keywords]:
                try:
                    v = self.ev(a, st)
                except Unfollowed:
                    continue
                if not is_int(v) and v[0] in ("cut", "cum"):
                    self.cuts.append((e, v))
            return ("split",)
        for a in e.args:
            try:
                v = self.ev(a, st)
            except Unfollowed:
                continue
            if not is_int(v) and v[0] == "range" and not v[1]:
                return ("perm", v[2])
        if len(e.args) == 1 and not e.keywords:
            try:
                v = self.ev(e.args[0], st)
            except Unfollowed:
                v = None
            if v is not None and is_int(v) and name not in ("max", "min", "round", "abs", "sum"):
                return ("perm", v)
        return self.opaque(e, st)

    def x_GeneratorExp(self, e, st):
        return self.x_ListComp(e, st)

    def x_ListComp(self, e, st):
        if len(e.generators) != 1:
            raise Unfollowed("comprehension")
        g = e.generators[0]
        it = self.ev(g.iter, st)
        s = st.copy()
        if is_int(it) or it[0] in ("split", "shard", "lst", "listed"):
            # over the parts of a shard, over lists of shards
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    s.env[n.id] = P.atom(n.id)
            if g.ifs:
                self.kept.append((e, g.ifs))
            v = self.ev(e.elt, s)
            return ("split",) if not is_int(it) and it[0] == "split" else ("listed", v)
        if g.ifs:
            raise Unfollowed("comprehension")
        k = self.sym("k")
        lo, hi = self.header2(it, g.target, k, s)
        self.ranges.append((k, lo, hi))
        try:
            v = self.ev(e.elt, s)
        finally:
            self.ranges.pop()
        if is_int(v) and not lo:
            return ("seq", k, v, P.add(hi, lo, -1))
        if not is_int(v) and v[0] == "either" and not lo:
            return ("counts", v[1], v[2], v[3], k, hi, e)
        return ("listed", v)

    def header2(self, it, target, k, s):
        """Binds the target for round k; (first round, round after the last)."""
        def at(v):
            if v[0] == "range":
                return P.atom(k), v[1], v[2]
            if v[0] == "seq":
                return map_value(v[2], lambda p: subst(p, v[1], P.atom(k))), {}, v[3]
            if v[0] == "counts":
                return ("share", v, P.atom(k)), {}, v[5]
            if v[0] == "perm":
                return ("place", v[1], P.atom(k)), {}, v[1]
            if v[0] == "enum":
                x, lo, hi = at(v[1])
                return ("tuple", (P.add(P.atom(k), lo, -1), x)), lo, hi
            if v[0] == "zip":
                xs = [at(x) for x in v[1]]
                if any(x[1] for x in xs):
                    raise Unfollowed("zip")
                # as long as the shortest
                return ("tuple", tuple(x[0] for x in xs)), {}, min((x[2] for x in xs), key=lambda p: P.value(P.add(p, xs[0][2], -1)) or 0)
            raise Unfollowed("iterable")
        v, lo, hi = at(it)
        self.bind(target, v, s)
        return lo, hi

    def stmt(self, s, st):
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.ev(s.value, st)
            return [(st, "return")]
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom)) and s.value.value is not None:
            self.ev(s.value.value, st)
            return [(st, "next")]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and isinstance(s.value.func.value, ast.Name) and s.value.func.attr in ("append", "extend") and len(s.value.args) == 1:
            n = s.value.func.value.id
            v = self.ev(s.value.args[0], st)
            cur = st.env.get(n)
            st = st.copy()
            if s.value.func.attr == "append" and isinstance(cur, tuple) and cur[0] == "lst":
                st.env[n] = ("lst", cur[1] + (v,))
            else:
                st.env[n] = ("listed", v)
            return [(st, "next")]
        if isinstance(s, ast.Expr):
            return [(st, "next")]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) \
                and isinstance(s.targets[0].value, ast.Name):
            n = s.targets[0].value.id
            i, v = self.ev(s.targets[0].slice, st), self.ev(s.value, st)
            st = st.copy()
            st.env[n] = ("placed", st.env.get(n), i, v)
            return [(st, "next")]
        if isinstance(s, ast.If) and self.cond(s.test, st) is None:
            return self.block(s.body, st.copy()) + self.block(s.orelse, st.copy())
        return super().stmt(s, st)

    def cond(self, e, st):
        try:
            return super().cond(e, st)
        except Unfollowed:
            return None

    def loop(self, n, st):
        if not isinstance(n, ast.For) or n.orelse:
            raise Unfollowed("loop")
        k = self.sym("k")
        it = self.ev(n.iter, st)
        if is_int(it):
            raise Unfollowed("iterable")
        body = st.copy()
        lo, hi = self.header2(it, n.target, k, body)
        names = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name)}
        start = {x: v for x, v in body.env.items() if isinstance(v, tuple) and v[0] == "lst" and x in names}
        for x in start:
            body.env[x] = ("lst", ())
        changed = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} & set(st.env)
        for x in changed:
            if is_int(st.env[x]):
                body.env[x] = P.atom(("carried", x))
        def run():
            self.ranges.append((k, lo, hi))
            try:
                return self.block(n.body, body.copy())
            finally:
                self.ranges.pop()
        outs = run()
        # counters next to the loop variable
        counters = {}
        for x in changed:
            if is_int(st.env[x]) and all(is_int(s.env[x]) for s, _ in outs):
                steps = [P.value(P.add(s.env[x], P.atom(("carried", x)), -1)) for s, _ in outs]
                if steps and steps[0] is not None and len(set(steps)) == 1:
                    counters[x] = steps[0]
        if counters:
            for x, d in counters.items():
                body.env[x] = P.add(st.env[x], P.mul(P.const(d), P.atom(k)))
            changed -= set(counters)
            outs = run()
        if any(how not in ("next", "continue") for _, how in outs) or lo:
            raise Unfollowed("loop")
        res = st.copy()
        ends = [s for s, _ in outs]
        for x in counters:
            res.env[x] = P.atom(("after", x, next(self.fresh)))
        for x in changed:
            vs = {repr(s.env[x]) for s in ends}
            if len(vs) != 1:
                raise Unfollowed("loop")
            res.env[x] = P.atom(("after", x, next(self.fresh)))
        for x, old in start.items():
            got = [s.env[x] for s in ends]
            if all(g == ("lst", ()) for g in got):
                continue
            if any(g[0] != "lst" or len(g[1]) != 1 for g in got):
                raise Unfollowed("list")
            vals = [g[1][0] for g in got]
            if len(ends) == 2 and not old[1] and all(is_int(v) for v in vals):
                new = [s.facts[len(st.facts):] for s in ends]
                if len(new[0]) == len(new[1]) == 1 and new[0][0][0] == NEG[new[1][0][0]] and same(new[0][0][1], new[1][0][1]):
                    res.env[x] = ("counts", new[0][0], vals[0], vals[1], k, hi, n)
                    continue
                raise Unfollowed("list")
            if len({repr(v) for v in vals}) != 1:
                raise Unfollowed("list")
            v = vals[0]
            if not is_int(v) and v[0] == "either" and not old[1]:
                res.env[x] = ("counts", v[1], v[2], v[3], k, hi, n)
            elif not is_int(v) and v[0] == "sum":
                c = v[1]
                if len(old[1]) != 1 or not same(old[1][0], {}) or not same(st.env.get(c), {}):
                    raise Wrong(n, "the positions do not start at the first sample")
                sh = v[2]
                if not (sh[0] == "share" and same(sh[2], P.atom(k))):
                    raise Wrong(n, "the positions do not add up the numbers of samples")
                res.env[x] = ("cum", sh[1], hi)
            elif is_int(v) and not old[1]:
                res.env[x] = ("seq", k, v, hi)
            elif not old[1]:
                res.env[x] = ("listed", v)
            else:
                raise Unfollowed("list")
        for s in ends:
            for x, v in s.env.items():
                if isinstance(v, tuple) and v[0] == "placed" and x in st.env:
                    _, base, i, val = v
                    if base[0] == "fill" and i[0] == "place" and val[0] == "share":
                        if any(w in repr((i[2], val[2])) for w in ("'carried'", "'after'")):
                            raise Unfollowed("permutation")
                        if not same(i[2], val[2]):
                            raise Wrong(n, "the numbers of samples are not brought into another order one by one")
                        if not same(i[1], val[1][5]) or not same(base[2], i[1]):
                            raise Wrong(n, "the permutation does not have one place per worker")
                        res.env[x] = val[1]
                    else:
                        raise Unfollowed("permutation")
        return [(res, "next")]

    def bind(self, t, v, st):
        if isinstance(t, (ast.Tuple, ast.List)) and not (isinstance(v, tuple) and v[0] == "tuple" and len(v[1]) == len(t.elts)):
            raise Unfollowed("target")
        super().bind(t, v, st)



# ---------------------------------------------------------------- what is looked at
def called(fi):
    """Names of functions called (or methods of the class)."""
    return {n.func.id if isinstance(n.func, ast.Name) else n.func.attr for n in ast.walk(fi.node)
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))}


def makes_slices(fi):
    return any(isinstance(n, ast.Call) and {"offset", "count"} <= {k.arg for k in n.keywords} for n in ast.walk(fi.node))


def annotated(fi):
    ps = [a for a in fi.all_params()]
    if ps and fi.cls is not None and not fi.is_static and ps[0].arg in ("self", "cls"):
        ps = ps[1:]
    return [(a.arg, ast.unparse(a.annotation) if a.annotation is not None else "") for a in ps]


def slices(fi, cx, note):
    ps = annotated(fi)
    ints = [n for n, a in ps if a == "int"]
    if len(ints) < 2:
        return note(fi, "parameters")
    start, end = P.atom(ints[0]), P.atom(ints[1])
    x = Slices(fi, ints)
    outs = x.block(fi.node.body, St(dict(x.env0)))
    for node, o, c, rounds in x.made:
        rounds = [r for r in rounds if any(a == r[0] for a in atoms(o) | atoms(c))]
        what = f"{fi.qualname}:slice {'by index' if rounds else 'whole'}"
        if not rounds:
            good = same(o, start) and same(P.add(o, c), end)
            cx.check(good, "C35.slice", what, fi.loc(node),
                     f"the slice [{P.show(o)}, {P.show(P.add(o, c))}) is not what is asked for, [{P.show(start)}, {P.show(end)})")
            continue
        if len(rounds) > 1:
            raise Unfollowed("nested rounds")
        k, lo, hi = rounds[0]
        nxt = subst(o, k, P.add(P.atom(k), P.const(1)))
        first, last = subst(o, k, lo), subst(o, k, hi)
        cx.check(same(P.add(o, c), nxt), "C35.slice", what + ":chain", fi.loc(node),
                 f"a slice ends at {P.show(P.add(o, c))}, the next one starts at {P.show(nxt)}")
        cx.check(same(first, start), "C35.slice", what + ":first", fi.loc(node),
                 f"the first slice starts at {P.show(first)} instead of {P.show(start)}")
        cx.check(same(last, end), "C35.slice", what + ":last", fi.loc(node),
                 f"the last slice ends at {P.show(last)}, which is not always {P.show(end)}")
    if not x.made:
        note(fi, "no slices")


def atoms(p, out=None):
    out = set() if out is None else out
    for m in p:
        for a in m:
            out.add(a)
            if isinstance(a, tuple):
                for y in a[1:]:
                    if isinstance(y, tuple) and all(isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], tuple) for z in y):
                        atoms(dict(y), out)
    return out


def split(fi, contract, slicers, cx, note):
    ps = annotated(fi)
    offs = [n for n, a in ps if a.replace("typing.", "") in ("List[int]", "Sequence[int]", "list[int]", "Iterable[int]")]
    shards = [n for n, a in ps if "ShardInfo" in a]
    if len(offs) != 1 or len(shards) != 1:
        return note(fi, "parameters")
    x = Exec(fi, shards[0], offs[0], slicers, contract)
    x.block(fi.node.body, St(x.env0))
    if not x.emitted:
        return note(fi, "nothing emitted")
    for node, a, b in x.emitted:
        cx.ok("C35.parts", f"{fi.qualname}: {P.show(a)} .. {P.show(b)}", fi.loc(node))


def workers(fi, splitters, cx, note):
    x = Slices(fi, (), splitters)
    x.block(fi.node.body, St(dict(x.env0)))
    if not x.cuts:
        return note(fi, "no offsets")
    for node, v in x.cuts:
        where = fi.loc(node)
        if v[0] == "cum":
            return note(fi, "all workers")
        _, (_, counts, n), lo, hi = v
        _, (op, d), yes, no, k, total, cnode = counts
        cx.check(same(total, n), "C35.all", f"{fi.qualname}:running sum", where, "the running sum does not cover all workers")
        share(fi, op, d, yes, no, k, total, cnode, cx)
        if hi is None:
            return note(fi, "range")
        rank = [a for a in atoms(lo) if isinstance(a, str) and a.split(".")[-1] == "rank"]
        size = [a for a in atoms(n) if isinstance(a, str) and a.split(".")[-1] == "world_size"]
        if len(rank) != 1 or len(size) != 1:
            return note(fi, "rank")
        nxt = subst(lo, rank[0], P.add(P.atom(rank[0]), P.const(1)))
        cx.check(same(P.add(hi, P.const(1), -1), nxt), "C35.ranks", f"{fi.qualname}:next rank", where,
                 f"the positions of a rank end with number {P.show(P.add(hi, P.const(1), -1))}, those of the next rank start with {P.show(nxt)}")
        cx.check(not subst(lo, rank[0], {}), "C35.ranks", f"{fi.qualname}:first rank", where, "the first rank does not start at the first position")
        cx.check(same(subst(lo, rank[0], P.atom(size[0])), n), "C35.ranks", f"{fi.qualname}:last rank", where,
                 "the last rank does not end at the last position")
    for node, ifs in x.kept:
        for t in ifs:
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and ast.unparse(t.left).endswith(".count") and isinstance(t.comparators[0], ast.Constant):
                o, c = type(t.ops[0]).__name__, t.comparators[0].value
                good = o not in TEST or all(TEST[o](v - c) for v in range(1, 9))
                cx.check(good, "C35.kept", f"{fi.qualname}:filter", fi.loc(t), "slices which are not empty are left out")


def share(fi, op, d, yes, no, k, total, node, cx):
    """Number of samples of worker k: `yes` if d op 0, else `no`."""
    where = fi.loc(node)
    name = f"{fi.qualname}:share"
    diff = P.value(P.add(yes, no, -1))
    if diff is None:
        raise Unfollowed("share")
    if diff == -1:
        yes, no, op, diff = no, yes, NEG[op], 1
    if not cx.check(diff == 1, "C35.share", name + ":difference", where, f"the numbers of samples of two workers differ by {abs(diff)}"):
        return
    base = [a for m in no for a in m if isinstance(a, tuple) and a[0] == "div"]
    if len(base) != 1 or not same(no, P.atom(base[0])):
        raise Unfollowed("share")
    whole, n = P.unkey(base[0][1]), P.unkey(base[0][2])
    cx.check(same(n, total), "C35.share", name + ":divisor", where, "the total is not divided by the number of workers")
    rest = P.mod(whole, n)
    # worker with more: (+-k + rotation) % n < total % n
    if op in ("Gt", "GtE"):
        d, op = P.mul(d, P.const(-1)), FLIP[op]
    lhs = P.add(d, rest)
    ms = [(m, c) for m, c in d.items() if k in set().union(*[atoms({(a,): 1}) for a in m]) if m]
    if len(ms) != 1 or len(ms[0][0]) != 1 or ms[0][1] != 1:
        raise Unfollowed("share")
    a = ms[0][0][0]
    bound = P.mul(P.add(d, {(a,): 1}, -1), P.const(-1))
    if op == "LtE":
        bound = P.add(bound, P.const(1))
    elif op != "Lt":
        raise Unfollowed("share")
    cx.check(same(bound, rest), "C35.share", name + ":how many", where,
             f"{P.show(bound)} workers get one sample more, {P.show(rest)} samples are left over")
    if a == k:
        return
    if a[0] != "mod":
        raise Unfollowed("share")
    num, m = P.unkey(a[1]), P.unkey(a[2])
    lin = num.get((k,), 0)
    cx.check(same(m, total) and abs(lin) == 1, "C35.share", name + ":rotation", where,
             "the rotated numbers of the workers do not take each value once")


def permutes(fi, cx):
    """A function interleaving two halves of a list gives each element once."""
    one = {}
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            one.setdefault(n.targets[0].id, []).append(n.value)

    def text(e):
        if isinstance(e, ast.Name) and len(one.get(e.id, ())) == 1:
            return text(one[e.id][0])
        return ast.unparse(e)
    halves = [n for n in ast.walk(fi.node) if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.step is None]
    lows = [n for n in halves if n.slice.lower is None and n.slice.upper is not None]
    ups = [n for n in halves if n.slice.lower is not None and n.slice.upper is None]
    if len(lows) != 1 or len(ups) != 1:
        return False
    cx.check(text(lows[0].slice.upper) == text(ups[0].slice.lower) and text(lows[0].value) == text(ups[0].value), "C35.order",
             f"{fi.qualname}:halves", fi.loc(lows[0]), "the two parts do not make up the whole")
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("zip", "zip_longest"):
            cx.check(n.func.id == "zip_longest", "C35.order", f"{fi.qualname}:interleaved", fi.loc(n),
                     "the last element of the longer half is left out")
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            for g in n.generators:
                for t in g.ifs:
                    bad = isinstance(t, ast.Name) or isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and \
                        isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0
                    cx.check(not bad, "C35.order", f"{fi.qualname}:filter", fi.loc(t), "the first place (0) is left out")
    return True


def check(p, cx):
    cx.rule("C35.slice", "slices of a shard: the first starts at the start, each ends where the next one starts, the last ends exactly at the end")
    cx.rule("C35.parts", "parts given to a worker: they start where those of the previous worker end, have no gaps or overlaps between "
            "shards, and end at the end of the worker's range; one list per range")
    cx.rule("C35.share", "numbers of samples: total // workers each, one more for exactly total % workers of them, for any rotation")
    cx.rule("C35.ranks", "ranges of ranks: the first starts at 0, each ends where the next starts, the last ends at the total")
    cx.rule("C35.all", "every worker has a range")
    cx.rule("C35.kept", "only empty slices are dropped")
    cx.rule("C35.order", "the order of the workers is a permutation of them")
    c = p.cls("Sharder", must=True)
    fs = {f.name: f for f in c.methods.values()}
    for f in c.module.functions.values() if hasattr(c.module, "functions") else ():
        fs.setdefault(f.name, f)

    def note(f, why):
        cx.notes.append(f"{f.qualname}: not followed ({why}), nothing claimed")

    def attempt(f, fun, *a):
        cx.fn(f)
        n = len(cx.violations)
        try:
            fun(f, *a)
        except Unfollowed as e:
            note(f, str(e))
        except Wrong as w:
            cx.bad(RULE[fun], f.qualname, f.loc(w.node), w.msg)
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
            note(f, f"{type(e).__name__}")
    slicers = {n for n, f in fs.items() if makes_slices(f)}
    splitters = {n for n, f in fs.items() if n not in slicers and called(f) & slicers}
    users = {n for n, f in fs.items() if n not in slicers | splitters and called(f) & splitters}
    for n in sorted(slicers):
        attempt(fs[n], slices, cx, note)
    contract = None
    for n in sorted(slicers):
        ps = annotated(fs[n])
        ints = [x for x, a in ps if a == "int"]
        items = [x for x, a in ps if "ShardInfo" in a]
        if len(ints) >= 2 and items:
            contract = (items[0], ints[0], ints[1], [x for x, _ in ps])
    if contract is not None:
        for n in sorted(splitters):
            attempt(fs[n], split, contract, slicers, cx, note)
    for n in sorted(users):
        attempt(fs[n], workers, splitters, cx, note)
    for n, f in sorted(fs.items()):
        if n in called(f):
            cx.fn(f)
            if not permutes(f, cx):
                note(f, "form")


RULE = {slices: "C35.slice", split: "C35.parts", workers: "C35.share"}
