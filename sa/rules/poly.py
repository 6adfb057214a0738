"""Polynomials over integer atoms with exact floor division: {sorted tuple of atoms: coefficient}."""


def const(c):
    return {(): c} if c else {}


def atom(a):
    return {(a,): 1}


def add(p, q, sign=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + sign * c
        if not r[m]:
            del r[m]
    return r


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def key(p):
    return tuple(sorted(p.items(), key=repr))


def unkey(k):
    return dict(k)


def value(p):
    """The number a constant polynomial is, else None."""
    if not p:
        return 0
    return p[()] if set(p) == {()} else None


def quotient(p, q):
    """p / q where it is a polynomial for q a single term, else None."""
    if not p:
        return {}
    if len(q) != 1:
        return const(1) if key(p) == key(q) else None
    (m, c), = q.items()
    r = {}
    for n, d in p.items():
        rest = list(n)
        for a in m:
            if a not in rest:
                return None
            rest.remove(a)
        if d % c:
            return None
        r[tuple(rest)] = d // c
    return r


def div(p, q):
    """p // q"""
    x = quotient(p, q)
    return x if x is not None else atom(("div", key(p), key(q)))


def mod(p, q):
    x = quotient(p, q)
    return {} if x is not None else atom(("mod", key(p), key(q)))


def quot(p, q):
    """p / q, rounded as a float"""
    return {} if not p else atom(("quot", key(p), key(q)))


def whole(p):
    """int(p)"""
    fl = [m for m in p if any(isinstance(a, tuple) and a and a[0] in ("quot", "float") for a in m)]
    if not fl:
        return p
    if len(fl) == 1 and len(fl[0]) == 1 and p[fl[0]] == 1 and fl[0][0][0] == "quot":
        # the quotient itself, rounded down; what is added to it may be a whole number only
        rest = {m: c for m, c in p.items() if m != fl[0]}
        return add(rest, div(unkey(fl[0][0][1]), unkey(fl[0][0][2])))
    return atom(("int", key(p)))


def subst(p, a, by):
    """p with the atom a replaced by the polynomial `by`."""
    r = {}
    for m, c in p.items():
        t = const(c)
        for x in m:
            t = mul(t, by if x == a else sub_atom(x, a, by))
        r = add(r, t)
    return r


def sub_atom(x, a, by):
    if not isinstance(x, tuple) or not x:
        return atom(x)
    k = x[0]
    if k in ("div", "mod", "quot"):
        f = {"div": div, "mod": mod, "quot": quot}[k]
        return f(subst(unkey(x[1]), a, by), subst(unkey(x[2]), a, by))
    if k == "int":
        return whole(subst(unkey(x[1]), a, by))
    if k in ("P", "n"):
        return at(k, subst(unkey(x[1]), a, by))
    return atom(x)


def at(k, idx):
    """P(idx): the samples before an item; n(idx): those of the item.  P(i + c) is expanded to P(i) + n(i) + ..."""
    if k == "P":
        if not idx:
            return {}
        c = idx.get((), 0)
        if 0 < c < 8:
            prev = add(idx, const(1), -1)
            return add(at("P", prev), at("n", prev))
    return atom((k, key(idx)))


def show(p):
    def one(x):
        if isinstance(x, tuple) and x and x[0] in ("P", "n"):
            return f"{'before' if x[0] == 'P' else 'count'}[{show(unkey(x[1]))}]"
        if isinstance(x, tuple) and x and x[0] in ("div", "quot", "mod"):
            return f"({show(unkey(x[1]))} {dict(div='//', quot='/', mod='%')[x[0]]} {show(unkey(x[2]))})"
        if isinstance(x, tuple) and x and x[0] == "off":
            return f"offsets[{show(unkey(x[1]))}]"
        if isinstance(x, tuple) and x and x[0] == "int":
            return f"int({show(unkey(x[1]))})"
        return x[0] if isinstance(x, tuple) and x[0] in ("k", "s") else str(x[-1] if isinstance(x, tuple) else x)
    if not p:
        return "0"
    return " + ".join("*".join(([str(c)] if c != 1 or not m else []) + [one(x) for x in m]) for m, c in sorted(p.items(), key=repr))
