"""Linear forms of integer terms, and what a comparison says about the difference of two of them."""
from ..flow import subterms

SPAN = range(-2, 3)


def linear(t, out=None, sign=1):
    """{atom: coefficient, 1: constant}; other operations are atoms."""
    out = {} if out is None else out
    if t[0] in ("binop", "aug") and t[1] in ("Add", "Sub"):
        linear(t[2], out, sign)
        linear(t[3], out, sign if t[1] == "Add" else -sign)
    elif t[0] == "binop" and t[1] == "Mult" and t[2][0] == "const" and isinstance(t[2][1], int):
        linear(t[3], out, sign * t[2][1])
    elif t[0] == "binop" and t[1] == "Mult" and t[3][0] == "const" and isinstance(t[3][1], int):
        linear(t[2], out, sign * t[3][1])
    elif t[0] == "unop" and t[1] == "USub":
        linear(t[2], out, -sign)
    elif t[0] == "const" and isinstance(t[1], int):
        out[1] = out.get(1, 0) + sign * int(t[1])
    elif t[0] == "call" and t[1] == ("ext", "int") and len(t[2]) == 1:
        linear(t[2][0], out, sign)
    elif t[0] == "any" and any(x[0] in ("binop", "aug") for x in t[1]):
        # one of several sums with the same constant
        forms = [{k: v for k, v in linear(x).items() if v} for x in t[1]]
        consts = {f.pop(1, 0) for f in forms}
        if len(consts) == 1 and consts != {0} and all(len(f) == 1 and set(f.values()) == {1} for f in forms):
            x = ("any", tuple(next(iter(f)) for f in forms))
            out[x] = out.get(x, 0) + sign
            out[1] = out.get(1, 0) + sign * consts.pop()
        else:
            out[t] = out.get(t, 0) + sign
    else:
        out[t] = out.get(t, 0) + sign
    return out


def minus(a, b):
    d = linear(a)
    linear(b, d, -1)
    return {k: v for k, v in d.items() if v}


def one_atom(t):
    """(atom, constant) when t is atom + constant."""
    d = {k: v for k, v in linear(t).items() if v}
    c = d.pop(1, 0)
    if len(d) == 1 and list(d.values()) == [1]:
        return next(iter(d)), c
    return None, c


TEST = {
    "Lt": lambda a: a < 0, "LtE": lambda a: a <= 0, "Gt": lambda a: a > 0, "GtE": lambda a: a >= 0,
    "Eq": lambda a: a == 0, "NotEq": lambda a: a != 0,
}


def holds(cond, taken, diff, span=SPAN):
    """The values d of (x - y) under which the branch is taken this way; diff(form) gives (sign, constant) with
    left - right = sign * (x - y) + constant, or None when the comparison is about something else."""
    while cond[0] == "not" or cond[0] == "unop" and cond[1] == "Not":
        cond, taken = cond[-1], not taken
    if cond[0] == "cmp" and cond[1] in TEST:
        d = diff(minus(cond[2], cond[3]))
        if d is None:
            return None
        sign, c = d
        return frozenset(x for x in span if TEST[cond[1]](sign * x + c) == bool(taken))
    if cond[0] == "cmp" or cond[0] == "const":
        return None
    # truth of a number or of a container
    d = diff(linear(cond))
    if d is None:
        return None
    sign, c = d
    return frozenset(x for x in span if (sign * x + c != 0) == bool(taken))


def pair(form, is_x, is_y):
    """form == sign * (x - y) + constant?"""
    xs = [(k, v) for k, v in form.items() if k != 1]
    if len(xs) != 2:
        return None
    (a, va), (b, vb) = xs
    if is_x(b) and is_y(a):
        (a, va), (b, vb) = (b, vb), (a, va)
    if is_x(a) and is_y(b) and abs(va) == 1 and va == -vb:
        return va, form.get(1, 0)
    return None


def single(form, is_x):
    xs = [(k, v) for k, v in form.items() if k != 1]
    if len(xs) == 1 and is_x(xs[0][0]) and abs(xs[0][1]) == 1:
        return xs[0][1], form.get(1, 0)
    return None


def spread(t):
    """The alternatives of a term."""
    if t[0] == "any":
        for x in t[1]:
            yield from spread(x)
    else:
        yield t


__all__ = ["linear", "minus", "one_atom", "holds", "pair", "single", "spread", "SPAN", "subterms"]
