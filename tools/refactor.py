#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package, to test the checks for false alarms.
refactor.py KIND OUT: copies /repo/src to OUT/src with rewrite KIND applied to every module."""
import ast, os, shutil, sys, copy

KINDS = ["rename", "augment", "swapif", "temps", "comploop", "helper", "alias", "guard", "ifexp", "noop", "enum",
         "property", "kwdict", "delegate"]
COUNT = [0]


def own(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def has(node, *types):
    return any(isinstance(n, types) for n in ast.walk(node))


def bodies(node):
    for n in ast.walk(node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def parse(s):
    return ast.parse(s).body


def rename(tree):
    for f in functions(tree):
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
            continue
        nested = [n for n in own(f) if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        if nested:
            continue
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        if f.args.vararg: params.add(f.args.vararg.arg)
        if f.args.kwarg: params.add(f.args.kwarg.arg)
        loc = {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        for n in own(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id += "_rn"
            elif isinstance(n, ast.ExceptHandler) and n.name in loc:
                n.name += "_rn"
    return tree


def augment(tree):
    class T(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
                load = copy.deepcopy(n.target)
                for x in ast.walk(load):
                    if hasattr(x, "ctx"): x.ctx = ast.Load()
                return ast.Assign([n.target], ast.BinOp(load, n.op, n.value))
            return n
    return T().visit(tree)


def swapif(tree):
    class T(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                t = n.test
                t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
                return ast.If(t, n.orelse, n.body)
            return n
    return T().visit(tree)


def temps(tree):
    for f in functions(tree):
        for n, fld, b in reversed(list(bodies(f))):
            new = []
            for s in b:
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                    new += [ast.Assign([ast.Name("ret_tmp", ast.Store())], s.value), ast.Return(ast.Name("ret_tmp", ast.Load()))]
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield) and s.value.value is not None:
                    new += [ast.Assign([ast.Name("out_tmp", ast.Store())], s.value.value),
                            ast.Expr(ast.Yield(ast.Name("out_tmp", ast.Load())))]
                else:
                    new.append(s)
            setattr(n, fld, new)
    return tree


def comploop(tree):
    for f in functions(tree):
        for n, fld, b in reversed(list(bodies(f))):
            new = []
            for s in b:
                tgt = None
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.targets) == 1:
                    tgt = s.targets[0]
                elif isinstance(s, ast.Return) and isinstance(s.value, ast.ListComp):
                    tgt = "ret"
                if tgt is None or len(s.value.generators) != 1 or has(s.value.elt, ast.ListComp, ast.Lambda):
                    new.append(s); continue
                g = s.value.generators[0]
                shadow = names(g.target) & (names(f) - set()) if False else set()
                acc = f"acc_{len(new)}"
                inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
                for c in reversed(g.ifs):
                    inner = [ast.If(c, inner, [])]
                # loop variables leak: give them names of their own
                mp = {x: x + "_cl" for x in names(g.target)}
                loop = ast.For(g.target, g.iter, inner, [])
                it = loop.iter
                loop.iter = ast.Constant(0)
                for x in ast.walk(loop):
                    if isinstance(x, ast.Name) and x.id in mp: x.id = mp[x.id]
                loop.iter = it
                new += [ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())), loop]
                new.append(ast.Return(ast.Name(acc, ast.Load())) if tgt == "ret" else ast.Assign([tgt], ast.Name(acc, ast.Load())))
            setattr(n, fld, new)
    return tree


def is_plain_method(f):
    return (f.args.args and f.args.args[0].arg == "self" and
            not any(d for d in f.decorator_list) and not f.name.startswith("__init_sub"))


def local_names(f):
    out = {a.arg for a in f.args.args + f.args.kwonlyargs}
    if f.args.vararg: out.add(f.args.vararg.arg)
    if f.args.kwarg: out.add(f.args.kwarg.arg)
    for n in own(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
    return out


def helper(tree):
    """Statements without local results move into methods of their own."""
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        add = []
        for f in [x for x in c.body if isinstance(x, ast.FunctionDef)]:
            if not is_plain_method(f) or f.name == "__init__":
                continue
            loc = local_names(f)
            for n, fld, b in reversed(list(bodies(f))):
                if n is not f and isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                if any(n is not f and n in ast.walk(g) for g in own(f) if isinstance(g, (ast.FunctionDef, ast.ClassDef))):
                    continue
                new = []
                for s in b:
                    ok = isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and not has(
                        s, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda)
                    if ok and isinstance(s, ast.Expr) and not isinstance(s.value, ast.Call):
                        ok = False
                    tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AugAssign) else []
                    if any(not isinstance(t, (ast.Attribute, ast.Subscript)) for t in tg):
                        ok = False
                    if has(s, ast.Call) and any(isinstance(x, ast.Name) and x.id in ("super", "__class__", "locals") for x in ast.walk(s)):
                        ok = False
                    if any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(s)):
                        pass
                    if not ok:
                        new.append(s); continue
                    used = sorted((names(s, ast.Load) & loc) - {"self"})
                    comp = {x.id for cc in ast.walk(s) if isinstance(cc, ast.comprehension) for x in ast.walk(cc.target) if isinstance(x, ast.Name)}
                    used = [u for u in used if u not in comp]
                    COUNT[0] += 1
                    nm = f"_step_{COUNT[0]}"
                    add.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(u) for u in used], None, [], [], None, []),
                                               [s], [], None))
                    new.append(ast.Expr(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()),
                                                 [ast.Name(u, ast.Load()) for u in used], [])))
                setattr(n, fld, new)
        c.body += add
    return tree


def alias(tree):
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        for f in [x for x in c.body if isinstance(x, ast.FunctionDef)]:
            if not is_plain_method(f) or f.name in ("__init__", "__post_init__"):
                continue
            for attr in ("worker_config", "dataset", "_sample_index", "datasets"):
                uses = [n for n in own(f) if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == "self"]
                if not uses or any(not isinstance(u.ctx, ast.Load) for u in uses):
                    continue
                if any(x.name == "config" for x in [f]) and attr == "dataset":
                    pass

                class T(ast.NodeTransformer):
                    def visit_Attribute(self, n):
                        if n in uses:
                            return ast.Name(attr.strip("_") + "_al", ast.Load())
                        self.generic_visit(n)
                        return n
                doc = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                val = ast.Attribute(ast.Name("self", ast.Load()), attr, ast.Load())
                T().visit(f)
                f.body.insert(doc, ast.Assign([ast.Name(attr.strip("_") + "_al", ast.Store())], val))
    return tree


def guard(tree):
    """`if c: continue` + rest -> `if not c: rest` (and for a trailing return)."""
    for n in ast.walk(tree):
        if isinstance(n, (ast.For, ast.While)):
            b = n.body
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and b[i + 1:]:
                    n.body = b[:i] + [ast.If(ast.UnaryOp(ast.Not(), s.test), b[i + 1:], [])]
                    break
    return tree


def ifexp(tree):
    for f in functions(tree):
        for n, fld, b in reversed(list(bodies(f))):
            new = []
            for s in b:
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
                    v = s.value
                    new.append(ast.If(v.test, [ast.Assign([copy.deepcopy(s.targets[0])], v.body)],
                                      [ast.Assign([copy.deepcopy(s.targets[0])], v.orelse)]))
                elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                    v = s.value
                    new += [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
                else:
                    new.append(s)
            setattr(n, fld, new)
    return tree


def noop(tree):
    for f in functions(tree):
        for n, fld, b in reversed(list(bodies(f))):
            new = []
            for i, s in enumerate(b):
                doc = isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
                new.append(s)
                if i == 0 and not isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break, ast.ImportFrom)):
                    new += parse("_unused_noop = None")
            setattr(n, fld, new)
    return tree


def enum(tree):
    """for i, x in enumerate(xs) -> counter of its own."""
    for f in functions(tree):
        for n, fld, b in reversed(list(bodies(f))):
            new = []
            for s in b:
                if (isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate"
                        and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name)):
                    i = s.target.elts[0].id
                    COUNT[0] += 1
                    cnt = f"cnt_{COUNT[0]}"
                    first = next((k.value for k in s.iter.keywords if k.arg == "start"), ast.Constant(0))
                    new.append(ast.Assign([ast.Name(cnt, ast.Store())], first))
                    s.body = [ast.Assign([ast.Name(i, ast.Store())], ast.Name(cnt, ast.Load())),
                              ast.Assign([ast.Name(cnt, ast.Store())], ast.BinOp(ast.Name(cnt, ast.Load()), ast.Add(), ast.Constant(1)))] + s.body
                    s.iter, s.target = s.iter.args[0], s.target.elts[1]
                new.append(s)
            setattr(n, fld, new)
    return tree


def prop(tree):
    """rank_worker_id() through a helper method."""
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        hit = [False]

        class T(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if ast.unparse(n) == "self.worker_config.rank_worker_id()":
                    hit[0] = True
                    return ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "_slot_number", ast.Load()), [], [])
                return n
        T().visit(c)
        if hit[0]:
            c.body += parse("class _:\n    def _slot_number(self):\n        return self.worker_config.rank_worker_id()")[0].body
    return tree


def kwdict(tree):
    """return C(a=x, b=y) -> values into locals first."""
    for f in functions(tree):
        for n, fld, b in reversed(list(bodies(f))):
            new = []
            for s in b:
                if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and s.value.keywords and all(k.arg for k in s.value.keywords) \
                        and not s.value.args:
                    for k in s.value.keywords:
                        new.append(ast.Assign([ast.Name("kv_" + k.arg, ast.Store())], k.value))
                        k.value = ast.Name("kv_" + k.arg, ast.Load())
                new.append(s)
            setattr(n, fld, new)
    return tree


def delegate(tree):
    """Each plain (non generator) method becomes a wrapper of a private implementation."""
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        add = []
        for f in [x for x in c.body if isinstance(x, ast.FunctionDef)]:
            if not is_plain_method(f) or f.name.startswith("__") or f.args.vararg or f.args.kwarg:
                continue
            if any(isinstance(n, ast.Name) and n.id in ("super", "__class__") for n in ast.walk(f)):
                continue
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(f)):
                continue
            g = copy.deepcopy(f)
            g.name = f"_do{'_' if not f.name.startswith('_') else ''}{f.name}"
            call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), g.name, ast.Load()),
                            [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]],
                            [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in f.args.kwonlyargs])
            f.body = [ast.Return(call)]
            add.append(g)
        c.body += add
    return tree


FN = dict(rename=rename, augment=augment, swapif=swapif, temps=temps, comploop=comploop, helper=helper, alias=alias, guard=guard,
          ifexp=ifexp, noop=noop, enum=enum, property=prop, kwdict=kwdict, delegate=delegate)


def main():
    kind, out = sys.argv[1:3]
    src = os.environ.get("VERIF_REPO", "/repo") + "/src"
    shutil.copytree(src, out + "/src", dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
    for d, _, fs in os.walk(out + "/src"):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                t = ast.parse(open(p).read())
                for k in kind.split("+"):
                    t = FN[k](t)
                    t = ast.parse(ast.unparse(ast.fix_missing_locations(t)))
                open(p, "w").write(ast.unparse(t) + "\n")


if __name__ == "__main__":
    main()
