"""Program model: every module of the package under analysis is parsed from the
working tree on every run; names, imports, classes, MROs, methods, attribute
types and dataclass fields are resolved from the syntax trees."""
import ast
import builtins
import os


class Plainly(ast.NodeTransformer):
    """map(f, xs), filter(f, xs) and starmap(f, xs) as the generator expressions they stand for"""

    def __init__(self):
        self.n = 0

    def fresh(self):
        self.n += 1
        return f"_each{self.n}"

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) \
            and f.value.id == "itertools" else None
        if name not in ("map", "filter", "starmap") or isinstance(f, ast.Attribute) != (name == "starmap") and name != "starmap" \
                or node.keywords or len(node.args) < 2 or any(isinstance(a, ast.Starred) for a in node.args) \
                or name != "map" and len(node.args) != 2:
            return node
        fn, its = node.args[0], node.args[1:]
        simple = isinstance(fn, ast.Lambda) and not (fn.args.defaults or fn.args.kwonlyargs or fn.args.vararg or fn.args.kwarg
                                                     or fn.args.posonlyargs)
        it = its[0] if len(its) == 1 else ast.Call(ast.Name("zip", ast.Load()), list(its), [])
        k = len(its) if name != "starmap" else len(fn.args.args) if simple else 1
        if simple and name != "starmap" and len(fn.args.args) != k:
            return node
        names = [a.arg for a in fn.args.args] if simple else [self.fresh() for _ in range(k)]
        loads = [ast.Name(x, ast.Load()) for x in names]
        target = ast.Name(names[0], ast.Store()) if k == 1 and not (simple and name == "starmap") else \
            ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())
        none = isinstance(fn, ast.Constant) and fn.value is None
        if simple:
            res = fn.body
        elif none:
            res = loads[0]
        elif name == "starmap":
            res = ast.Call(fn, [ast.Starred(loads[0], ast.Load())], [])
        else:
            res = ast.Call(fn, loads, [])
        if name == "filter":
            gen = ast.GeneratorExp(ast.Name(names[0], ast.Load()), [ast.comprehension(target, it, [res], 0)])
        else:
            gen = ast.GeneratorExp(res, [ast.comprehension(target, it, [], 0)])
        for n in ast.walk(gen):
            if not hasattr(n, "lineno") and isinstance(n, (ast.expr, ast.arg)):
                ast.copy_location(n, node)
        return ast.fix_missing_locations(ast.copy_location(gen, node))


def plainly(tree):
    taken = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    taken |= {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not isinstance(n, ast.ClassDef)
              and n in tree.body}
    taken |= {n.arg for n in ast.walk(tree) if isinstance(n, ast.arg)}
    return tree if taken & {"map", "filter", "zip", "itertools"} else Plainly().visit(tree)


class AnalysisBroken(Exception):
    """An anchor the analysis needs has vanished (neither pass nor violation)."""


BUILTIN_EXC = {n: c for n, c in vars(builtins).items()
               if isinstance(c, type) and issubclass(c, BaseException)}


class FuncInfo:
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer          # enclosing FuncInfo for nested functions
        self.name = getattr(node, "name", "<lambda>")
        if cls is not None:
            self.qualname = f"{cls.name}.{self.name}"
        elif outer is not None:
            self.qualname = f"{outer.qualname}.{self.name}"
        else:
            self.qualname = self.name
        self.key = f"{module.name}:{self.qualname}"
        self._gen = None

    def __repr__(self):
        return f"<F {self.key}>"

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                            for n in walk_own(self.node))
        return self._gen

    @property
    def decorators(self):
        return [dec_name(d) for d in getattr(self.node, "decorator_list", [])]

    def has_deco(self, name):
        return any(d.split(".")[-1] == name for d in self.decorators)

    @property
    def is_property(self):
        return self.has_deco("property") or self.has_deco("cached_property")

    @property
    def is_static(self):
        return self.has_deco("staticmethod")

    @property
    def is_classmethod(self):
        return self.has_deco("classmethod")

    @property
    def is_contextmanager(self):
        return self.has_deco("contextmanager")

    @property
    def is_abstract(self):
        return self.has_deco("abstractmethod")

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs]

    def all_params(self):
        a = self.node.args
        return a.posonlyargs + a.args + a.kwonlyargs

    def loc(self, node=None):
        return f"{self.module.relpath}:{getattr(node or self.node, 'lineno', 0)}"


def walk_own(fn):
    """Walk the nodes of a function body without entering nested functions/classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    return dotted(d) or "?"


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return None if b is None else f"{b}.{e.attr}"
    return None


class ClassInfo:
    def __init__(self, node, module, outer=None):
        self.node = node
        self.module = module
        self.name = node.name if outer is None else f"{outer.name}.{node.name}"
        self.qualname = f"{module.name}.{self.name}"
        self.methods = {}
        self.class_attrs = {}      # name -> value expr
        self.annots = {}           # name -> annotation expr
        self.field_order = []
        self._mro = None
        self.inner = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st, module, self)
                if st.name in self.methods and any(d.endswith(".setter") for d in fi.decorators):
                    self.methods[st.name + ".setter"] = fi
                elif fi.has_deco("overload"):
                    continue
                else:
                    self.methods[st.name] = fi
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.annots[st.target.id] = st.annotation
                if not ast.unparse(st.annotation).startswith("ClassVar"):
                    self.field_order.append(st.target.id)
                if st.value is not None:
                    self.class_attrs[st.target.id] = st.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.class_attrs[t.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.inner[st.name] = ClassInfo(st, module, self)

    def __repr__(self):
        return f"<C {self.qualname}>"

    @property
    def is_dataclass(self):
        return any(dec_name(d).split(".")[-1] in ("dataclass", "edataclass")
                   for d in self.node.decorator_list)

    @property
    def decorator_names(self):
        return [dec_name(d) for d in self.node.decorator_list]

    def bases(self):
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            r = self.module.resolve_expr(b)
            if isinstance(r, ClassInfo):
                out.append(r)
        return out

    def base_names(self):
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            out.append(dotted(b) or "?")
        return out

    def mro(self):
        if self._mro is None:
            seqs = [b.mro()[:] for b in self.bases()] + [self.bases()[:]]
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                for s in seqs:
                    if s and s[0] is c:
                        s.pop(0)
                    elif c in s:
                        s.remove(c)
            self._mro = out
        return self._mro

    def find_method(self, name, after=None):
        mro = self.mro()
        if after is not None:
            if after not in mro:
                return None
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def issubclass(self, other):
        return other in self.mro()

    def all_fields(self):
        out = []
        for c in reversed(self.mro()):
            for f in c.field_order:
                if f not in out:
                    out.append(f)
        return out

    def annotation(self, name):
        for c in self.mro():
            if name in c.annots:
                return c.annots[name], c.module
        return None

    def class_attr(self, name):
        for c in self.mro():
            if name in c.class_attrs:
                return c.class_attrs[name], c
        return None


class Ext:
    """An external (non-project) dotted name."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<X {self.name}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Global:
    def __init__(self, module, name, value):
        self.module, self.name, self.value = module, name, value


class Module:
    def __init__(self, project, name, path, relpath, is_pkg=False):
        self.project, self.name, self.path, self.relpath = project, name, path, relpath
        self.is_pkg = is_pkg
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = plainly(ast.parse(self.source, path))
        self.imports, self.classes, self.functions, self.globals = {}, {}, {}, {}
        self._scan(self.tree.body)

    def __repr__(self):
        return f"<M {self.name}>"

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = ("sym", base, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st, self)
                if not fi.has_deco("overload"):
                    self.functions[st.name] = fi
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.globals[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                self._scan(getattr(st, "orelse", []))
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)

    def resolve_name(self, name, _seen=None):
        if name in self.classes:
            return self.classes[name]
        if name in self.functions:
            return self.functions[name]
        if name in self.globals:
            return Global(self, name, self.globals[name])
        if name in self.imports:
            imp = self.imports[name]
            if imp[0] == "mod":
                m = self.project.modules.get(imp[1])
                return m if m is not None else Ext(imp[1])
            _, base, sym = imp
            m = self.project.modules.get(base)
            if m is not None:
                _seen = _seen or set()
                if (base, sym) in _seen:
                    return Ext(f"{base}.{sym}")
                _seen.add((base, sym))
                r = m.resolve_name(sym, _seen)
                if r is not None and not (isinstance(r, Ext) and "." not in r.name and r.name == sym):
                    return r
                sub = self.project.modules.get(f"{base}.{sym}")
                if sub is not None:
                    return sub
                return r or Ext(f"{base}.{sym}")
            sub = self.project.modules.get(f"{base}.{sym}")
            if sub is not None:
                return sub
            return Ext(f"{base}.{sym}")
        if hasattr(builtins, name):
            return Ext(name)
        return None

    def resolve_expr(self, e):
        """Resolve a Name/Attribute expression to a project entity or Ext."""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(e.value)
        if isinstance(e, ast.Name):
            return self.resolve_name(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value)
            if isinstance(b, Module):
                return b.resolve_name(e.attr) or self.project.modules.get(f"{b.name}.{e.attr}")
            if isinstance(b, ClassInfo):
                if e.attr in b.inner:
                    return b.inner[e.attr]
                return b.find_method(e.attr)
            if isinstance(b, Ext):
                full = f"{b.name}.{e.attr}"
                return self.project.modules.get(full) or Ext(full)
        return None


class Project:
    def __init__(self, src_root, package="megatron.energon", repo_root=None):
        self.src_root, self.package = src_root, package
        self.modules = {}
        pkg_dir = os.path.join(src_root, *package.split("."))
        if not os.path.isdir(pkg_dir):
            raise AnalysisBroken(f"package directory {pkg_dir} missing")
        repo_root = repo_root or os.path.dirname(src_root)
        for d, ds, fs in os.walk(pkg_dir):
            ds.sort()
            if "__pycache__" in ds:
                ds.remove("__pycache__")
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, src_root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                if is_pkg:
                    rel = rel[: -len(".__init__")]
                self.modules[rel] = Module(self, rel, p, os.path.relpath(p, repo_root), is_pkg)
        self._classes = None
        self._attr_types = {}

    def classes(self):
        if self._classes is None:
            self._classes = []
            for m in self.modules.values():
                for c in m.classes.values():
                    self._classes.append(c)
                    self._classes.extend(c.inner.values())
        return self._classes

    def cls(self, name, must=True):
        cs = [c for c in self.classes() if c.name == name]
        if len(cs) > 1:
            raise AnalysisBroken(f"class {name} ambiguous")
        if not cs:
            if must:
                raise AnalysisBroken(f"anchor class {name} not found")
            return None
        return cs[0]

    def func(self, module, name, must=True):
        m = self.modules.get(f"{self.package}.{module}" if module else self.package)
        f = m.functions.get(name) if m else None
        if f is None and must:
            # the function may have moved: search it everywhere
            c = [mm.functions[name] for mm in self.modules.values() if name in mm.functions]
            if len(c) == 1:
                return c[0]
            raise AnalysisBroken(f"anchor function {module}.{name} not found")
        return f

    def method(self, cls, name, must=True):
        c = self.cls(cls) if isinstance(cls, str) else cls
        f = c.find_method(name)
        if f is None and must:
            raise AnalysisBroken(f"anchor method {cls}.{name} not found")
        return f

    def subclasses(self, base, strict=True):
        return [c for c in self.classes()
                if c.issubclass(base) and (c is not base or not strict)]

    def all_functions(self):
        """Every FuncInfo: module functions, methods, nested functions."""
        out = []

        def nested(fi):
            for n in walk_own(fi.node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    g = FuncInfo(n, fi.module, None, fi)
                    g.self_cls = getattr(fi, "self_cls", None) or fi.cls
                    out.append(g)
                    nested(g)

        for m in self.modules.values():
            for f in m.functions.values():
                out.append(f)
                nested(f)
            for c in list(m.classes.values()):
                for cc in [c] + list(c.inner.values()):
                    for f in cc.methods.values():
                        out.append(f)
                        nested(f)
        return out

    # ---- types -------------------------------------------------------
    def type_of_annotation(self, ann, module):
        """-> ('cls', C) | ('list', T) | ('dict', T) | ('callable',) | ('ext', name) | None"""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.type_of_annotation(ast.parse(ann.value, mode="eval").body, module)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            for s in (ann.left, ann.right):
                t = self.type_of_annotation(s, module)
                if t:
                    return t
            return None
        if isinstance(ann, ast.Subscript):
            n = (dotted(ann.value) or "").split(".")[-1]
            args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if n == "Optional":
                return self.type_of_annotation(args[0], module)
            if n == "Union":
                for a in args:
                    t = self.type_of_annotation(a, module)
                    if t:
                        return t
                return None
            if n in ("List", "list", "Sequence", "Iterable", "Iterator", "Set", "set", "Generator", "FrozenSet"):
                return ("list", self.type_of_annotation(args[0], module))
            if n in ("Tuple", "tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ("list", self.type_of_annotation(args[0], module))
                return ("tuple", tuple(self.type_of_annotation(a, module) for a in args))
            if n in ("Dict", "dict", "Mapping"):
                return ("dict", self.type_of_annotation(args[1], module) if len(args) > 1 else None)
            if n in ("Callable",):
                return ("callable",)
            if n in ("Type", "type"):
                return None
            if n in ("ClassVar", "Final"):
                return self.type_of_annotation(args[0], module)
            return self.type_of_annotation(ann.value, module)
        r = module.resolve_expr(ann)
        if isinstance(r, ClassInfo):
            return ("cls", r)
        if isinstance(r, Ext):
            if r.name.split(".")[-1] == "Callable":
                return ("callable",)
            if r.name in ("typing.Any", "Any", "None"):
                return None
            return ("ext", r.name)
        return None

    def attr_type(self, cls, name):
        """Type of attribute `name` on instances of cls."""
        k = (cls.qualname, name)
        if k in self._attr_types:
            return self._attr_types[k]
        self._attr_types[k] = None
        t = None
        a = cls.annotation(name)
        if a is not None:
            t = self.type_of_annotation(*a)
        if t is None or t[0] in ("ext",):
            for c in cls.mro():
                for m in c.methods.values():
                    for n in walk_own(m.node):
                        tgt = val = ann = None
                        if isinstance(n, ast.Assign) and len(n.targets) == 1:
                            tgt, val = n.targets[0], n.value
                        elif isinstance(n, ast.AnnAssign):
                            tgt, val, ann = n.target, n.value, n.annotation
                        if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name)
                                and tgt.value.id == "self" and tgt.attr == name):
                            continue
                        tt = self.type_of_annotation(ann, c.module) if ann is not None else None
                        if tt is None and val is not None:
                            tt = self._expr_type(val, m, c)
                        if tt is not None and t is None:
                            t = tt
        self._attr_types[k] = t
        return t

    def _expr_type(self, e, fn, cls):
        if isinstance(e, ast.Call):
            r = fn.module.resolve_expr(e.func)
            if isinstance(r, ClassInfo):
                return ("cls", r)
            if isinstance(r, FuncInfo) and getattr(r.node, "returns", None) is not None:
                return self.type_of_annotation(r.node.returns, r.module)
        if isinstance(e, ast.Name):
            for p in fn.all_params():
                if p.arg == e.id and p.annotation is not None:
                    return self.type_of_annotation(p.annotation, fn.module)
        if isinstance(e, (ast.ListComp,)):
            return ("list", self._expr_type(e.elt, fn, cls))
        return None
