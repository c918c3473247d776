"""
Front end: parses the repository's Python sources, resolves imports (including
re-exports and relative imports), classes, MRO, dataclass fields, enums,
module-level constants and annotations.  Nothing is imported or executed.
"""
import ast
import os


class FuncInfo:
    def __init__(self, qual, node, module, cls=None, env=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls  # ClassInfo
        self.env = env  # closure environment (for nested functions)
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = [deco_name(d) for d in getattr(node, "decorator_list", [])]
        self.is_static = "staticmethod" in self.decorators
        self.is_class = "classmethod" in self.decorators
        self.is_property = "property" in self.decorators or any(
            d and d.endswith("cached_property") for d in self.decorators
        )
        self.is_abstract = any(d and d.endswith("abstractmethod") for d in self.decorators)
        self.is_setter = any(d and d.endswith(".setter") for d in self.decorators)
        self._gen = None

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = False
            if not isinstance(self.node, ast.Lambda):
                for n in walk_own(self.node):
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        self._gen = True
        return self._gen

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args], a.vararg and a.vararg.arg, [p.arg for p in a.kwonlyargs], a.kwarg and a.kwarg.arg

    def annotation(self, name):
        a = self.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg == name:
                return p.annotation
        return None

    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno} {self.qual}"


def walk_own(fn):
    """walk a function body without entering nested functions/classes"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    try:
        return ast.unparse(d)
    except Exception:
        return None


class ClassInfo:
    def __init__(self, qual, node, module, env=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.env = env
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.assigns = {}  # class attribute -> expr
        self.ann = {}  # annotated names, ordered: name -> (annotation, default expr or None)
        self.is_dataclass = False
        self.dc_kw = {}
        for d in node.decorator_list:
            n = deco_name(d)
            if n and n.split(".")[-1] == "dataclass":
                self.is_dataclass = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if isinstance(k.value, ast.Constant):
                            self.dc_kw[k.arg] = k.value.value
        self.decorators = [deco_name(d) for d in node.decorator_list]
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(qual + "." + s.name, s, module, self, env)
                if f.is_setter:
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.ann[s.target.id] = (s.annotation, s.value)
                if s.value is not None:
                    self.assigns[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                v = s.value
                if isinstance(v, ast.Lambda):
                    v = ast.copy_location(ast.FunctionDef(
                        name="<lambda>", args=v.args, body=[ast.copy_location(ast.Return(value=v.body), v)],
                        decorator_list=[], returns=None, type_comment=None, type_params=[]), v)
                elif isinstance(v, ast.Name) and v.id in self.methods:
                    v = self.methods[v.id]
                for t in s.targets:
                    if not isinstance(t, ast.Name):
                        continue
                    if isinstance(v, FuncInfo):
                        self.methods[t.id] = v
                        self.assigns.pop(t.id, None)
                    elif isinstance(v, ast.FunctionDef):
                        self.methods[t.id] = FuncInfo(qual + "." + t.id, v, module, self, env)
                        self.assigns.pop(t.id, None)
                    else:
                        self.assigns[t.id] = v
                        self.methods.pop(t.id, None)
        self.bases = None
        self._mro = None

    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno} {self.qual}"


class ModuleInfo:
    def __init__(self, name, path, relpath, tree, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.is_pkg = is_pkg
        self.bind = {}  # name -> entity


class Program:
    def __init__(self, repo="/repo", extra=(), src="src", overlay=None):
        self.repo = repo
        self.overlay = overlay or {}
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.failed = []
        root = os.path.join(repo, src)
        for dp, dn, fn in os.walk(os.path.join(root, "andromede")):
            dn[:] = sorted(d for d in dn if d not in ("__pycache__", "antlr"))
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace(os.sep, ".")
                    is_pkg = name.endswith(".__init__")
                    if is_pkg:
                        name = name[: -len(".__init__")]
                    self._load(name, p, os.path.relpath(p, repo), is_pkg)
        for name, p in extra:
            self._load(name, p, os.path.basename(p), False)
        for m in list(self.modules.values()):
            self._bind(m)
        self._subs = None
        self.recursive = None

    def _load(self, name, path, rel, is_pkg):
        text = self.overlay.get(rel)
        if text is None:
            with open(path, encoding="utf-8") as fh:
                text = fh.read()
        tree = text if isinstance(text, ast.AST) else ast.parse(text, path)
        self.modules[name] = ModuleInfo(name, path, rel, tree, is_pkg)

    def _bind(self, m):
        self._bind_body(m, m.tree.body)

    def _bind_body(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.bind[a.asname] = ("mod", a.name)
                    else:
                        m.bind[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == "*":
                        m.bind.setdefault("*", []).append(base)
                    else:
                        m.bind[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = m.name + "." + s.name
                f = FuncInfo(q, s, m)
                self.funcs[q] = f
                m.bind[s.name] = ("func", q)
            elif isinstance(s, ast.ClassDef):
                q = m.name + "." + s.name
                c = ClassInfo(q, s, m)
                self.classes[q] = c
                m.bind[s.name] = ("class", q)
                self._nested(m, q, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.bind[t.id] = ("var", m.name, t.id, s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                m.bind[s.target.id] = ("var", m.name, s.target.id, s.value)
            elif isinstance(s, ast.If):
                self._bind_body(m, s.body)
                self._bind_body(m, s.orelse)
            elif isinstance(s, ast.Try):
                self._bind_body(m, s.body)

    def _nested(self, m, q, s):
        for x in s.body:
            if isinstance(x, ast.ClassDef) and x.name != "Config":
                self.classes[q + "." + x.name] = ClassInfo(q + "." + x.name, x, m)
                self._nested(m, q + "." + x.name, x)

    # ---- name resolution -------------------------------------------------
    def constructed(self):
        """names called anywhere in the repository's source (instantiation candidates)"""
        r = getattr(self, "_constructed", None)
        if r is None:
            r = set()
            for mn, m in self.modules.items():
                if mn.startswith("spec_"):
                    continue
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call):
                        e = self.resolve_dotted(m, n.func)
                        if e and e[0] == "class":
                            r.add(e[1])
            self._constructed = r
        return r

    def resolve(self, mod, name, seen=None):
        """entity bound to a module-level name: ('class',q) ('func',q) ('mod',n)
        ('ext',dotted) ('var',mod,name,expr) or None"""
        if isinstance(mod, str):
            mod = self.modules.get(mod)
        if mod is None:
            return None
        seen = seen or set()
        if (mod.name, name) in seen:
            return None
        seen.add((mod.name, name))
        e = mod.bind.get(name)
        if e is None:
            for base in mod.bind.get("*", []):
                if base in self.modules:
                    r = self.resolve(base, name, seen)
                    if r is not None:
                        return r
            # submodule of a package
            sub = mod.name + "." + name
            if sub in self.modules:
                return ("mod", sub)
            return None
        if e[0] == "from":
            base, n = e[1], e[2]
            if base in self.modules:
                r = self.resolve(base, n, seen)
                if r is not None:
                    return r
                if base + "." + n in self.modules:
                    return ("mod", base + "." + n)
                return ("ext", base + "." + n)
            return ("ext", base + "." + n)
        if e[0] == "mod":
            return e if e[1].split(".")[0] == "andromede" else ("ext", e[1])
        return e

    def resolve_dotted(self, mod, expr):
        """resolve Name / Attribute chains to an entity"""
        if isinstance(expr, ast.Name):
            return self.resolve(mod, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_dotted(mod, expr.value)
            if b is None:
                return None
            if b[0] == "mod":
                r = self.resolve(b[1], expr.attr) if b[1] in self.modules else None
                if r is None:
                    sub = b[1] + "." + expr.attr
                    if sub in self.modules:
                        return ("mod", sub)
                return r
            if b[0] == "ext":
                return ("ext", b[1] + "." + expr.attr)
            if b[0] == "class" and b[1] + "." + expr.attr in self.classes:
                return ("class", b[1] + "." + expr.attr)
            if b[0] == "class":
                return ("clsattr", b[1], expr.attr)
        return None

    # ---- classes ----------------------------------------------------------
    def bases(self, ci):
        if ci.bases is None:
            out = []
            for b in ci.node.bases:
                x = b.value if isinstance(b, ast.Subscript) else b
                e = self.resolve_dotted(ci.module, x)
                if e and e[0] == "class":
                    out.append(self.classes[e[1]])
                elif e and e[0] == "ext":
                    out.append(e[1])
                elif isinstance(x, ast.Name):
                    out.append(x.id)
            ci.bases = out
        return ci.bases

    def mro(self, ci):
        if ci._mro is None:
            seqs = []
            for b in self.bases(ci):
                if isinstance(b, ClassInfo):
                    seqs.append(list(self.mro(b)))
            seqs.append([b for b in self.bases(ci) if isinstance(b, ClassInfo)])
            res = [ci]
            while any(seqs):
                for s in seqs:
                    if not s:
                        continue
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = next(s[0] for s in seqs if s)
                res.append(c)
                for s in seqs:
                    if s and s[0] is c:
                        s.pop(0)
                    elif c in s:
                        s.remove(c)
            ci._mro = res
        return ci._mro

    def ext_bases(self, ci):
        out = set()
        for c in self.mro(ci):
            for b in self.bases(c):
                if isinstance(b, str):
                    out.add(b)
        return out

    def is_enum(self, ci):
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for b in self.ext_bases(ci))

    def is_pydantic(self, ci):
        return any(b.split(".")[-1] == "BaseModel" for b in self.ext_bases(ci))

    def is_frozen(self, ci):
        return ci.is_dataclass and bool(ci.dc_kw.get("frozen"))

    def is_value_class(self, ci):
        """instances immutable (frozen dataclass all the way / no fields)"""
        if self.is_frozen(ci):
            return True
        if ci.is_dataclass:
            return False
        # class without instance state
        for c in self.mro(ci):
            if "__init__" in c.methods or c.ann:
                return False
            if c.is_dataclass and not self.is_frozen(c):
                return False
        return not self.is_pydantic(ci)

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_assign(self, ci, name):
        for c in self.mro(ci):
            if name in c.assigns:
                return c, c.assigns[name]
        return None

    def fields(self, ci):
        """ordered dataclass/pydantic fields: list of (name, annotation, default, owner)"""
        order = {}
        for c in reversed(self.mro(ci)):
            if c.is_dataclass or self.is_pydantic(c):
                for n, (a, d) in c.ann.items():
                    if "ClassVar" in ast.unparse(a):
                        continue
                    order[n] = (n, a, d, c)
        return list(order.values())

    def subclasses(self, qual):
        if self._subs is None:
            self._subs = {}
            for c in self.classes.values():
                for b in self.mro(c)[1:]:
                    self._subs.setdefault(b.qual, []).append(c.qual)
        return self._subs.get(qual, [])

    def is_subclass(self, q1, q2):
        c = self.classes.get(q1)
        if c is None:
            return False
        return any(b.qual == q2 for b in self.mro(c))

    # ---- types ------------------------------------------------------------
    def type_of_ann(self, mod, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return ("none",)
            if isinstance(ann.value, str):
                try:
                    return self.type_of_ann(mod, ast.parse(ann.value, mode="eval").body)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return mk_union([self.type_of_ann(mod, ann.left), self.type_of_ann(mod, ann.right)])
        if isinstance(ann, ast.Subscript):
            base = ast.unparse(ann.value).split(".")[-1]
            args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if base in ("List", "list", "Sequence", "Iterable", "Iterator", "Collection", "Generator", "KeysView", "ValuesView"):
                return ("list", self.type_of_ann(mod, args[0]))
            if base in ("Set", "set", "FrozenSet", "frozenset"):
                return ("set", self.type_of_ann(mod, args[0]))
            if base in ("Dict", "dict", "Mapping", "MutableMapping", "defaultdict", "DefaultDict", "OrderedDict"):
                return ("dict", self.type_of_ann(mod, args[0]), self.type_of_ann(mod, args[1]) if len(args) > 1 else None)
            if base == "Optional":
                return mk_union([self.type_of_ann(mod, args[0]), ("none",)])
            if base == "Union":
                return mk_union([self.type_of_ann(mod, a) for a in args])
            if base in ("Tuple", "tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ("list", self.type_of_ann(mod, args[0]))
                return ("tuple", tuple(self.type_of_ann(mod, a) for a in args))
            if base == "Callable":
                return ("fn", self.type_of_ann(mod, args[1]) if len(args) > 1 else None)
            if base == "Type":
                return ("type", self.type_of_ann(mod, args[0]))
            if base in ("Final", "Annotated", "ClassVar"):
                return self.type_of_ann(mod, args[0])
            e = self.resolve_dotted(mod, ann.value)
            if e and e[0] == "class":
                return ("c", e[1])
            if e and e[0] == "var" and e[3] is not None:
                return self.type_of_ann(self.modules[e[1]], e[3])
            return None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            n = ast.unparse(ann)
            if n in ("int", "float", "str", "bool", "bytes", "object", "complex"):
                return ("prim", n)
            if n in ("list", "List", "Iterable", "Sequence"):
                return ("list", None)
            if n in ("dict", "Dict"):
                return ("dict", None, None)
            if n in ("set", "Set"):
                return ("set", None)
            if n in ("Any", "typing.Any"):
                return None
            e = self.resolve_dotted(mod, ann)
            if e is None:
                return None
            if e[0] == "class":
                return ("c", e[1])
            if e[0] == "ext":
                if e[1].startswith("typing."):
                    return None
                return ("ext", e[1])
            if e[0] == "var" and e[3] is not None:
                v = e[3]
                if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "TypeVar":
                    for k in v.keywords:
                        if k.arg == "bound":
                            return self.type_of_ann(self.modules[e[1]], k.value)
                    return None
                return self.type_of_ann(self.modules[e[1]], v)
        return None


def mk_union(ts):
    out = []
    for t in ts:
        if t is None:
            return None if ("none",) not in ts else ("u", (None, ("none",)))
        if t[0] == "u":
            out.extend(x for x in t[1] if x not in out)
        elif t not in out:
            out.append(t)
    if len(out) == 1:
        return out[0]
    return ("u", tuple(out))


def strip_none(t):
    if t and t[0] == "u":
        r = [x for x in t[1] if x != ("none",)]
        if len(r) == 1:
            return r[0]
        return ("u", tuple(r))
    return t


def maybe_none(t):
    return t is None or t == ("none",) or (t[0] == "u" and any(x is None or x == ("none",) for x in t[1]))
