"""Functions whose results are remembered, and the mutable state they read"""
import ast

MUTATORS = {"append", "add", "update", "pop", "setdefault", "clear", "extend", "insert", "remove", "discard", "popitem", "sort", "reverse", "appendleft"}
CTORS = {"__init__", "__post_init__", "__new__", "__set_name__"}
CACHING = {"lru_cache", "cache", "cached_property", "memoize", "memoized", "cached"}


def is_cached(fi):
    return any(d and d.split(".")[-1] in CACHING for d in fi.decorators)


PURE = {"sum", "len", "min", "max", "abs", "all", "any", "sorted", "zip", "enumerate", "range", "isinstance", "list", "tuple", "set", "dict", "str", "int", "float", "bool", "round", "fsum", "isclose",
        "keys", "values", "items", "get"}


def plainly_pure(fi):
    """computes a value from what it is given, by itself and functions known to do only that; no assignment but to local names, no raise"""
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.Raise, ast.Assert, ast.Yield, ast.YieldFrom, ast.Await, ast.Delete, ast.Global, ast.Nonlocal, ast.With)):
            return False
        if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if name not in PURE and name != fi.name:
                return False
    return True


def attribute(n):
    """X of o.X, o.X[...], o.X[...][...]"""
    while isinstance(n, ast.Subscript):
        n = n.value
    return n if isinstance(n, ast.Attribute) else None


def written(node):
    """(receiver expression, attribute) written by the statements below node"""
    for n in ast.walk(node):
        ts = []
        if isinstance(n, ast.Assign):
            ts = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            ts = [n.target]
        elif isinstance(n, ast.Delete):
            ts = n.targets
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            ts = [n.func.value]
            if attribute(ts[0]) is None:
                continue
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            ts = [n.target]
        todo = list(ts)
        while todo:
            t = todo.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                todo.extend(t.elts)
                continue
            a = attribute(t)
            if a is not None:
                yield a.value, a.attr


def family(P, ci):
    return list(P.mro(ci)) + [P.classes[q] for q in P.subclasses(ci.qual) if q != ci.qual and q in P.classes]


def changed_by(P, ci, attr):
    """a method, other than a constructor, through which the attribute of an instance changes"""
    for c in family(P, ci):
        for m in list(c.methods.values()) + list(c.setters.values()):
            if m.name in CTORS or not m.node.args.args or isinstance(m.node, ast.Lambda):
                continue
            me = m.node.args.args[0].arg
            for r, a in written(m.node):
                if a == attr and isinstance(r, ast.Name) and r.id == me:
                    return m
    return None


def reads(P, fi, seen=None):
    """(class, attribute) read by a function on its annotated arguments, through methods of the same object"""
    seen = set() if seen is None else seen
    if fi.qual in seen or len(seen) > 40:
        return
    seen.add(fi.qual)
    owner = {}
    args = fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs
    for i, p in enumerate(args):
        if i == 0 and fi.cls is not None and not fi.is_static and not fi.is_class:
            owner[p.arg] = fi.cls
        elif p.annotation is not None:
            t = P.type_of_ann(fi.module, p.annotation)
            if t and t[0] == "opt":
                t = t[1]
            if t and t[0] == "c" and t[1] in P.classes:
                owner[p.arg] = P.classes[t[1]]
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in owner and isinstance(n.ctx, ast.Load):
            c = owner[n.value.id]
            m = P.find_method(c, n.attr)
            if m is not None:
                yield from reads(P, m, seen)
            else:
                yield c, n.attr


def stale(P, fi):
    """(attribute, changing method) when a remembered result may be out of date, else None"""
    if not is_cached(fi):
        return None
    for c, a in reads(P, fi):
        m = changed_by(P, c, a)
        if m is not None:
            return c, a, m
    return None


# ---------------------------------------------------------------- hand-written memos
class Fn:
    def __init__(self, node, qual, outer, cls):
        self.node, self.qual, self.outer, self.cls = node, qual, outer, cls
        self.own = list(own_nodes(node))

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs] + [p.arg for p in (a.vararg, a.kwarg) if p]


def own_nodes(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def functions(P):
    out = []

    def go(body, qual, outer, cls, mod):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(s, qual + "." + s.name, outer, cls)
                f.module = mod
                out.append(f)
                go(s.body, f.qual, outer + [f], None, mod)
            elif isinstance(s, ast.ClassDef):
                go(s.body, qual + "." + s.name, outer, s, mod)
            else:
                for k in ("body", "orelse", "finalbody"):
                    go([x for x in getattr(s, k, []) or [] if isinstance(x, ast.stmt)], qual, outer, cls, mod)
                for h in getattr(s, "handlers", []) or []:
                    go(h.body, qual, outer, cls, mod)
    for mn, m in sorted(P.modules.items()):
        if mn.startswith("andromede"):
            go(m.tree.body, mn, [], None, m)
    return out


def empty_dict(e):
    return isinstance(e, ast.Dict) and not e.keys or isinstance(e, ast.Call) and ast.unparse(e.func) == "dict" and not e.args and not e.keywords


def is_none(e):
    return isinstance(e, ast.Constant) and e.value is None


def targets(n):
    if isinstance(n, ast.Assign):
        return [(t, n.value) for t in n.targets]
    if isinstance(n, ast.AnnAssign) and n.value is not None:
        return [(n.target, n.value)]
    return []


def dependencies(f, e, skip=()):
    """names a local expression depends on, through the assignments of the function"""
    defs = {}
    for n in f.own:
        ts = list(targets(n))
        if isinstance(n, ast.AugAssign):
            ts = [(n.target, n.value)]
        elif isinstance(n, (ast.For, ast.comprehension)):
            ts = [(n.target, n.iter)]
        elif isinstance(n, ast.NamedExpr):
            ts = [(n.target, n.value)]
        for t, v in ts:
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    defs.setdefault(x.id, []).append(v)
    seen, uses, todo = set(), [], [e]
    while todo:
        x = todo.pop()
        for n in ast.walk(x):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                uses.append((n.value.id, ast.unparse(n)))
            if isinstance(n, ast.Name) and n.id not in seen and n.id not in skip:
                seen.add(n.id)
                todo.extend(defs.get(n.id, []))
    whole = set()
    return seen, uses, whole


def local_value(f, e):
    """definition of a name bound once in the function"""
    if isinstance(e, ast.Name):
        vs = [v for n in f.own for t, v in targets(n) if isinstance(t, ast.Name) and t.id == e.id]
        if len(vs) == 1:
            return vs[0]
    return e


class Memo:
    def __init__(self, kind, where, name, fn, missing):
        self.kind, self.where, self.name, self.fn, self.missing = kind, where, name, fn, missing


def base_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def check(f, same, receiver):
    """`same(e)`: does the expression denote the remembered container?  None: not a memo; set(): sound; names: what the key leaves out"""
    keys, tested, values = [], False, []
    for n in f.own:
        for t, v in targets(n):
            if isinstance(t, ast.Subscript) and same(t.value):
                keys.append(t.slice)
                values.append(v)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and same(n.comparators[0]):
            tested = True
            keys.append(n.left)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and same(n.func.value):
            if n.func.attr == "get" and n.args:
                tested = True
                keys.append(n.args[0])
            elif n.func.attr == "setdefault" and len(n.args) == 2:
                tested = True
                keys.append(n.args[0])
                values.append(n.args[1])
            elif n.func.attr not in ("clear",):
                return None
        if isinstance(n, ast.Try) and any("KeyError" in ast.unparse(h.type) for h in n.handlers if h.type) and any(
                isinstance(x, ast.Subscript) and same(x.value) for s in n.body for x in ast.walk(s)):
            tested = True
        if isinstance(n, ast.Subscript) and same(n.value) and isinstance(n.ctx, ast.Load):
            keys.append(n.slice)
    if not tested or not values or not keys:
        return None
    ks = {ast.unparse(local_value(f, k)) for k in keys}
    if len(ks) != 1:
        return None
    key = local_value(f, keys[0])
    parts = key.elts if isinstance(key, ast.Tuple) else [key]
    given = {x.id for x in parts if isinstance(x, ast.Name)}
    texts = {ast.unparse(x) for x in parts}
    mentioned = {x.id for x in ast.walk(key) if isinstance(x, ast.Name)}
    missing = set()
    for v in values:
        # the stored value must not be computed from the container itself
        names, uses, _ = dependencies(f, v)
        for p in f.params():
            if p not in names or p in given or p == receiver:
                continue
            us = {t for n, t in uses if n == p}
            if us and us <= texts and not any(isinstance(x, ast.Name) and x.id == p and not any(isinstance(y, ast.Attribute) and y.value is x for y in f.own)
                                              for y0 in [v] for x in ast.walk(y0)):
                continue
            if p in mentioned:
                return None      # part of the key: whether it is enough is not decided here
            missing.add(p)
    return missing


def stateless(P, f):
    c = f.cls
    if c is None:
        return True
    if any(isinstance(s, ast.AnnAssign) for s in c.body):
        return False
    return not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self" for n in ast.walk(c))


def memos(P):
    r = getattr(P, "_memos", None)
    if r is not None:
        return r
    P._memos = r = []
    fns = functions(P)
    # attributes
    levels = {}
    for m in P.modules.values():
        if m.name.startswith("andromede"):
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    for s in n.body:
                        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                            levels.setdefault(s.target.id, []).append(("ann", s.value))
                        elif isinstance(s, ast.Assign):
                            for t in s.targets:
                                if isinstance(t, ast.Name):
                                    levels.setdefault(t.id, []).append(("plain", s.value))
    sites = {}
    for f in fns:
        for n in f.own:
            if isinstance(n, ast.Attribute):
                sites.setdefault(n.attr, {}).setdefault(f.qual, (f, []))[1].append(n)
    for x, by in sorted(sites.items()):
        init, users, lazy = False, [], False
        good = True
        if sum(1 for f, _ in by.values() if f.node.name not in CTORS) > 6:
            continue
        for q, (f, ns) in by.items():
            ctor = f.node.name in CTORS
            st = [(t, v) for n in f.own for t, v in targets(n) if isinstance(t, ast.Attribute) and t.attr == x]
            if ctor:
                if len(st) == len(ns) and st and all(empty_dict(v) for _, v in st):
                    init = True
                elif len(st) == len(ns) and st and all(is_none(v) for _, v in st):
                    init = lazy = True
                else:
                    good = False
            elif st and len(st) == len(ns) and all(empty_dict(v) or is_none(v) for _, v in st):
                pass        # forgetting
            else:
                users.append(f)
        for how, v in levels.get(x, ()):
            t = ast.unparse(v)
            if empty_dict(v) or how == "ann" and "default_factory=dict" in t and "init=False" in t:
                init = True
            elif how == "ann" and "init=False" in t and "default=None" in t:
                init = lazy = True
            else:
                good = False
        if not good or not init or len(users) != 1:
            continue
        f = users[0]
        rs = {ast.unparse(n.value) for n in by[f.qual][1]}
        if len(rs) != 1:
            continue
        rec = base_name(by[f.qual][1][0].value)
        if lazy:
            if x in [a for _, (g, ns) in by.items() if g is f for a in ()]:
                continue
            st = [(t, v) for n in f.own for t, v in targets(n) if isinstance(t, ast.Attribute) and t.attr == x]
            test = any(isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and is_none(n.comparators[0]) and
                       isinstance(n.left, ast.Attribute) and n.left.attr == x for n in f.own)
            if st and test and all(not is_none(v) for _, v in st):
                miss = set()
                for _, v in st:
                    names, _, _ = dependencies(f, v)
                    miss |= {p for p in f.params() if p in names and p != rec}
                r.append(Memo("lazy", None, x, f, miss))
            continue
        miss = check(f, lambda e: isinstance(e, ast.Attribute) and e.attr == x, rec)
        if miss is not None:
            r.append(Memo("attr", None, x, f, miss))
    # module variables
    for mn, m in sorted(P.modules.items()):
        if not mn.startswith("andromede"):
            continue
        for s in m.tree.body:
            for t, v in targets(s):
                if isinstance(t, ast.Name) and empty_dict(v):
                    us = [f for f in fns if f.module is m and any(isinstance(n, ast.Name) and n.id == t.id for n in f.own)]
                    if len(us) != 1:
                        continue
                    miss = check(us[0], lambda e: isinstance(e, ast.Name) and e.id == t.id, None)
                    if miss is not None:
                        if "self" in miss and stateless(P, us[0]):
                            miss.discard("self")
                        free = {n.id for n in us[0].own if isinstance(n, ast.Name)}
                        for o in us[0].outer:
                            miss |= {p for p in o.params() if p in free}
                        r.append(Memo("glob", mn, t.id, us[0], miss))
    # variables of an enclosing function
    for f in fns:
        for n in f.own:
            for t, v in targets(n):
                if isinstance(t, ast.Name) and empty_dict(v):
                    us = [g for g in fns if f in g.outer and any(isinstance(y, ast.Name) and y.id == t.id for y in g.own)]
                    here = [y for y in f.own if isinstance(y, ast.Name) and y.id == t.id]
                    if len(us) != 1 or len(here) != 1:
                        continue
                    miss = check(us[0], lambda e: isinstance(e, ast.Name) and e.id == t.id, None)
                    if miss is not None:
                        if "self" in miss and (stateless(P, us[0])):
                            miss.discard("self")
                        r.append(Memo("closure", f.qual, t.id, us[0], miss))
    # what was remembered of an object that changes
    for m in r:
        if m.kind in ("attr", "lazy") and m.fn.cls is not None and not m.missing:
            ci = P.classes.get(m.fn.qual.rsplit(".", 1)[0])
            fi = ci and ci.methods.get(m.fn.node.name)
            if fi is not None:
                for c, a in reads(P, fi):
                    w = changed_by(P, c, a)
                    if a != m.name and w is not None and w.node is not fi.node and not any(at == m.name for _, at in written(w.node)):
                        m.missing = {f"{c.name}.{a}, changed by {w.qual}"}
    return r


def sound(P):
    """names of the containers that may be taken as empty: (attributes, lazy attributes, module variables)"""
    s = getattr(P, "_sound_memos", None)
    if s is None:
        ms = [m for m in memos(P) if not m.missing]
        s = P._sound_memos = ({m.name for m in ms if m.kind == "attr"}, {m.name for m in ms if m.kind == "lazy"}, {(m.where, m.name) for m in ms if m.kind == "glob"})
    return s


def unsound(P):
    s = getattr(P, "_unsound_memos", None)
    if s is None:
        s = P._unsound_memos = {id(m.fn.node): m for m in memos(P) if m.missing}
    return s
