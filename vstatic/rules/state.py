"""No state is shared between objects or calls behind the caller's back: remembered results do not read what can change,
default arguments and class attributes are not modified."""
import ast

from .. import memo

RULE = "shared-state"
CONTAINERS = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)


def container(e):
    return isinstance(e, CONTAINERS) or isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] in ("list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter")


def rebound(fn, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(fn))


def modified(fn, name):
    """statement of the function that changes the object bound to a local name"""
    for n in ast.walk(fn):
        ts = []
        if isinstance(n, ast.Assign):
            ts = [t for t in n.targets if isinstance(t, ast.Subscript)]
        elif isinstance(n, ast.AugAssign):
            ts = [n.target]
        elif isinstance(n, ast.Delete):
            ts = [t for t in n.targets if isinstance(t, ast.Subscript)]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in memo.MUTATORS:
            ts = [n.func.value]
        for t in ts:
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Name) and t.id == name:
                return n
    return None


def in_place(P, ci, name):
    """a function through which the object held in the attribute changes: a method, or any function of the module that names the attribute"""
    own = {id(m.node) for c in memo.family(P, ci) for m in c.methods.values()}
    for fi in list(P.funcs.values()) + [m for c in P.classes.values() for m in c.methods.values()]:
        if isinstance(fi.node, ast.Lambda) or id(fi.node) not in own and fi.module is not ci.module:
            continue
        for n in ast.walk(fi.node):
            ts = []
            if isinstance(n, (ast.Assign, ast.Delete)):
                ts = [t for t in n.targets if isinstance(t, ast.Subscript)]
            elif isinstance(n, ast.AugAssign):
                ts = [n.target]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in memo.MUTATORS:
                ts = [n.func.value]
            for t in ts:
                while isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(t, ast.Attribute) and t.attr == name:
                    return fi
    return None


def shared_source(P, fi, ci, e, defaults):
    """what the expression denotes when it is one object for all: a module or class level container, a default argument"""
    if isinstance(e, ast.BoolOp):
        return next((x for x in (shared_source(P, fi, ci, y, defaults) for y in e.values) if x), None)
    if isinstance(e, ast.IfExp):
        return shared_source(P, fi, ci, e.body, defaults) or shared_source(P, fi, ci, e.orelse, defaults)
    if isinstance(e, ast.Name):
        if fi is not None:
            params = {p.arg for p in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs}
            if e.id in defaults and not rebound(fi.node, e.id):
                return "the default value of " + e.id
            if e.id in params or rebound(fi.node, e.id):
                return None
        for n in ci.module.tree.body:
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []
            if any(isinstance(t, ast.Name) and t.id == e.id for t in ts) and container(n.value):
                return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        c = next((c for c in P.mro(ci) if c.name == e.value.id), None)
        if c is not None and e.attr in c.assigns and c.assigns[e.attr] is not None and container(c.assigns[e.attr]):
            return ast.unparse(e)
    return None


def held(P, ci):
    """(attribute, shared object) that a new instance is given"""
    for m in ci.methods.values():
        if m.name not in memo.CTORS or not m.node.args.args:
            continue
        me = m.node.args.args[0].arg
        a = m.node.args
        pos = a.posonlyargs + a.args
        defaults = {p.arg for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None] if container(d)}
        for n in ast.walk(m.node):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []
            for t in ts:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                    w = shared_source(P, m, ci, n.value, defaults)
                    if w:
                        yield t.attr, w, n.lineno
    for name, e in ci.assigns.items():
        if isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] in ("field", "Field"):
            for k in e.keywords:
                if k.arg == "default_factory" and isinstance(k.value, ast.Lambda):
                    w = shared_source(P, None, ci, k.value.body, ())
                    if w:
                        yield name, w, e.lineno


def run(P, rep, repo, thorough, scope=("andromede.",)):
    fns = dict(P.funcs)
    for c in P.classes.values():
        for m in list(c.methods.values()) + list(c.setters.values()):
            fns.setdefault(m.qual, m)
    for q in sorted(fns):
        fi = fns[q]
        if not q.startswith(scope) or isinstance(fi.node, ast.Lambda):
            continue
        if memo.is_cached(fi):
            s = memo.stale(P, fi)
            if s:
                c, a, m = s
                rep.bad(RULE, f"{q}: remembered", f"the remembered result of {q} reads {c.name}.{a}, which {m.qual} changes", fi.module.relpath, fi.node.lineno, [q, m.qual])
            else:
                rep.ok(RULE, f"{q}: remembered", [q])
        a = fi.node.args
        pos = a.posonlyargs + a.args
        ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in ds:
            if not container(d):
                continue
            at = modified(fi.node, p.arg)
            if at is not None and not (rebound(fi.node, p.arg) and not isinstance(at, ast.AugAssign)):
                rep.bad(RULE, f"{q}: default of {p.arg}", f"{q} changes the default value of its argument {p.arg}, which later calls receive", fi.module.relpath, at.lineno, [q])
            else:
                rep.ok(RULE, f"{q}: default of {p.arg}", [q])
    for m in memo.memos(P):
        if not m.fn.qual.startswith(scope):
            continue
        if m.missing:
            rep.bad(RULE, f"{m.fn.qual}: {m.name}", f"what {m.fn.qual} remembers in {m.name} also depends on {', '.join(sorted(m.missing))}", m.fn.module.relpath, m.fn.node.lineno, [m.fn.qual])
        else:
            rep.ok(RULE, f"{m.fn.qual}: {m.name}", [m.fn.qual])
    for q in sorted(P.classes):
        ci = P.classes[q]
        if not q.startswith(scope):
            continue
        rep.ok(RULE, f"{q}: class attributes", [q])
        for name, w, line in held(P, ci):
            m = in_place(P, ci, name)
            if m is not None:
                rep.bad(RULE, f"{q}.{name}", f"all instances of {ci.name} hold {w} as {name}, which {m.qual} changes", ci.module.relpath, line, [q, m.qual])
        if P.is_pydantic(ci):
            continue      # fields: every instance has its own copy
        own = {}
        for c in P.mro(ci):
            for m in c.methods.values():
                if m.name in memo.CTORS and m.node.args.args:
                    me = m.node.args.args[0].arg
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                            own[n.attr] = m
        for name, e in list(ci.assigns.items()):
            if e is None or not container(e) or name in own:
                continue
            if name in ci.ann and ci.is_dataclass and "ClassVar" not in ast.unparse(ci.ann[name][0]):
                continue      # refused when the class is made
            m = memo.changed_by(P, ci, name)
            if m is not None:
                # assigned as a whole: the instance then has its own
                whole = any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) for x in ci.methods.values() for n in ast.walk(x.node))
                if not whole:
                    rep.bad(RULE, f"{q}.{name}", f"all instances of {ci.name} share {name}, which {m.qual} changes", ci.module.relpath, ci.node.lineno, [q, m.qual])
