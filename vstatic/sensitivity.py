"""Mutation sensitivity of a property's obligations.

Small syntactic changes are made, in memory, to the repository functions that the obligations of a property
analysed; the obligations are decided again on the changed syntax tree.  Nothing is executed and no file is
written.  The result only describes how sharp the obligations are: it never influences the verdict.
"""
import ast
import copy
import os
import time

from .driver import Checker
from .registry import PROPS
from .run import isolated, missing_names

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr],
       ast.FloorDiv: [ast.Mod]}
LOGS = {"print", "logging", "warnings", "logger"}


def in_raise(path):
    return any(isinstance(p, (ast.Raise, ast.Assert)) for p in path)


def sites(fn):
    """(description, line, apply(copy-of-node-by-path)) for every small change in fn"""
    out = []
    params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
    locs = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    pool = [p for p in params if p not in ("self", "cls")]

    def add(path, desc, f):
        out.append((path, desc, f))

    def walk(node, path, anc):
        anc2 = anc + [node]
        if isinstance(node, (ast.Raise,)):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for o in CMP.get(type(node.ops[0]), []):
                add(path, f"compare {type(node.ops[0]).__name__}->{o.__name__}", lambda n, o=o: n.ops.__setitem__(0, o()))
        if isinstance(node, ast.BinOp):
            for o in BIN.get(type(node.op), []):
                add(path, f"operator {type(node.op).__name__}->{o.__name__}", lambda n, o=o: setattr(n, "op", o()))
            if isinstance(node.op, (ast.Sub, ast.Div, ast.Mod, ast.FloorDiv)):
                def sw(n):
                    n.left, n.right = n.right, n.left
                add(path, "operands swapped", sw)
        if isinstance(node, ast.BoolOp):
            add(path, "and<->or", lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for i in range(len(node.values)):
                add(path, f"operand {i} of boolean dropped", lambda n, i=i: n.values.pop(i) if len(n.values) > 2 else n.values.__setitem__(i, n.values[1 - i]))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            add(path, "unary operator dropped", lambda n: setattr(n, "op", ast.UAdd()) if isinstance(n.op, ast.USub) else "REPLACE:operand")
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                add(path, f"{v} negated", lambda n: setattr(n, "value", not n.value))
            elif isinstance(v, (int, float)):
                add(path, f"{v} -> {v + 1}", lambda n: setattr(n, "value", n.value + 1))
            elif isinstance(v, str) and v and not isinstance(anc[-1], (ast.Expr,)):
                add(path, f"string {v[:20]!r} changed", lambda n: setattr(n, "value", n.value + "x"))
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            add(path, "condition negated", lambda n: setattr(n, "test", ast.UnaryOp(op=ast.Not(), operand=n.test)))
        if isinstance(node, ast.IfExp):
            add(path, "always first branch", lambda n: setattr(n, "test", ast.Constant(True)))
            add(path, "always second branch", lambda n: setattr(n, "test", ast.Constant(False)))
        if isinstance(node, ast.If):
            add(path, "condition always true", lambda n: setattr(n, "test", ast.Constant(True)))
            add(path, "condition always false", lambda n: setattr(n, "test", ast.Constant(False)))
        if isinstance(node, ast.comprehension) and node.ifs:
            add(path, "filter dropped", lambda n: setattr(n, "ifs", []))
        if isinstance(node, ast.Call):
            if len(node.args) >= 2:
                for i in range(len(node.args) - 1):
                    if ast.dump(node.args[i]) != ast.dump(node.args[i + 1]):
                        def swp(n, i=i):
                            n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                        add(path, f"arguments {i},{i + 1} swapped", swp)
            kws = [k for k in node.keywords if k.arg]
            for i, k in enumerate(node.keywords):
                if k.arg:
                    add(path, f"keyword {k.arg} dropped", lambda n, i=i: n.keywords.pop(i))
            if isinstance(node.func, ast.Name) and node.func.id == "range" and len(node.args) == 2:
                add(path, "range end + 1", lambda n: n.args.__setitem__(1, ast.BinOp(n.args[1], ast.Add(), ast.Constant(1))))
            if isinstance(node.func, ast.Name) and node.func.id in ("min", "max", "all", "any"):
                r = {"min": "max", "max": "min", "all": "any", "any": "all"}[node.func.id]
                add(path, f"{node.func.id}->{r}", lambda n, r=r: setattr(n.func, "id", r))
        if isinstance(node, ast.Slice):
            if node.lower is not None:
                add(path, "slice start dropped", lambda n: setattr(n, "lower", None))
            if node.upper is not None:
                add(path, "slice end dropped", lambda n: setattr(n, "upper", None))
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in pool:
            for p in pool:
                if p != node.id:
                    add(path, f"{node.id} -> {p}", lambda n, p=p: setattr(n, "id", p))
                    break
        if isinstance(node, ast.Continue):
            add(path, "continue -> break", lambda n: "REPLACE_STMT:break")
        if isinstance(node, ast.Break):
            add(path, "break -> continue", lambda n: "REPLACE_STMT:continue")
        if isinstance(node, ast.Yield):
            pass
        for f, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        if isinstance(x, ast.stmt) and f in ("body", "orelse", "finalbody"):
                            stmt_sites(node, x, path, f, i, anc2)
                        walk(x, path + [(f, i)], anc2)
            elif isinstance(val, ast.AST) and f not in ("annotation", "returns", "ctx"):
                walk(val, path + [(f, None)], anc2)

    def stmt_sites(parent, st, path, f, i, anc):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            return
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            g = st.value.func
            nm = g.id if isinstance(g, ast.Name) else (g.value.id if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) else "")
            if nm in LOGS:
                return
        if isinstance(st, (ast.Expr, ast.AugAssign, ast.Raise, ast.Return)) or (
                isinstance(st, ast.Assign) and isinstance(st.targets[0], (ast.Attribute, ast.Subscript))) or isinstance(st, (ast.For, ast.If, ast.Assert, ast.Delete)):
            if isinstance(st, ast.Return) and f == "body" and isinstance(parent, ast.FunctionDef) and i == len(parent.body) - 1:
                pass
            add(path + [(f, i)], f"{type(st).__name__.lower()} removed", lambda n: "REPLACE_STMT:pass")
        if isinstance(st, ast.AugAssign):
            add(path + [(f, i)], "augmented -> plain assignment", lambda n: "AUG")
        if i + 1 < len(getattr(parent, f)) and isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(getattr(parent, f)[i + 1], (ast.Expr, ast.Assign, ast.AugAssign)):
            pass

    for i, st in enumerate(fn.body):
        stmt_sites(fn, st, [], "body", i, [fn])
        walk(st, [("body", i)], [fn])
    return out


def apply(tree, qualpath, path, f):
    """changed deep copy of module tree; qualpath: index path to the function"""
    t = copy.deepcopy(tree)
    node = t
    for k, i in qualpath:
        v = getattr(node, k)
        node = v if i is None else v[i]
    parent, last = None, None
    for k, i in path:
        parent, last = node, (k, i)
        v = getattr(node, k)
        node = v if i is None else v[i]
    line = getattr(node, "lineno", None)
    r = f(node)
    new = None
    if r == "REPLACE:operand":
        new = node.operand
    elif isinstance(r, str) and r.startswith("REPLACE_STMT:"):
        new = {"pass": ast.Pass, "break": ast.Break, "continue": ast.Continue}[r.split(":")[1]]()
    elif r == "AUG":
        new = ast.Assign(targets=[node.target], value=node.value)
    if new is not None:
        ast.copy_location(new, node)
        k, i = last
        if i is None:
            setattr(parent, k, new)
        else:
            getattr(parent, k)[i] = new
    ast.fix_missing_locations(t)
    return t, line


def functions(tree):
    """(qualified name inside module, index path, node)"""
    out = []

    def rec(node, path, q):
        for k, v in ast.iter_fields(node):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        out.append((".".join(q + [x.name]), path + [(k, i)], x))
                        rec(x, path + [(k, i)], q + [x.name])
                    elif isinstance(x, ast.ClassDef):
                        rec(x, path + [(k, i)], q + [x.name])
                    elif isinstance(x, (ast.If, ast.Try, ast.With)):
                        rec(x, path + [(k, i)], q)
    rec(tree, [], [])
    return out


def base_run(prop, repo):
    cfg = PROPS.get(prop) or {"specs": [prop.lower()]}
    C = Checker(repo, cfg.get("specs", []))
    res = []
    for sp in cfg.get("specs", []):
        for p in C.pairs("spec_" + sp):
            if missing_names(C, p):
                continue
            d, info = C.run_pair(p)
            res.append((sp, p.name, [x.replace("<locals>.", "") for x in info["functions"]], bool(d)))
    return C, res


def mutants(C, fnames):
    """all mutants of the named functions: (qual, rel path, fn path, path, desc, f, tree)"""
    for mname, m in C.P.modules.items():
        if not mname.startswith("andromede"):
            continue
        for q, fp, node in functions(m.tree):
            full = mname + "." + q
            if full in fnames:
                for path, desc, f in sites(node):
                    yield full, m, fp, path, desc, f


def try_mutant(repo, pairs, rel, tree):
    """'hard' | 'soft' | 'same'"""
    specs = sorted({s for s, _ in pairs})
    C = Checker(repo, specs, overlay={rel: tree})
    soft = False
    for sp in specs:
        want = {n for s, n in pairs if s == sp}
        for p in C.pairs("spec_" + sp):
            if p.name in want:
                if missing_names(C, p):
                    soft = True
                    continue
                d, _ = C.run_pair(p)
                if any(x.hard for x in d):
                    return "hard"
                if d:
                    soft = True
    return "soft" if soft else "same"


def sensitivity(prop, repo, budget=240, stride=None):
    import random
    t0 = time.time()
    if not PROPS[prop].get("specs"):
        return {}
    C, res = base_run(prop, repo)
    fn = {}
    for sp, n, fs, _ in res:
        for f in fs:
            fn.setdefault(f, []).append((sp, n))
    ms = list(mutants(C, set(fn)))
    rnd = random.Random(1)
    rnd.shuffle(ms)
    tot = {"hard": 0, "soft": 0, "same": 0}
    done = 0

    def job(full, m, fp, path, f):
        try:
            t, _ = apply(m.tree, fp, path, f)
        except Exception:
            return None
        return try_mutant(repo, fn[full], m.relpath, t)
    step = 64
    for i in range(0, len(ms), step):
        if time.time() - t0 > budget:
            break
        for r in isolated([lambda full=full, m=m, fp=fp, path=path, f=f: job(full, m, fp, path, f)
                           for full, m, fp, path, desc, f in ms[i:i + step]], limit=120):
            if isinstance(r, str):
                tot[r] += 1
                done += 1
    return {"mutants": len(ms), "tried": done, "reported": tot["hard"], "undetermined": tot["soft"], "indistinguishable": tot["same"], "seconds": round(time.time() - t0, 1)}
