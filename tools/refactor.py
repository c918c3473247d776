"""python3 tools/refactor.py [-k kinds] [-f regex] [-j n]: behaviour-preserving rewrites of every analysed function;
anything reported here ("hard") is a false alarm of the machinery"""
import argparse, ast, copy, os, pickle, re, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from multiprocessing import Pool
from vstatic import sensitivity as S
from vstatic.registry import PROPS

_n = [0]


def fresh(p="_q"):
    _n[0] += 1
    return f"{p}{_n[0]}"


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def assign(i, v):
    return ast.Assign([name(i, ast.Store())], v)


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(ast.Not(), t)


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Blocks(ast.NodeTransformer):
    """rewrite statement lists"""
    def block(self, b):
        return b

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                nb = self.block(b)
                if nb is not b:
                    self.changed = True
                setattr(n, f, nb)
        return n
    changed = False


class InvertIf(ast.NodeTransformer):
    changed = False
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            self.changed = True
            return ast.If(neg(n.test), n.orelse, n.body)
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        self.changed = True
        return ast.IfExp(neg(n.test), n.orelse, n.body)


class ElseAfterReturn(Blocks):
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and b[i + 1:]:
                return b[:i] + [ast.If(s.test, s.body, self.block(b[i + 1:]))]
        return b


class UnElse(Blocks):
    def block(self, b):
        out = []
        ch = False
        for s in b:
            if isinstance(s, ast.If) and s.orelse and leaves(s.body):
                ch = True
                out.append(ast.If(s.test, s.body, []))
                out.extend(self.block(s.orelse))
            else:
                out.append(s)
        return out if ch else b


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant, ast.Starred, ast.Lambda, ast.GeneratorExp)) or isinstance(e, ast.Attribute) and simple(e.value)


class Temps(Blocks):
    def block(self, b):
        out = []
        ch = False
        for s in b:
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and s.value is not None:
                pre = []
                v = s.value
                if isinstance(v, ast.Call):
                    for i, a in enumerate(v.args):
                        if not simple(a):
                            t = fresh()
                            pre.append(assign(t, a))
                            v.args[i] = name(t)
                    for k in v.keywords:
                        if not simple(k.value):
                            t = fresh()
                            pre.append(assign(t, k.value))
                            k.value = name(t)
                if isinstance(s, ast.Return) and not simple(s.value):
                    t = fresh()
                    pre.append(assign(t, s.value))
                    s.value = name(t)
                if pre:
                    ch = True
                out.extend(pre)
            out.append(s)
        return out if ch else b


class Rn(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m
    def visit_Name(self, n):
        return ast.Name(self.m.get(n.id, n.id), n.ctx)


def comp_loop(c, acc, mkadd):
    names = {x.id: fresh("_c") for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    r = Rn(names)
    body = mkadd(c, r)
    for i, g in reversed(list(enumerate(c.generators))):
        for t in reversed(g.ifs):
            body = [ast.If(r.visit(t), body, [])]
        it = g.iter if i == 0 else r.visit(g.iter)
        body = [ast.For(r.visit(g.target), it, body, [])]
    return body


def comp_stmts(v, acc):
    call = lambda f, a: [ast.Expr(ast.Call(ast.Attribute(name(acc), f, ast.Load()), [a], []))]
    if isinstance(v, ast.ListComp):
        return [assign(acc, ast.List([], ast.Load()))] + comp_loop(v, acc, lambda c, r: call("append", r.visit(c.elt)))
    if isinstance(v, ast.SetComp):
        return [assign(acc, ast.Call(name("set"), [], []))] + comp_loop(v, acc, lambda c, r: call("add", r.visit(c.elt)))
    if isinstance(v, ast.DictComp):
        return [assign(acc, ast.Dict([], []))] + comp_loop(v, acc, lambda c, r: [ast.Assign([ast.Subscript(name(acc), r.visit(c.key), ast.Store())], r.visit(c.value))])
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "sum" and len(v.args) == 1 and isinstance(v.args[0], ast.GeneratorExp):
        return [assign(acc, ast.Constant(0))] + comp_loop(v.args[0], acc, lambda c, r: [assign(acc, ast.BinOp(name(acc), ast.Add(), r.visit(c.elt)))])
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("any", "all") and len(v.args) == 1 and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)) and len(v.args[0].generators) == 1:
        a = v.func.id == "any"
        return [assign(acc, ast.Constant(not a))] + comp_loop(v.args[0], acc, lambda c, r: [ast.If(r.visit(c.elt) if a else neg(r.visit(c.elt)), [assign(acc, ast.Constant(a)), ast.Break()], [])])
    return None


class CompLoop(Blocks):
    def block(self, b):
        out = []
        ch = False
        for s in b:
            if isinstance(s, (ast.Return, ast.Assign, ast.AnnAssign, ast.Expr)) and s.value is not None and not (isinstance(s, ast.Assign) and len(s.targets) > 1):
                acc = fresh("_acc")
                st = comp_stmts(s.value, acc)
                if st:
                    out.extend(st)
                    s.value = name(acc)
                    ch = True
                elif isinstance(s.value, ast.Call) and simple(s.value.func):
                    v = s.value
                    for i, a in enumerate(v.args):
                        if not all(simple(x) for x in v.args[:i]):
                            break
                        st = comp_stmts(a, acc)
                        if st:
                            out.extend(st)
                            v.args[i] = name(acc)
                            ch = True
                            break
            elif isinstance(s, ast.If):
                t = s.test
                n = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)
                acc = fresh("_acc")
                st = comp_stmts(t.operand if n else t, acc)
                if st and not getattr(s, "elif_", False):
                    out.extend(st)
                    s.test = neg(name(acc)) if n else name(acc)
                    ch = True
            out.append(s)
        return out if ch else b


def uses(n, i):
    return any(isinstance(x, ast.Name) and x.id == i for x in ast.walk(n))


class LoopComp(Blocks):
    def block(self, b):
        for i in range(len(b) - 1):
            a, f = b[i], b[i + 1]
            tgt = None
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name):
                tgt = a.targets[0].id
            if isinstance(a, ast.AnnAssign) and isinstance(a.target, ast.Name):
                tgt = a.target.id
            if tgt is None or not isinstance(f, ast.For) or f.orelse or uses(f.iter, tgt):
                continue
            gens = [ast.comprehension(f.target, f.iter, [], 0)]
            body = f.body
            while len(body) == 1:
                s = body[0]
                if isinstance(s, ast.If) and not s.orelse and not uses(s.test, tgt):
                    gens[-1].ifs.append(s.test)
                    body = s.body
                elif isinstance(s, ast.For) and not s.orelse and not uses(s.iter, tgt):
                    gens.append(ast.comprehension(s.target, s.iter, [], 0))
                    body = s.body
                else:
                    break
            if len(body) != 1:
                continue
            s = body[0]
            v = a.value
            if isinstance(v, ast.List) and not v.elts and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == tgt and not uses(s.value.args[0], tgt):
                a.value = ast.ListComp(s.value.args[0], gens)
                return self.block(b[:i + 1] + b[i + 2:])
            if isinstance(v, ast.Dict) and not v.keys and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == tgt and not uses(s.value, tgt) and not uses(s.targets[0].slice, tgt):
                a.value = ast.DictComp(s.targets[0].slice, s.value, gens)
                return self.block(b[:i + 1] + b[i + 2:])
        return b


class AppendExtend(Blocks):
    """for x in it: acc.append(e)  ->  acc.extend([e for x in it])"""
    def block(self, b):
        out = []
        ch = False
        for f in b:
            if isinstance(f, ast.For) and not f.orelse and len(f.body) == 1:
                s = f.body[0]
                ifs = []
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
                    ifs = [s.test]
                    s = s.body[0]
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name):
                    t = s.value.func.value.id
                    if not uses(f.iter, t) and not uses(s.value.args[0], t) and not any(uses(x, t) for x in ifs):
                        ch = True
                        out.append(ast.Expr(ast.Call(ast.Attribute(name(t), "extend", ast.Load()), [ast.ListComp(s.value.args[0], [ast.comprehension(f.target, f.iter, ifs, 0)])], [])))
                        continue
            out.append(f)
        return out if ch else b


class TernaryIf(Blocks):
    def block(self, b):
        out = []
        ch = False
        for s in b:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                ch = True
                out.append(ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)]))
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and isinstance(s.targets[0], ast.Name):
                ch = True
                out.append(ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)]))
            else:
                out.append(s)
        return out if ch else b


class IfTernary(Blocks):
    def block(self, b):
        out = []
        ch = False
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and type(s.body[0]) is type(s.orelse[0]):
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and x.value and y.value:
                    out.append(ast.Return(ast.IfExp(s.test, x.value, y.value)))
                    ch = True
                    continue
                if isinstance(x, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                    out.append(ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value)))
                    ch = True
                    continue
            if isinstance(s, ast.Return) and s.value and out and isinstance(out[-1], ast.If) and not out[-1].orelse and len(out[-1].body) == 1 and isinstance(out[-1].body[0], ast.Return) and out[-1].body[0].value:
                i = out.pop()
                out.append(ast.Return(ast.IfExp(i.test, i.body[0].value, s.value)))
                ch = True
                continue
            out.append(s)
        return out if ch else b


class SwapCompare(ast.NodeTransformer):
    changed = False
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    NUM = False
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and (isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and (isinstance(n.comparators[0], ast.Constant) or self.NUM)):
            self.changed = True
            return ast.Compare(n.comparators[0], n.ops, [n.left])
        return n


class NotForms(ast.NodeTransformer):
    changed = False
    M = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}
    def visit_Compare(self, n):
        self.generic_visit(n)
        t = self.M.get(type(n.ops[0])) if len(n.ops) == 1 else None
        if t and not (t is ast.Eq and not isinstance(n.comparators[0], ast.Constant)):
            self.changed = True
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [t()], n.comparators))
        return n
    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.BoolOp):
            self.changed = True
            o = n.operand
            return ast.BoolOp(ast.Or() if isinstance(o.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), self.visit(v)) for v in o.values])
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) and len(n.operand.ops) == 1:
            c = n.operand
            t = {ast.In: ast.NotIn, ast.Is: ast.IsNot}.get(type(c.ops[0]))
            if t:
                self.changed = True
                return ast.Compare(self.visit(c.left), [t()], [self.visit(x) for x in c.comparators])
        return self.generic_visit(n)


class AndSplit(Blocks):
    def block(self, b):
        out = []
        ch = False
        for s in b:
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                body = s.body
                for t in reversed(s.test.values):
                    body = [ast.If(t, body, [])]
                out.append(body[0])
                ch = True
            elif isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and leaves(s.body):
                out.extend(ast.If(t, copy.deepcopy(s.body), []) for t in s.test.values)
                ch = True
            else:
                out.append(s)
        return out if ch else b


class IfMerge(Blocks):
    def block(self, b):
        out = []
        ch = False
        for s in b:
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                out.append(ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, []))
                ch = True
            else:
                out.append(s)
        return out if ch else b


class FStr(ast.NodeTransformer):
    changed = False
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.conversion == -1 and v.format_spec is None:
                parts.append(ast.Call(name("str"), [v.value], []))
            else:
                return n
        if not parts:
            return n
        if not isinstance(parts[0], ast.Constant) and len(parts) == 1:
            return n
        self.changed = True
        r = parts[0]
        for p in parts[1:]:
            r = ast.BinOp(r, ast.Add(), p)
        return r


class Rename(ast.NodeTransformer):
    changed = False


def rename(fn):
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
    inner = [x for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not fn]
    if inner or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)):
        return False
    st = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
    if not st:
        return False
    fn.body = [Rn({s: s + "_zz" for s in st}).visit(x) for x in fn.body]
    for x in ast.walk(fn):
        if isinstance(x, ast.ExceptHandler) and x.name in st:
            x.name += "_zz"
    return True


class ItemsLoop(Blocks):
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) and simple(it.func.value):
            k, v = n.target.elts
            self.changed = True
            return ast.For(k, it.func.value, [ast.Assign([v], ast.Subscript(copy.deepcopy(it.func.value), name(k.id), ast.Load()))] + n.body, n.orelse)
        return n


class Enumerate(ast.NodeTransformer):
    changed = False
    def visit_For(self, n):
        self.generic_visit(n)
        self.changed = True
        return ast.For(ast.Tuple([name(fresh("_i"), ast.Store()), n.target], ast.Store()), ast.Call(name("enumerate"), [n.iter], []), n.body, n.orelse)


class ListOf(ast.NodeTransformer):
    changed = False
    def visit_For(self, n):
        self.generic_visit(n)
        self.changed = True
        return ast.For(n.target, ast.Call(name("list"), [n.iter], []), n.body, n.orelse)


class Continue(Blocks):
    def visit_For(self, n):
        self.generic_visit(n)
        b = n.body
        if len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
            self.changed = True
            return ast.For(n.target, n.iter, [ast.If(neg(b[0].test), [ast.Continue()], [])] + b[0].body, n.orelse)
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and b[i + 1:]:
                self.changed = True
                return ast.For(n.target, n.iter, b[:i] + [ast.If(neg(s.test), b[i + 1:], [])], n.orelse)
        return n


class IsInst(ast.NodeTransformer):
    changed = False
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple):
            self.changed = True
            return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [copy.deepcopy(n.args[0]), t], []) for t in n.args[1].elts])
        return n


class BoolRet(Blocks):
    def block(self, b):
        out = []
        ch = False
        for s in b:
            if isinstance(s, ast.Return) and (isinstance(s.value, ast.Compare) and isinstance(s.value.ops[0], (ast.In, ast.NotIn, ast.Is, ast.IsNot, ast.Eq)) or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("isinstance", "any", "all")):
                ch = True
                out.extend([ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))])
            else:
                out.append(s)
        return out if ch else b


class GetOr(ast.NodeTransformer):
    changed = False
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 2 and not n.keywords and simple(n.func.value) and simple(n.args[0]):
            self.changed = True
            return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [n.func.value]), ast.Subscript(copy.deepcopy(n.func.value), copy.deepcopy(n.args[0]), ast.Load()), n.args[1])
        return n


class KwOrder(ast.NodeTransformer):
    changed = False
    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.keywords) > 1 and all(k.arg for k in n.keywords):
            self.changed = True
            n.keywords = n.keywords[::-1]
        return n


class SwapAssign(Blocks):
    def block(self, b):
        b = list(b)
        ch = False
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if self.ok(x) and self.ok(y):
                tx, ty = x.targets[0], y.targets[0]
                if ast.dump(tx) != ast.dump(ty) and not self.reads(y.value, tx) and not self.reads(x.value, ty) and not self.reads(ty, tx) and not self.reads(tx, ty):
                    b[i], b[i + 1] = y, x
                    ch = True
                    i += 2
                    continue
            i += 1
        return b if ch else b
    def ok(self, s):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1):
            return False
        t = s.targets[0]
        if not (isinstance(t, ast.Name) or isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)):
            return False
        ok = not any(isinstance(x, (ast.Call, ast.Yield)) for x in ast.walk(s.value))
        if ok:
            self.changed = True
        return ok
    def reads(self, e, t):
        d = ast.dump(t).replace("Store()", "Load()")
        return any(ast.dump(x).replace("Store()", "Load()") == d for x in ast.walk(e))


class AugAssign(Blocks):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Mult, ast.Sub, ast.Div)) or isinstance(n.value, ast.Constant) and isinstance(n.target, ast.Name):
            self.changed = True
            return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
        return n


class Raises(ast.NodeTransformer):
    changed = False
    def visit_Raise(self, n):
        if isinstance(n.exc, ast.Call) and n.exc.args and isinstance(n.exc.args[0], (ast.Constant, ast.JoinedStr)):
            self.changed = True
            n.exc.args[0] = ast.Constant("invalid input")
        return n


class ListLit(ast.NodeTransformer):
    """list(x) -> [y for y in x]; dict() -> {}"""
    changed = False
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "dict") and not n.keywords:
            if n.func.id == "list" and not n.args:
                self.changed = True
                return ast.List([], ast.Load())
            if n.func.id == "dict" and not n.args:
                self.changed = True
                return ast.Dict([], [])
            if n.func.id == "list" and len(n.args) == 1:
                self.changed = True
                v = fresh("_l")
                return ast.ListComp(name(v), [ast.comprehension(name(v, ast.Store()), n.args[0], [], 0)])
        return n
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not n.elts:
            self.changed = True
            return ast.Call(name("list"), [], [])
        return n
    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys:
            self.changed = True
            return ast.Call(name("dict"), [], [])
        return n


class Walrus(Blocks):
    """x = e; if x...: -> if (x := e)"""
    def block(self, b):
        for i in range(len(b) - 1):
            s, f = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(f, ast.If):
                t = f.test
                if isinstance(t, ast.Name) and t.id == s.targets[0].id:
                    f.test = ast.NamedExpr(name(t.id, ast.Store()), s.value)
                    return self.block(b[:i] + b[i + 1:])
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == s.targets[0].id:
                    t.left = ast.NamedExpr(name(t.left.id, ast.Store()), s.value)
                    return self.block(b[:i] + b[i + 1:])
        return b


class Consts(ast.NodeTransformer):
    changed = False


def has_yield(fn):
    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)) or go(c):
                return True
        return False
    return go(fn)


def split_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[:1], body[1:]
    return [], body


def extract(tree, fn, parents):
    """body moved to a helper function/method"""
    par = parents[-1]
    if isinstance(par, ast.FunctionDef) or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs:
        return False
    decos = [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "?" for d in fn.decorator_list]
    if any(d not in ("staticmethod", "property", "override") for d in decos) or any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(fn)):
        return False
    h = copy.deepcopy(fn)
    h.name = "_do" + fn.name.strip("_") + "_zz"
    doc, h.body = split_doc(h.body)
    if not h.body or len(h.body) == 1 and isinstance(h.body[0], (ast.Pass, ast.Raise)):
        return False
    args = [name(a.arg) for a in fn.args.args]
    meth = isinstance(par, ast.ClassDef) and "staticmethod" not in decos
    h.decorator_list = [] if meth or not isinstance(par, ast.ClassDef) else [name("staticmethod")]
    h.args.defaults = []
    if isinstance(par, ast.ClassDef):
        f = ast.Attribute(name(fn.args.args[0].arg if meth else par.name), h.name, ast.Load())
        call = ast.Call(f, args[1:] if meth else args, [])
    else:
        call = ast.Call(name(h.name), args, [])
    fn.body = doc + [ast.Return(call)]
    par.body.insert(par.body.index(fn) + 1, h)
    return True


def extract_free(tree, fn, parents):
    """body moved to a module-level function"""
    par = parents[-1]
    if any(isinstance(x, ast.FunctionDef) for x in parents) or not isinstance(par, ast.ClassDef) or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs:
        return False
    decos = [d.id if isinstance(d, ast.Name) else "?" for d in fn.decorator_list]
    if any(d not in ("staticmethod", "property", "override") for d in decos) or any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(fn)):
        return False
    doc, body = split_doc(fn.body)
    if not body or any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(fn)):
        return False
    h = copy.deepcopy(fn)
    h.name = "_free_" + par.name + "_" + fn.name.strip("_")
    h.decorator_list = []
    h.body = split_doc(h.body)[1]
    h.args.defaults = []
    for a in h.args.args:
        a.annotation = ast.Constant(ast.unparse(a.annotation)) if a.annotation is not None and not isinstance(a.annotation, ast.Constant) else a.annotation
    if h.returns is not None and not isinstance(h.returns, ast.Constant):
        h.returns = ast.Constant(ast.unparse(h.returns))
    if "staticmethod" not in decos:
        h.args.args[0].annotation = ast.Constant(par.name)
    fn.body = doc + [ast.Return(ast.Call(name(h.name), [name(a.arg) for a in fn.args.args], []))]
    top = parents[1] if len(parents) > 1 else par
    tree.body.insert(tree.body.index(top), h)
    return True


def free_names(stmts):
    return {x.id for s in stmts for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def stores(stmts):
    return {x.id for s in stmts for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def extract_loop(tree, fn, parents):
    """bodies of loops moved to module-level helpers"""
    ch = False
    if any(isinstance(p, ast.FunctionDef) for p in parents):
        return False
    locs = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | stores(fn.body)
    ann = {a.arg: a.annotation for a in fn.args.args}
    if isinstance(parents[-1], ast.ClassDef) and fn.args.args and fn.args.args[0].arg == "self":
        ann["self"] = ast.Constant(parents[-1].name)
    for f in [x for x in ast.walk(fn) if isinstance(x, ast.For)]:
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Lambda, ast.NamedExpr)) for s in f.body for x in ast.walk(s)):
            continue
        st = stores(f.body)
        outside = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in st:
                outside.add(x.id)
        inside = {id(y) for s in f.body for y in ast.walk(s)}
        if any(isinstance(x, ast.Name) and x.id in st and id(x) not in inside for x in ast.walk(fn)):
            continue
        ps = sorted((free_names(f.body) & locs) - st)
        hn = fresh("_loop_body")
        h = ast.FunctionDef(hn, ast.arguments([], [ast.arg(p, copy.deepcopy(ann.get(p))) for p in ps], None, [], [], None, []), f.body, [], None, type_params=[])
        f.body = [ast.Expr(ast.Call(name(hn), [name(p) for p in ps], []))]
        for a in h.args.args:
            if a.annotation is not None and not isinstance(a.annotation, ast.Constant):
                a.annotation = ast.Constant(ast.unparse(a.annotation))
        top = parents[1] if len(parents) > 1 else fn
        tree.body.insert(tree.body.index(top), h)
        ch = True
    return ch


def wrap(T):
    def f(tree, fn, parents):
        t = T()
        fn.body = [x for s in fn.body for x in [t.visit(s)]]
        if isinstance(t, Blocks):
            nb = t.block(fn.body)
            if nb is not fn.body:
                t.changed = True
            fn.body = nb
        return t.changed
    return f


KINDS = {c.__name__: wrap(c) for c in (InvertIf, ElseAfterReturn, UnElse, Temps, CompLoop, LoopComp, AppendExtend, TernaryIf, IfTernary, SwapCompare, NotForms, AndSplit, IfMerge, FStr, ItemsLoop,
                                       Enumerate, ListOf, Continue, IsInst, BoolRet, GetOr, KwOrder, SwapAssign, AugAssign, Raises, ListLit, Walrus)}
KINDS["Rename"] = lambda t, fn, p: rename(fn)
KINDS["Extract"] = extract
KINDS["ExtractFree"] = extract_free
KINDS["ExtractLoop"] = extract_loop


def find(tree, q):
    """function by dotted path inside module, with its parents"""
    node, ps = tree, [tree]
    for i, part in enumerate(q):
        nxt = None
        for x in ast.walk(node) if i and isinstance(node, ast.FunctionDef) else node.body:
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part and x is not node:
                nxt = x
        if nxt is None:
            return None, None
        if i < len(q) - 1:
            ps.append(nxt)
        node = nxt
    return node, ps


def load(repo, cache="/tmp/refactor_fn.pkl"):
    if os.path.exists(cache):
        return pickle.load(open(cache, "rb"))
    FN = {}
    with Pool(8, maxtasksperchild=1) as ex:
        for fs in ex.imap(_base, [(p, repo) for p in PROPS]):
            for f, rel, q, sp, n in fs:
                FN.setdefault((f, rel, q), set()).add((sp, n))
    FN = {k: sorted(v) for k, v in FN.items()}
    pickle.dump(FN, open(cache, "wb"))
    return FN


def _base(a):
    p, repo = a
    C, res = S.base_run(p, repo)
    out = []
    locs = {}
    for mname, m in C.P.modules.items():
        if mname.startswith("andromede"):
            for q, fp, node in S.functions(m.tree):
                locs[mname + "." + q] = (m.relpath, tuple(q.split(".")))
    for sp, n, fs, soft in res:
        for f in fs:
            k = locs.get(f)
            if k is not None:
                out.append((f, k[0], k[1], sp, n))
    return out


def one(job):
    repo, kind, key, pairs = job
    f, rel, q = key
    tree = ast.parse(open(os.path.join(repo, rel)).read())
    fn, ps = find(tree, q)
    if fn is None or not isinstance(fn, ast.FunctionDef):
        return kind, f, "nofn"
    try:
        if not KINDS[kind](tree, fn, ps):
            return kind, f, "none"
        ast.fix_missing_locations(tree)
        src = ast.unparse(tree)
        tree = ast.parse(src)
    except Exception as e:
        return kind, f, "error " + repr(e)[:100]
    try:
        return kind, f, S.try_mutant(repo, pairs, rel, tree)
    except Exception as e:
        return kind, f, "crash " + repr(e)[:100]


def emit(repo, kind, q):
    FN = load(repo)
    for key in FN:
        if key[0] == q:
            tree = ast.parse(open(os.path.join(repo, key[1])).read())
            fn, ps = find(tree, key[2])
            KINDS[kind](tree, fn, ps)
            ast.fix_missing_locations(tree)
            return key[1], ast.unparse(tree), FN[key], ast.unparse(fn)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default=""); ap.add_argument("-f", default=""); ap.add_argument("-j", type=int, default=8); ap.add_argument("--repo", default="/repo")
    ap.add_argument("-s", action="store_true", help="show soft too")
    A = ap.parse_args()
    FN = load(A.repo)
    jobs = [(A.repo, k, key, FN[key]) for k in KINDS if re.search(A.k, k) for key in sorted(FN) if re.search(A.f, key[0])]
    n = {}
    t0 = time.time()
    with Pool(A.j, maxtasksperchild=3) as ex:
        for kind, f, r in ex.imap(one, jobs, chunksize=6):
            n.setdefault(kind, {}).setdefault(r.split()[0], 0)
            n[kind][r.split()[0]] += 1
            if r.split()[0] in ("hard", "crash", "error") or A.s and r == "soft":
                print(kind, f, r, flush=True)
    for k in n:
        print(k, {x: y for x, y in n[k].items() if x != "none"})
    print(round(time.time() - t0))
