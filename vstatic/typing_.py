"""Static types of value-graph terms, class predicates over terms."""
import ast

from .frontend import ClassInfo, FuncInfo, maybe_none, mk_union, strip_none
from .terms import *  # noqa
from . import terms as tm

PRIMS = {"int", "float", "str", "bool", "list", "dict", "tuple", "set", "NoneType", "bytes"}


# calls of the solver wrapper that give an object, never None
SOLVER_MAKES = ("Constraint", "Var", "NumVar", "IntVar", "BoolVar", "Objective", "RowConstraint", "infinity")


class Types:
    """mixin of the interpreter: needs self.P (Program), self.refs"""

    def init_types(self):
        self._tmemo = {}
        tm.TYPE_HOOK["truth"] = self._truth_hook
        tm.TYPE_HOOK["eq"] = self._eq_hook
        tm.TYPE_HOOK["is_int"] = lambda t: self.type_of(t) == ("prim", "int")
        tm.ELEM_TYPE_HOOK[0] = self.elem_type
        tm.ISDICT_HOOK[0] = lambda x: self.container_kind(x) == "dict"

    # ------------------------------------------------------------------
    def type_of(self, t):
        r = self._tmemo.get(t, 0)
        if r == 0:
            self._tmemo[t] = None
            try:
                r = self._type_of(t)
            except RecursionError:
                r = None
            self._tmemo[t] = r
        return r

    def _type_of(self, t):
        o, a = t.op, t.args
        if o in ("sym", "fv", "lc"):
            return a[1] if len(a) > 1 else None
        if o == "const":
            return {
                "str": ("prim", "str"), "bool": ("prim", "bool"), "NoneType": ("none",),
                "num": ("prim", "int") if isinstance(a[1], int) else ("prim", "float"),
                "inf": ("prim", "float"), "nan": ("prim", "float"),
            }.get(a[0])
        if o == "new":
            return ("c", a[0])
        if o == "ref":
            k = self.refs.get(t)
            if k and k[0] == "inst":
                return ("c", k[1])
            if k:
                return k[1] if len(k) > 1 and k[1] else ({"list": ("list", None), "dict": ("dict", None, None), "set": ("set", None)}[k[0]])
            return None
        if o == "attr":
            return self.attr_type(self.type_of(a[0]), a[1])
        if o == "xcall" and a[0] in self.xtypes:
            q = self.xtypes[a[0]]
            return ("prim", q) if q in ("str", "int", "float", "bool") else ("c", q)
        if o == "enumv":
            return ("c", a[0])
        if o == "ite":
            ts = []
            for l in leaves(t):
                x = self.type_of(l)
                if x not in ts:
                    ts.append(x)
            return mk_union(ts)
        if o in ("poly", "len", "bigsum"):
            if o == "len":
                return ("prim", "int")
            if o == "poly":
                for m, c in a[0]:
                    for x, e in m:
                        tt = self.type_of(x)
                        if tt and tt[0] == "c":
                            return tt
                if poly_is_int_t(self, t):
                    return ("prim", "int")
                return ("prim", "float")
            return self.type_of(a[1])
        if o == "idx":
            return ("prim", "int")
        if o == "fold":
            _, ups, inits = open_binder(t)
            u = ups[0]
            kt, vt = [], []
            for l in leaves(u):
                if l.op not in ("seq", "dict", "set"):
                    if l.op == "acc":
                        continue
                    return self.type_of(inits[0])
                todo = list(l.args[0])
                while todo:
                    x = todo.pop()
                    if x.op == "cond":
                        todo.extend(x.args[1])
                    elif x.op == "for":
                        todo.extend(open_binder(x)[1])
                    elif x.op == "ent":
                        kt.append(self.type_of(x.args[0]))
                        vt.append(self.type_of(x.args[1]))
                    elif x.op == "elem":
                        vt.append(self.type_of(x.args[0]))
                    elif x.op == "splice" and x.args[0].op != "acc":
                        vt.append(None)
            if vt and all(x == vt[0] for x in vt):
                k = next((l.op for l in leaves(u) if l.op in ("seq", "dict", "set")), None)
                if k == "dict":
                    return ("dict", kt[0], vt[0])
                return ("list" if k == "seq" else "set", vt[0])
            return self.type_of(inits[0])
        if o == "cat":
            return ("prim", "str")
        if o == "seq":
            et = None
            for s in a[0]:
                if s.op == "elem":
                    et = self.type_of(s.args[0])
                elif s.op == "splice":
                    et = self.elem_type(s.args[0])
                if et:
                    break
            return ("list", et)
        if o == "dict":
            for s in a[0]:
                if s.op == "splice":
                    tt = strip_none(self.type_of(s.args[0]))
                    if tt and tt[0] == "dict":
                        return tt
                x = s
                if x.op == "cond" or x.op == "for":
                    x = x.args[1][0]
                if x.op == "ent":
                    return ("dict", self.type_of(x.args[0]), self.type_of(x.args[1]))
            return ("dict", None, None)
        if o == "set":
            return ("set", None)
        if o == "tuple":
            return ("tuple", tuple(self.type_of(x) for x in a[0]))
        if o == "nth":
            if a[0].op in ("items", "zip"):
                return self.elem_type(a[0])
            tt = strip_none(self.type_of(a[0]))
            if tt and tt[0] == "tuple":
                i = a[1]
                if isinstance(i, int) and -len(tt[1]) <= i < len(tt[1]):
                    return tt[1][i]
            if tt and tt[0] == "list":
                return tt[1]
            if tt and tt[0] == "dict":
                return tt[2]
            return None
        if o == "getitem":
            tt = strip_none(self.type_of(a[0]))
            if tt and tt[0] == "dict":
                return tt[2]
            if tt and tt[0] == "list":
                return tt[1]
            return None
        if o in ("call", "mcall", "vcall"):
            return self.call_type(t)
        if o == "first":
            return self.type_of(a[2])
        if o == "last":
            return self.type_of(a[2])
        return None

    def call_type(self, t):
        a = t.args
        if t.op == "call" and isinstance(a[0], str):
            fq = a[0]
            if fq.endswith(".visit") and fq in self.P.funcs and len(a[1]) == 2:
                vt = self.type_of(a[1][1])
                if vt and vt[0] == "c":
                    ci = self.class_info(vt[1])
                    m = ci and self.P.find_method(ci, "literal")
                    if m is not None and m.node.returns is not None:
                        return self.P.type_of_ann(m.module, m.node.returns)
                return None
            fi = self.P.funcs.get(fq) or self.method_by_qual(fq)
            if fi is not None and not isinstance(fi.node, ast.Lambda):
                return self.P.type_of_ann(fi.module, fi.node.returns)
            if fq in ("sorted", "reversed"):
                return ("list", self.elem_type(a[1][0]))
            if fq in ("max", "min", "abs"):
                return self.type_of(a[1][0]) if a[1] else None
            if fq == "str" or fq.startswith("str."):
                return ("prim", "str")
            if fq == "int":
                return ("prim", "int")
            if fq == "float":
                return ("prim", "float")
            if fq == "dyn":
                ft = self.type_of(a[1][0])
                if ft and ft[0] == "fn":
                    return ft[1]
            return None
        if t.op == "mcall":
            ot = strip_none(self.type_of(a[0]))
            if ot and ot[0] == "c":
                ci = self.class_info(ot[1])
                m = ci and self.P.find_method(ci, a[1])
                if m is not None:
                    return self.P.type_of_ann(m.module, m.node.returns)
        return None

    def class_info(self, q):
        return self.P.classes.get(q) or self.local_classes.get(q)

    def method_by_qual(self, q):
        if "." in q:
            c, m = q.rsplit(".", 1)
            ci = self.class_info(c)
            if ci:
                return ci.methods.get(m)
        return None

    def attr_type(self, ot, name):
        ot = strip_none(ot)
        if not ot:
            return None
        if ot[0] == "u":
            ts = [self.attr_type(x, name) for x in ot[1]]
            return mk_union(ts)
        if ot[0] != "c":
            return None
        ci = self.class_info(ot[1])
        if ci is None:
            return None
        return self.field_type(ci, name)

    def field_type(self, ci, name):
        key = (ci.qual, name)
        if key in self._ftmemo:
            return self._ftmemo[key]
        self._ftmemo[key] = None
        r = self._field_type(ci, name)
        self._ftmemo[key] = r
        return r

    def _field_type(self, ci, name):
        for c in self.P.mro(ci):
            if name in c.ann:
                return self.P.type_of_ann(c.module, c.ann[name][0])
            m = c.methods.get(name)
            if m is not None:
                if m.is_property:
                    return self.P.type_of_ann(m.module, m.node.returns)
                return None
            init = c.methods.get("__init__")
            if init is not None:
                for n in ast.walk(init.node):
                    tgt = None
                    if isinstance(n, ast.AnnAssign):
                        tgt, ann, val = n.target, n.annotation, n.value
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, ann, val = n.targets[0], None, n.value
                    if (
                        tgt is not None
                        and isinstance(tgt, ast.Attribute)
                        and isinstance(tgt.value, ast.Name)
                        and tgt.value.id == "self"
                        and tgt.attr == name
                    ):
                        if ann is not None:
                            return self.P.type_of_ann(c.module, ann)
                        if isinstance(val, ast.Name):
                            return self.P.type_of_ann(c.module, init.annotation(val.id))
                        if isinstance(val, ast.Constant):
                            if val.value is None:
                                continue
                            return ("prim", type(val.value).__name__)
                        if isinstance(val, ast.Call):
                            e = self.P.resolve_dotted(c.module, val.func)
                            if e and e[0] == "class":
                                return ("c", e[1])
                            if (
                                isinstance(val.func, ast.Attribute)
                                and isinstance(val.func.value, ast.Name)
                                and val.func.value.id == "self"
                            ):
                                mm = self.P.find_method(c, val.func.attr)
                                if mm is not None:
                                    return self.P.type_of_ann(mm.module, mm.node.returns)
                            if e and e[0] == "func":
                                ff = self.P.funcs[e[1]]
                                return self.P.type_of_ann(ff.module, ff.node.returns)
        return None

    def elem_type(self, src):
        """element type of an iterated source term"""
        if src.op == "items":
            tt = strip_none(self.type_of(src.args[0]))
            if tt and tt[0] == "dict":
                return ("tuple", (tt[1], tt[2]))
            return ("tuple", (None, None))
        if src.op == "range":
            return ("prim", "int")
        if src.op == "zip":
            return ("tuple", tuple(self.elem_type(x) for x in src.args[0]))
        if src.op == "slice":
            return self.elem_type(src.args[0])
        tt = strip_none(self.type_of(src))
        if tt and tt[0] in ("list", "set"):
            return tt[1]
        if tt and tt[0] == "dict":
            return tt[1]
        if tt and tt[0] == "tuple":
            return mk_union(list(tt[1])) if tt[1] else None
        return None

    # ------------------------------------------------------------------
    def _truth_hook(self, t):
        tt = self.type_of(t)
        if tt is None:
            return None
        none = maybe_none(tt)
        base = strip_none(tt)
        if base is None:
            return None
        if base[0] == "c":
            ci = self.class_info(base[1])
            if ci is None:
                return None
            if self.P.find_method(ci, "__bool__") or self.P.find_method(ci, "__len__"):
                return None
            if self.P.is_enum(ci):
                return bnot(self.is_none(t)) if none else TRUE
            return bnot(self.is_none(t)) if none else TRUE
        if base[0] == "fn":
            return bnot(self.is_none(t)) if none else TRUE
        if base in (("prim", "int"), ("prim", "float")) and t.op not in ("len", "poly"):
            r = bnot(mk_eq(t, ZERO))
            return band(bnot(self.is_none(t)), r) if none else r
        return None

    def is_none(self, t):
        if t.op == "ite":
            return push_ite(self.is_none, t)
        if t is NONE:
            return TRUE
        if t.op in ("const", "new", "ref", "seq", "dict", "set", "tuple", "poly", "cat", "cls", "fn", "clos", "bm", "enumv", "lam", "len", "idx"):
            return FALSE
        if t.op == "xcall" and t.args[0] in SOLVER_MAKES:
            return FALSE
        tt = self.type_of(t)
        if tt == ("none",):
            return TRUE
        if tt is not None and not maybe_none(tt):
            return FALSE
        return atom(mk("kind", t, "NoneType"))

    def _eq_hook(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                return self.is_none(y)
        if a.op == "new" and b.op == "new":
            ca, cb = self.class_info(a.args[0]), self.class_info(b.args[0])
            if ca and cb:
                if self.P.find_method(ca, "__eq__"):
                    return None
                if a.args[0] != b.args[0]:
                    return FALSE
                if ca.is_dataclass and ca.dc_kw.get("eq", True) is not False:
                    r = TRUE
                    for (n, v), (n2, v2) in zip(a.args[1], b.args[1]):
                        r = band(r, mk_eq(v, v2))
                    return r
        for x, y in ((a, b), (b, a)):
            if x.op == "new" and y.op in ("sym", "attr", "getitem", "lv", "var", "call", "xcall", "nth"):
                c = self.class_info(x.args[0])
                if (c and c.is_dataclass and c.dc_kw.get("eq", True) is not False and not self.P.find_method(c, "__eq__") and not self.P.subclasses(x.args[0])
                        and self.type_of(y) == ("c", x.args[0])):
                    r = TRUE
                    for n, v in x.args[1]:
                        r = band(r, mk_eq(v, self.boolify_t(mk("attr", y, n), self.field_type(c, n))))
                    return r
        # boolean typed values
        for x, y in ((a, b), (b, a)):
            if y is TRUE and self.type_of(x) == ("prim", "bool"):
                return truth(x)
            if y is FALSE and self.type_of(x) == ("prim", "bool"):
                return bnot(truth(x))
        return None

    # ------------------------------------------------------------------
    def isinstance_(self, x, c):
        """isinstance(x, c) -> boolean term. c: cls / ext / tuple term"""
        if c.op == "tuple":
            r = FALSE
            for e in c.args[0]:
                r = bor(r, self.isinstance_(x, e))
            return r
        if c.op == "seq":
            r = FALSE
            for e in c.args[0]:
                if e.op == "elem":
                    r = bor(r, self.isinstance_(x, e.args[0]))
            return r
        if x.op == "ite":
            return push_ite(lambda y: self.isinstance_(y, c), x)
        if c.op == "ext":
            return self._isinst_prim(x, c.args[0])
        if c.op != "cls":
            return atom(mk("batom", "isinstance", x, c))
        q = c.args[0]
        if x.op == "new" or x.op == "enumv":
            return TRUE if self.is_sub(x.args[0], q) else FALSE
        if x.op == "ref":
            k = self.refs.get(x)
            if k and k[0] == "inst":
                return TRUE if self.is_sub(k[1], q) else FALSE
            return FALSE
        if x.op in ("const", "seq", "dict", "tuple", "set", "cat", "len", "fn", "clos"):
            return FALSE
        tt = self.type_of(x)
        cands = None
        exp = [q] + self.P.subclasses(q)
        if tt is not None:
            parts = tt[1] if tt[0] == "u" else (tt,)
            if None in parts:
                parts = None
            if parts is not None:
                cands = set()
                others = False
                for p in parts:
                    if p[0] == "c":
                        if self.is_sub(p[1], q):
                            cands.update([p[1]] + self.P.subclasses(p[1]))
                        else:
                            cands.update(k for k in [p[1]] + self.P.subclasses(p[1]) if k in exp)
                            others = True
                    else:
                        others = True
                        if p == ("prim", "object"):
                            cands.update(exp)
                if not others:
                    return TRUE
                if not cands:
                    # a poly typed as node: annotations say it cannot be
                    return FALSE if x.op != "poly" else atom(mk("batom", "isinstance", x, c))
        if x.op == "poly":
            return atom(mk("batom", "isinstance", x, c))
        ks = exp if cands is None else [k for k in exp if k in cands]
        # all non-None?
        if tt is not None and cands is not None:
            parts = tt[1] if tt[0] == "u" else (tt,)
            nonnone = [p for p in parts if p != ("none",)]
            if all(p[0] == "c" and self.is_sub(p[1], q) for p in nonnone):
                return bnot(self.is_none(x))
        r = FALSE
        for k in ks:
            r = bor(r, atom(mk("kind", x, k)))
        return r

    def is_sub(self, a, b):
        if a == b:
            return True
        ca = self.class_info(a)
        if ca is None:
            return False
        return any(c.qual == b for c in self.P.mro(ca))

    def _isinst_prim(self, x, n):
        n = n.replace("builtins.", "")
        if n == "object":
            return TRUE
        tt = self.type_of(x)
        if x.op == "const":
            k = tt
            if k is None:
                return atom(mk("kind", x, n))
            if k == ("none",):
                return TRUE if n == "NoneType" else FALSE
            if n == k[1]:
                return TRUE
            if n == "int" and k[1] == "bool":
                return TRUE
            if k[1] in ("int", "float") and n in ("int", "float"):
                return atom(mk("kind", x, n))
            return FALSE
        if x.op in ("seq", "dict", "set", "tuple"):
            m = {"seq": "list"}.get(x.op, x.op)
            return TRUE if n == m else FALSE
        if x.op == "ref":
            k = self.refs.get(x)
            if k and k[0] in ("list", "dict", "set"):
                return TRUE if n == k[0] else FALSE
            return FALSE if n in PRIMS else atom(mk("kind", x, n))
        if x.op in ("new", "enumv"):
            ci = self.class_info(x.args[0])
            if ci and n in {b.split(".")[-1] for b in self.P.ext_bases(ci)} | self.P.ext_bases(ci):
                return TRUE
            return FALSE if n in PRIMS else atom(mk("kind", x, n))
        if tt is not None:
            parts = tt[1] if tt[0] == "u" else (tt,)
            if None not in parts and n in PRIMS:
                def m(p):
                    if p[0] == "prim":
                        if p[1] == "object":
                            return None
                        if p[1] == "float" and n == "int":
                            return None
                        return p[1] == n
                    if p[0] in ("list", "dict", "set", "tuple"):
                        return None if (p[0] == "list" and n in ("tuple", "set")) else p[0] == n
                    if p[0] in ("c", "none", "fn"):
                        return False
                    return None
                rs = [m(p) for p in parts]
                if all(r is True for r in rs):
                    return TRUE
                if all(r is False for r in rs):
                    return FALSE
        return atom(mk("kind", x, n))


def poly_is_int_t(self, t):
    for m, c in t.args[0]:
        if not isinstance(c, int):
            return False
        for x, e in m:
            if e < 0 or self.type_of(x) != ("prim", "int"):
                return False
    return True
