"""Expression part of the value-graph construction."""
import ast

from .frontend import FuncInfo, strip_none, maybe_none
from .terms import *  # noqa
from . import memo
from . import terms as tm

NODE_BASE = "andromede.expression.expression.ExpressionNode"

DUNDER = {
    "Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"),
    "Div": ("__truediv__", "__rtruediv__"), "BitOr": ("__or__", "__ror__"), "BitAnd": ("__and__", "__rand__"),
    "FloorDiv": ("__floordiv__", "__rfloordiv__"), "Mod": ("__mod__", "__rmod__"), "Pow": ("__pow__", "__rpow__"),
}

BUILTIN_NAMES = {
    "len", "range", "enumerate", "zip", "isinstance", "issubclass", "max", "min", "sum", "any", "all", "sorted", "reversed",
    "list", "dict", "set", "tuple", "frozenset", "str", "int", "float", "bool", "abs", "round", "getattr", "setattr",
    "hasattr", "type", "print", "map", "filter", "iter", "next", "repr", "super", "open", "id", "hash", "callable",
    "object", "vars", "property", "staticmethod", "classmethod", "divmod", "pow", "bytes", "slice", "format", "ord", "chr",
    "input", "globals", "locals", "dir", "NotImplemented",
}


# objects filed under one of their own fields: field -> mapping -> owner.  That model(), system(), the network and the
# library do file them so is itself decided (C23, C24, C31).
OWN_KEYS = {
    "name": {"parameters": ("Model",), "variables": ("Model",), "constraints": ("Model",), "binding_constraints": ("Model",)},
    "port_name": {"ports": ("Model",)},
    "port_field": {"port_fields_definitions": ("Model",)},
    "id": {"_nodes": ("Network",), "_components": ("Network",), "nodes": ("System",), "components": ("System",), "models": ("Library",), "port_types": ("Library",)},
}


class Exprs:
    def eval(self, e, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("interpretation steps")
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            self.note(f"unsupported expression {type(e).__name__}")
            return opaque("expr:" + type(e).__name__)
        return m(e, st)

    def cond(self, e, st):
        v = self.eval(e, st)
        return self.truthy(v, st)

    def truthy(self, v, st):
        if v.op == "ite":
            return push_ite(lambda x: self.truthy(x, st), v)
        c = st.heap.get((v, "*"))
        if c is not None:
            return truth(c)
        if v.op == "ref" and self.refs.get(v, ("",))[0] == "inst":
            ci = self.class_info(self.refs[v][1])
            m = ci and (self.P.find_method(ci, "__bool__") or self.P.find_method(ci, "__len__"))
            if m:
                return truth(self.call_method_fi(m, v, [], [], st))
            return TRUE
        if v.op in ("call", "mcall") and self.type_of(v) in (("prim", "int"), ("prim", "float")):
            return bnot(mk_eq(v, ZERO))
        return truth(v)

    def ex_Constant(self, e, st):
        try:
            return const(e.value)
        except TypeError:
            return opaque("const")

    def ex_Name(self, e, st):
        return self.lookup(e.id, st)

    def lookup(self, name, st):
        if name in st.env:
            return st.env[name]
        fr = self.stack[-1]
        cl = fr.closure
        while cl is not None:
            env, parent, _ = cl
            if name in env:
                return env[name]
            cl = parent
        ent_ = self.P.resolve(fr.module, name)
        if ent_ is not None:
            return self.entity(ent_, st)
        if name in BUILTIN_NAMES:
            return mk("ext", name)
        if name.endswith("Error") or name in ("Exception", "StopIteration", "KeyboardInterrupt", "BaseException"):
            return mk("ext", name)
        if name == "__name__" or name == "__file__":
            return mk("sym", name, ("prim", "str"))
        return opaque("name:" + name)

    def entity(self, e, st):
        if e[0] == "class":
            return mk("cls", e[1])
        if e[0] == "func":
            return mk("fn", e[1])
        if e[0] == "mod":
            return mk("mod", e[1])
        if e[0] == "ext":
            return mk("ext", norm_ext(e[1]))
        if e[0] == "clsattr":
            return self.getattr(mk("cls", e[1]), e[2], st)
        if e[0] == "var":
            return self.global_var(e, st)
        return opaque("entity")

    def global_var(self, e, st):
        _, mod, name, expr = e
        key = (mod, name)
        if key in self._globmemo:
            v = self._globmemo[key]
            if v is None:
                return opaque("global-cycle")
            if v.op == "glob" and (v, "*") not in st.heap and not self.module_mutates(mod, name):
                return self._globcontent[v]
            return v
        self._globmemo[key] = None
        if expr is None:
            v = opaque("global:" + name)
        else:
            m = self.P.modules[mod]
            s2 = st.clone()
            v = self.eval_in_module(m, expr, s2)
            if v.op == "ref" and self.refs.get(v, ("",))[0] in ("list", "dict", "set"):
                g = mk("glob", mod, name)
                self.refs[g] = self.refs[v]
                self._globcontent = getattr(self, "_globcontent", {})
                self._globcontent[g] = self.resolve(s2, v)
                if not self.module_mutates(mod, name):
                    self._globmemo[key] = g
                    return self._globcontent[g]
                v = g
            elif v.op == "ref":
                v = self.resolve(s2, v)
        self._globmemo[key] = v
        return v

    def module_mutates(self, mod, name):
        key = (mod, name)
        r = self._mutmemo.get(key)
        if r is None:
            r = False
            for n in ast.walk(self.P.modules[mod].tree):
                tgt = None
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                    for t in ts:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
                            r = True
                if (
                    isinstance(n, ast.Call)
                    and isinstance(n.func, ast.Attribute)
                    and isinstance(n.func.value, ast.Name)
                    and n.func.value.id == name
                    and n.func.attr in ("append", "extend", "update", "add", "setdefault", "pop", "clear", "insert", "remove")
                ):
                    r = True
                if isinstance(n, ast.Global) and name in n.names:
                    r = True
            self._mutmemo[key] = r
        return r

    # ----------------------------------------------------------- attributes
    def ex_Attribute(self, e, st):
        o = self.eval(e.value, st)
        if self.spec_missing(o, e.attr):
            return opaque("missing-attr:" + e.attr)
        if e.attr in ("values", "array") and not getattr(e, "callee", False) and self.tabular(o):
            return o
        if e.attr in ("all", "any") and is_bool(o):
            return mk("bm", o, e.attr)
        return self.getattr(o, e.attr, st)

    def spec_missing(self, o, name):
        """a specification mentions a member its class no longer has (renamed by
        a refactoring): nothing can be concluded"""
        if not self.stack or not self.stack[-1].module.name.startswith("spec_"):
            return False
        if name.startswith("__"):
            return False
        ls = leaves(o) if o.op == "ite" else [o]
        for l in ls[:8]:
            ci = self.exact_or_static_class(l)
            if ci is not None and ci.module.name.startswith("andromede") and not self.has_member(ci, name):
                self.note(f"specification mentions missing member {ci.qual}.{name}")
                return True
        return False

    def setlike(self, a):
        return a.op in ("keys", "seq") or self.container_kind(a) == "set" or a.op == "ite" and all(self.setlike(x) for x in leaves(a))

    def set_filter(self, a, b, keep, st):
        """{x for x in a if (x in b) == keep}"""
        c = self.iterable(b, st) if b.op != "keys" else b.args[0]

        def segs(src):
            if src.op in ("seq", "set") and all(x.op == "elem" for x in src.args[0]):
                return [mk_cond(mk_in(x.args[0], c) if keep else bnot(mk_in(x.args[0], c)), (x,)) for x in src.args[0]]
            if src.op == "ite":
                return [mk_cond(src.args[0], tuple(segs(src.args[1]))), mk_cond(bnot(src.args[0]), tuple(segs(src.args[2])))]
            if src.op == "set":
                src = mk_seq(list(src.args[0]), "seq")
            v = tm.elem_var(src)
            r = mk_in(v, c)
            return list(mk_for(src, v, [mk_cond(r if keep else bnot(r), (elem(v),))], "set"))
        src = self.iterable(a, st)
        if src.op in ("seq", "set", "ite"):
            return self.alloc_container(st, "set", segs(src))
        v = tm.elem_var(src)
        r = mk_in(v, c)
        return self.alloc_container(st, "set", mk_for(src, v, [mk_cond(r if keep else bnot(r), (elem(v),))], "set"))

    def has_member(self, ci, name):
        k = (ci.qual, name)
        r = self._membermemo.get(k)
        if r is None:
            r = False
            for c in self.P.mro(ci):
                if name in c.methods or name in c.setters or name in c.assigns or name in c.ann or self._init_sets(c, name):
                    r = True
                    break
                if any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self"
                       for n in ast.walk(c.node)):
                    r = True
                    break
            if not r and {b.split(".")[-1] for b in self.P.ext_bases(ci)} - {"ABC", "Generic", "object", "Protocol"}:
                r = True
            if not r:
                r = any(self.has_member(self.class_info(q), name) for q in self.P.subclasses(ci.qual))
            self._membermemo[k] = r
        return r

    def own_key(self, o, name):
        """the field of an object under which it is filed: D[k].name is k"""
        if name not in OWN_KEYS or o.op not in ("nth", "getitem"):
            return None
        if o.op == "getitem":
            d, key = o.args
        else:
            it, i = o.args
            if i not in (1, ONE):
                return None
            if it.op == "fv":
                src = tm.FV_SRC.get(it)
            else:
                src = it.args[0] if it.op == "nth" else None
            if src is None or src.op != "items":
                return None
            d, key = src.args[0], mk_nth(it, 0)
        if d.op != "attr" or d.args[1] not in OWN_KEYS[name]:
            return None
        tt = strip_none(self.type_of(d.args[0]))
        if tt and tt[0] == "c" and tt[1].split(".")[-1] in OWN_KEYS[name][d.args[1]]:
            return key
        return None

    def getattr(self, o, name, st):
        if o.op == "ite":
            ls = leaves(o)
            if len(ls) <= 8:
                return self._getattr_ite(o, name, st)
            if len(set(ls)) <= 8 and len(ls) <= 256:
                return self._getattr_shared(o, name, st)
            return mk("attr", o, name)
        if o.op == "filtered" and name == "index":
            return o.args[1]
        if name in ("at", "iat") and self.tabular(o):
            name = "loc" if name == "at" else "iloc"
        if name == "loc" and o.op == "getitem" and self.column_of(o):
            return o                            # a column is read by the labels of the rows
        if name == "parent":
            r = self.path_parent(o)
            if r is not None:
                return r
        v = st.heap.get((o, name))
        if v is not None:
            return v
        v = self.own_key(o, name)
        if v is not None:
            return v
        op = o.op
        if op not in ("new", "ref", "mod", "cls", "ext"):
            if name in memo.sound(self.P)[0]:
                g = mk("attr", o, name)
                self.refs.setdefault(g, ("dict", None))
                return g
            if name in memo.sound(self.P)[1]:
                return NONE
        if op == "cls" and o.args[0] + "." + name in self.P.classes:
            return mk("cls", o.args[0] + "." + name)
        if op == "fv" and tm.FV_SRC.get(o) is not None:
            v = st.heap.get((mk("each", close_binder("lam", tm.FV_SRC[o], o, o)), name))
            if v is not None and all(l.op == "lam" for l in leaves(v)):
                return push_ite(lambda l: open_binder(l, o)[1], v)
        if op == "mod":
            ent_ = self.P.resolve(o.args[0], name)
            if ent_ is None:
                return opaque("modattr:" + name)
            return self.entity(ent_, st)
        if op == "ext":
            return mk("ext", norm_ext(o.args[0] + "." + name))
        if op == "cls":
            return self.class_attr(o, name, st)
        if op in ("new",):
            r = new_field(o, name)
            if r is not None:
                return r
        if op == "enumv":
            if name == "name":
                return const(o.args[1])
            if name == "value":
                ci = self.class_info(o.args[0])
                ex = ci.assigns.get(o.args[1])
                if ex is not None:
                    v = self.eval_in_module(ci.module, ex, st)
                    return v
        if name == "__class__":
            return self.type_term(o)
        if op == "cls" and name == "__name__":
            return const(o.args[0].rsplit(".", 1)[-1])
        ci = self.exact_or_static_class(o)
        if ci is None:
            # refine by facts: kind(o, K) known true on this path
            ci = self.refined_class(o, st)
            if ci is not None:
                pm = self.P.find_method(ci, name)
                if pm is None:
                    return self.boolify_t(mk("attr", o, name), self.field_type(ci, name))
        if ci is not None:
            m = self.P.find_method(ci, name)
            if m is not None:
                if m.is_property:
                    if self.overridden(ci, name) and not self.is_exact(o):
                        return self.boolify(mk("attr", o, name))
                    return self.call_method_fi(m, o, [], [], st)
                if m.is_static:
                    return self.fn_term(m)
                return mk("bm", o, name)
            if op == "ref" or (op == "new"):
                a = self.P.find_assign(ci, name)
                if a is not None:
                    return self.class_attr(mk("cls", a[0].qual), name, st)
                return self.boolify(mk("attr", o, name))
            a = self.P.find_assign(ci, name)
            if a is not None and not ci.is_dataclass and name not in [f[0] for f in self.P.fields(ci)] and not self._init_sets(ci, name):
                return self.class_attr(mk("cls", a[0].qual), name, st)
            return self.boolify(mk_attr(o, name))
        if op in ("const", "seq", "dict", "set", "tuple", "ref", "cat", "shared", "glob", "poly", "len"):
            return mk("bm", o, name)
        return self.boolify(mk_attr(o, name))

    def boolify_t(self, t, typ):
        if typ == ("prim", "bool"):
            return truth(t)
        return t

    def _init_sets(self, ci, name):
        for c in self.P.mro(ci):
            init = c.methods.get("__init__")
            if init is not None:
                for n in ast.walk(init.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name:
                        return True
        return False

    def _getattr_shared(self, o, name, st):
        """many paths to a few objects: each object is read once"""
        at = {}

        def go(t):
            if t not in at:
                if t.op != "ite":
                    at[t] = self.getattr(t, name, st)
                else:
                    h, l = go(t.args[1]), go(t.args[2])
                    gone = (NONE, MISSING)
                    at[t] = l if t.args[1] in gone else h if t.args[2] in gone else mk_ite(atom(t.args[0]), h, l)
            return at[t]
        return go(o)

    def _getattr_ite(self, o, name, st):
        if o.op == "ite":
            a = atom(o.args[0])
            s1 = st.clone()
            s1.live = band(st.live, a)
            h = self._getattr_ite(o.args[1], name, s1) if s1.live is not FALSE else None
            s2 = st.clone()
            s2.live = band(st.live, bnot(a))
            l = self._getattr_ite(o.args[2], name, s2) if s2.live is not FALSE else None
            if h is None:
                return l
            if l is None:
                return h
            if o.args[1] is NONE:
                return l  # attribute of None: error path, not a value
            if o.args[2] is NONE:
                return h
            return mk_ite(a, h, l)
        return self.getattr(o, name, st)

    def refined_class(self, o, st):
        """class known on this path from an isinstance fact"""
        k = st.known()
        if k is TRUE:
            return None
        for a in atoms_of(k):
            if a.op == "kind" and a.args[0] is o and a.args[1] not in ("NoneType",):
                ci = self.class_info(a.args[1])
                if ci is not None and band(k, bnot(atom(a))) is FALSE:
                    return ci
        return None

    def overridden(self, ci, name):
        for q in self.P.subclasses(ci.qual):
            c = self.P.classes[q]
            if name in c.methods:
                return True
        return False

    def class_attr(self, o, name, st):
        q = o.args[0]
        ci = self.class_info(q)
        v = st.heap.get((o, name))
        if v is not None:
            return v
        if ci is None:
            return opaque("class?" + q)
        if name == "__name__":
            return const(ci.name)
        if self.P.is_enum(ci) and name in ci.assigns:
            return mk("enumv", q, name)
        m = self.P.find_method(ci, name)
        if m is not None:
            if m.is_class:
                return mk("bm", o, name)
            return self.fn_term(m)
        a = self.P.find_assign(ci, name)
        if a is not None:
            c, ex = a
            if isinstance(ex, (ast.Dict, ast.List, ast.Set)) or (
                isinstance(ex, ast.Call) and ast.unparse(ex.func) in ("dict", "list", "set", "defaultdict")
            ):
                g = mk("glob", c.qual, name)
                self.refs[g] = ("dict" if isinstance(ex, ast.Dict) or "dict" in ast.unparse(ex)[:12] else ("list" if not isinstance(ex, ast.Set) else "set"), None)
                if c.ann.get(name):
                    self.refs[g] = (self.refs[g][0], self.P.type_of_ann(c.module, c.ann[name][0]))
                return g
            return self.eval_in_module(c.module, ex, st, closure=c.env)
        return mk("attr", o, name)

    def fn_term(self, m):
        if m.env is not None:
            t = mk("clos", "m:" + m.qual)
            self.closures[t] = m
            return t
        return mk("fn", m.qual)

    def type_term(self, o):
        if o.op == "ite":
            return push_ite(self.type_term, o)
        if o.op in ("new", "enumv"):
            return mk("cls", o.args[0])
        if o.op == "ref" and self.refs.get(o, ("",))[0] == "inst":
            return mk("cls", self.refs[o][1])
        tt = self.type_of(o)
        if o.op == "const" and tt:
            return mk("ext", "NoneType" if tt == ("none",) else tt[1])
        return mk("typeof", o)

    # ----------------------------------------------------------- operators
    def ex_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], st)
        return self._boolop(is_and, v, e.values[1:], st)

    def _boolop(self, is_and, v, rest, st):
        if not rest:
            return v
        c = self.simplify_under(self.truthy(v, st), st)
        go = c if is_and else bnot(c)
        if go is FALSE or st.live is FALSE:
            return v
        if go is TRUE:
            return self._boolop(is_and, self.eval(rest[0], st), rest[1:], st)
        s1 = st.clone()
        s1.live = band(st.live, go)
        if s1.live is FALSE:
            return v
        w = self._boolop(is_and, self.eval(rest[0], s1), rest[1:], s1)
        s2 = st.clone()
        s2.live = band(st.live, bnot(go))
        self.into(st, self.merge_states(go, s1, s2))
        if is_bool(v) and is_bool(w):
            return mk_ite(go, w, v)
        # value semantics: v is falsy (and) / truthy (or) on the other side
        if is_bool(v):
            v = FALSE if is_and else TRUE
        return mk_ite(go, w, v)

    def ex_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return bnot(self.cond(e.operand, st))
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.USub):
            ci = self.op_class(v)
            if ci is not None:
                m = self.P.find_method(ci, "__neg__")
                if m:
                    return self.call_method_fi(m, v, [], [], st)
            return mk_neg(self.wrap_num(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if is_bool(v):
            return bnot(v)
        c = self.column_of(v)
        if c:
            return self.eq(v, FALSE, st)        # a column of truth values
        return mk("call", "invert", (v,))

    def wrap_num(self, v):
        if v.op == "ite" and all(l.op in ("const",) for l in leaves(v)):
            return v
        return v

    def op_class(self, v):
        """class whose operator methods must be inlined (None: plain arithmetic)"""
        if v.op == "ite":
            cs = {self.op_class(l) for l in leaves(v)}
            return cs.pop() if len(cs) == 1 else None
        ci = self.exact_or_static_class(v)
        if ci is None:
            return None
        if self.algebra and any(c.qual == NODE_BASE for c in self.P.mro(ci)):
            return None
        return ci

    def ex_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st)

    def binop(self, opn, a, b, st):
        ca, cb = self.op_class(a), self.op_class(b)
        d = DUNDER.get(opn)
        if d and (ca is not None or cb is not None):
            if ca is not None:
                m = self.P.find_method(ca, d[0])
                if m is not None:
                    return self.call_method_fi(m, a, [b], [], st)
            if cb is not None:
                m = self.P.find_method(cb, d[1])
                if m is not None:
                    return self.call_method_fi(m, b, [a], [], st)
        if opn == "Add":
            ka, kb = self.container_kind(a), self.container_kind(b)
            if ka == "list" or kb == "list":
                return self.alloc_container(st, "list", [splice(self.content(st, a)), splice(self.content(st, b))])
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", a.args[0] + b.args[0])
            if self.is_str(a) or self.is_str(b):
                r = self.labels_cat(a, b, st)
                return mk_cat([mk_str(a), mk_str(b)]) if r is None else r
            return mk_add(a, b)
        if opn == "Sub":
            if self.setlike(a) or self.setlike(b):
                return self.set_filter(a, b, False, st)
            return mk_sub(a, b)
        if opn == "Mult":
            if self.container_kind(a) == "list" or self.container_kind(b) == "list" or self.is_str(a) or self.is_str(b):
                return mk("call", "repeat", (self.content(st, a), self.content(st, b)))
            return mk_mul(a, b)
        if opn == "Div":
            if self.is_path(a) or self.is_path(b) or (self.is_str(b)):
                return self.mk_path(a, b)
            return mk_div(a, b)
        if opn == "Mod":
            if self.is_str(a):
                return opaque("strfmt")
            return mk("mod_", a, b)
        if opn == "FloorDiv":
            return mk("floordiv", a, b)
        if opn == "Pow":
            if is_num(a) and is_num(b) and isinstance(cval(b), int) and abs(cval(b)) < 40:
                from fractions import Fraction
                try:
                    return const(Fraction(cval(a)) ** cval(b))
                except ZeroDivisionError:
                    return opaque("pow")
            return mk("call", "pow", (a, b))
        if opn == "BitOr":
            ka, kb = self.container_kind(a), self.container_kind(b)
            if ka == "dict" or kb == "dict":
                return self.alloc_container(st, "dict", [splice(self.content(st, a)), splice(self.content(st, b))])
            if self.setlike(a) or self.setlike(b):
                a, b = self.iterable(a, st), self.iterable(b, st)
                return self.alloc_container(st, "set", [splice(self.content(st, a)), splice(self.content(st, b))])
            if is_bool(a) and is_bool(b):
                return bor(a, b)
        if opn == "BitAnd" and is_bool(a) and is_bool(b):
            return band(a, b)
        if opn == "BitAnd" and (self.setlike(a) or self.setlike(b)):
            return self.set_filter(a, b, True, st)
        return mk("uop", opn, (self.content(st, a), self.content(st, b)))

    def is_str(self, t):
        if t.op == "cat":
            return True
        if t.op == "const":
            return t.args[0] == "str"
        tt = strip_none(self.type_of(t))
        return tt == ("prim", "str")

    def mk_path(self, a, b):
        """a / b; a path of several parts is built part by part"""
        if b.op == "call" and b.args[0] == "pathlib.Path" and len(b.args[1]) == 1:
            return self.mk_path(a, b.args[1][0])
        if b.op == "call" and b.args[0] == "path/":
            return self.mk_path(self.mk_path(a, b.args[1][0]), b.args[1][1])
        if is_const(b) and b.args[0] == "str" and "/" in b.args[1].strip("/") and not b.args[1].startswith("/") and "//" not in b.args[1]:
            for x in b.args[1].strip("/").split("/"):
                a = mk("call", "path/", (a, const(x)))
            return a
        return mk("call", "path/", (a, b))

    def path_parent(self, o):
        """(a / "name").parent, for a name written without separators"""
        if o.op == "call" and o.args[0] == "path/":
            b = o.args[1][1]
            parts = b.args[0] if b.op == "cat" else (b,)
            texts = [x.args[1] for x in parts if is_const(x) and x.args[0] == "str"]
            if any(x.strip(".") for x in texts) and not any("/" in x for x in texts):
                return o.args[1][0]
        return None

    def is_path(self, t):
        if t.op == "call" and isinstance(t.args[0], str) and (t.args[0] == "path/" or "Path" in t.args[0]):
            return True
        tt = strip_none(self.type_of(t))
        return bool(tt and tt[0] == "ext" and "Path" in tt[1])

    def ex_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            c = self.compare_op(op, left, right, st)
            if len(e.ops) == 1:
                return c
            res = band(res, truth(c))
            left = right
        return res

    def compare_op(self, op, a, b, st):
        n = type(op).__name__
        if n in ("Eq", "NotEq", "LtE", "GtE", "Lt", "Gt"):
            ci = None
            if n in ("Eq", "NotEq", "LtE", "GtE"):
                ci = self.exact_or_static_class(a)
                mn = {"Eq": "__eq__", "NotEq": "__eq__", "LtE": "__le__", "GtE": "__ge__"}[n]
                m = ci and self.P.find_method(ci, mn)
                if m is not None and not (b is NONE) and not self.overridden(ci, mn):
                    r = self.call_method_fi(m, a, [b], [], st)
                    return bnot(truth(r)) if n == "NotEq" else r
        if n == "Eq":
            return self.eq(a, b, st)
        if n == "NotEq":
            return bnot(self.eq(a, b, st))
        if n == "Is":
            return self.is_(a, b)
        if n == "IsNot":
            return bnot(self.is_(a, b))
        if n == "Lt":
            return self.lt(b, a)
        if n == "Gt":
            return self.lt(a, b)
        if n == "LtE":
            return bnot(self.lt(a, b))
        if n == "GtE":
            return bnot(self.lt(b, a))
        if n == "In":
            return self.in_(a, b, st)
        if n == "NotIn":
            return bnot(self.in_(a, b, st))
        return atom(mk("batom", n, a, b))

    def lt(self, a, b):
        """a > b"""
        return mk_gt(a, b)

    def is_(self, a, b):
        if a is NONE:
            return self.is_none(b)
        if b is NONE:
            return self.is_none(a)
        if b.op in ("cls", "enumv") or a.op in ("cls", "enumv") or a in (TRUE, FALSE) or b in (TRUE, FALSE):
            return self.eq_type(a, b)
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x.op == "ref":   # an object made here is not one that was given
                while y.op == "attr" and isinstance(y.args[0], T):
                    y = y.args[0]
                if y.op == "sym":
                    return FALSE
        return atom(mk("same", a, b)) if a.id < b.id else atom(mk("same", b, a))

    def eq_type(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "typeof" and y.op == "cls":
                return atom(mk("kind", x.args[0], y.args[0]))
            if x.op == "typeof" and y.op == "ext":
                return self._isinst_prim(x.args[0], y.args[0])
        return mk_eq(a, b)

    def eq(self, a, b, st):
        if a.op == "typeof" or b.op == "typeof":
            return self.eq_type(a, b)
        ca = self.content(st, a)
        cb = self.content(st, b)
        ra, rb = self.resolve(st, ca), self.resolve(st, cb)
        return mk_eq(ra, rb)

    def in_(self, x, c, st):
        cc = self.content(st, c)
        tt = self.type_of(cc)
        return mk_in(self.resolve(st, x), cc)

    def ex_IfExp(self, e, st):
        c = self.simplify_under(self.cond(e.test, st), st)
        if c is TRUE:
            return self.eval(e.body, st)
        if c is FALSE:
            return self.eval(e.orelse, st)
        s1 = st.clone()
        s1.live = band(st.live, c)
        s2 = st.clone()
        s2.live = band(st.live, bnot(c))
        if s1.live is FALSE:
            return self.eval(e.orelse, st)
        if s2.live is FALSE:
            return self.eval(e.body, st)
        a = self.eval(e.body, s1)
        b = self.eval(e.orelse, s2)
        l1, l2 = s1.live, s2.live
        self.into(st, self.merge_states(c, s1, s2))
        if l1 is FALSE:
            return b
        if l2 is FALSE:
            return a
        return mk_ite(c, a, b)

    def ex_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def ex_Lambda(self, e, st):
        fr = self.stack[-1]
        fi = FuncInfo((fr.fi.qual if fr.fi else "?") + ".<lambda>", e, fr.module, None, None)
        return self.make_closure(fi, st, fr)

    def ex_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                c = self.content(st, self.eval(x.value, st))
                if c.op == "tuple":
                    out.extend(c.args[0])
                elif c.op == "seq" and all(s.op == "elem" for s in c.args[0]):
                    out.extend(s.args[0] for s in c.args[0])
                else:
                    return opaque("tuple*")
            else:
                out.append(self.eval(x, st))
        return mk("tuple", tuple(out))

    def ex_List(self, e, st):
        return self.alloc_container(st, "list", self._elts(e.elts, st))

    def ex_Set(self, e, st):
        return self.alloc_container(st, "set", self._elts(e.elts, st))

    def _elts(self, elts, st):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs.append(splice(self.iterable(self.eval(x.value, st), st)))
            else:
                segs.append(elem(self.eval(x, st)))
        return segs

    def ex_Dict(self, e, st):
        segs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                segs.append(splice(self.content(st, self.eval(v, st))))
            else:
                kk = self.eval(k, st)
                segs.append(ent(kk, self.eval(v, st)))
        return self.alloc_container(st, "dict", segs)

    def ex_Subscript(self, e, st):
        o = self.eval(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, st) if e.slice.lower else NONE
            hi = self.eval(e.slice.upper, st) if e.slice.upper else NONE
            step = self.eval(e.slice.step, st) if e.slice.step else NONE
            return self.slice_(self.content(st, o), lo, hi, step)
        if o.op in ("cls", "ext") and not (o.op == "cls" and self.P.is_enum(self.class_info(o.args[0]))):
            if o.op == "cls" or o.args[0].split(".")[0] in ("typing", "list", "dict", "set", "tuple"):
                return o
        k = self.eval(e.slice, st)
        if o.op == "cls" and is_const(k):
            ci = self.class_info(o.args[0])
            if ci and cval(k) in ci.assigns:
                return mk("enumv", o.args[0], cval(k))
        return self.getitem(o, k, st)

    def slice_(self, c, lo, hi, step):
        if c.op == "ite":
            return push_ite(lambda x: self.slice_(x, lo, hi, step), c)
        if (lo is NONE or lo is ZERO) and hi is NONE and step is NONE:
            return c
        if step is NONE and c.op in ("seq", "tuple"):
            es = None
            if c.op == "tuple":
                es = [elem(x) for x in c.args[0]]
            elif all(s.op == "elem" for s in c.args[0]):
                es = list(c.args[0])
            if es is not None and (lo is NONE or is_num(lo)) and (hi is NONE or is_num(hi)):
                r = es[slice(None if lo is NONE else cval(lo), None if hi is NONE else cval(hi))]
                if c.op == "tuple":
                    return mk("tuple", tuple(x.args[0] for x in r))
                return mk_seq(r, "seq")
            if c.op == "seq" and c.args[0] and c.args[0][0].op == "elem" and lo is ONE and hi is NONE:
                return mk_seq(list(c.args[0][1:]), "seq")
        if c.op == "seq" and len(c.args[0]) == 1 and c.args[0][0].op == "for" and lo is not NONE and hi is NONE and step is NONE:
            # slice of a one-to-one map is the map of the slice
            f = c.args[0][0]
            v, segs = open_binder(f)
            if len(segs) == 1 and segs[0].op == "elem":
                src2 = mk("slice", f.args[0], lo, hi, step)
                FV_SRC[v] = src2
                return mk_seq(mk_for(src2, v, segs), "seq")
        return mk("slice", c, lo, hi, step)

    def getitem(self, o, k, st):
        if o.op == "ite":
            return push_ite(lambda x: self.getitem(x, k, st), o)
        r = self.frame_getitem(o, k, st)
        if r is not None:
            return r
        ci = self.exact_or_static_class(o)
        if ci is not None:
            m = self.P.find_method(ci, "__getitem__")
            if m is not None:
                return self.call_method_fi(m, o, [k], [], st)
        c = self.content(st, o)
        k = self.resolve(st, k)
        if self.stack[-1].intry:
            kd = self.container_kind(c)
            if kd == "dict" or kd is None:
                bad = bnot(mk_in(k, c))
                if bad is not FALSE:
                    self.add_exit(st, bad, "raise", const("KeyError"))
                    st.live = band(st.live, bnot(bad))
        elif self.container_kind(c) == "dict" and self.lookups:
            from .interp import State
            bad = self.simplify_under(bnot(mk_in(k, c)), st)
            if bad is not FALSE:
                self.add_exit(st, bad, "lookup", NONE, State({}, {}, TRUE, TRUE))
        return self.boolify(self.mk_getitem(c, k))

    def mk_getitem(self, c, k):
        if c.op == "seq" and len(c.args[0]) == 1 and c.args[0][0].op == "for" and is_num(k):
            f = c.args[0][0]
            v, segs = open_binder(f)
            if len(segs) == 1 and segs[0].op == "elem":
                return subst(segs[0].args[0], {v: self.mk_getitem(f.args[0], k)})
        return mk_getitem(c, k)

    def ex_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st)
                if v.format_spec is not None:
                    parts.append(mk("call", "format", (x, self.eval(v.format_spec, st))))
                elif v.conversion not in (-1, None) and v.conversion != 115:
                    parts.append(mk("call", "conv%d" % v.conversion, (self.resolve(st, x),)))
                else:
                    parts.append(self.to_str(x, st))
        return mk_cat(parts)

    def to_str(self, x, st):
        ci = self.op_class(x)
        if x.op in ("new",) and ci is not None:
            m = self.P.find_method(ci, "__str__") or self.P.find_method(ci, "__repr__")
            if m:
                return self.call_method_fi(m, x, [], [], st)
        x = self.resolve(st, x)
        if x.op in ("new", "seq", "dict", "tuple"):
            return mk("call", "str", (x,))
        return mk_str(x)

    def ex_FormattedValue(self, e, st):
        return self.to_str(self.eval(e.value, st), st)

    def ex_Starred(self, e, st):
        return self.eval(e.value, st)

    def ex_Slice(self, e, st):
        return mk("slice3", *[NONE if x is None else self.eval(x, st) for x in (e.lower, e.upper, e.step)])

    def ex_Yield(self, e, st):
        fr = self.stack[-1]
        v = NONE if e.value is None else self.eval(e.value, st)
        if fr.yields is not None:
            self.set_content(st, fr.yields, lambda c: mk_seq([splice(c), elem(v)], "seq"))
        return NONE

    def ex_YieldFrom(self, e, st):
        fr = self.stack[-1]
        v = self.iterable(self.eval(e.value, st), st)
        if fr.yields is not None:
            self.set_content(st, fr.yields, lambda c: mk_seq([splice(c), splice(v)], "seq"))
        return NONE

    # ----------------------------------------------------------- resolve
    def resolve(self, st, t, depth=0):
        """replace references by the value they hold in st (by-reference positions)"""
        if depth > 30:
            return opaque("deep")
        o = t.op
        if o == "ite":
            return mk_ite(atom(t.args[0]), self.resolve(st, t.args[1], depth + 1), self.resolve(st, t.args[2], depth + 1))
        if o == "ref":
            k = self.refs.get(t)
            if k[0] == "inst":
                return self.resolve_inst(st, t, k[1], depth)
            c = st.heap.get((t, "*"))
            if c is None:
                return t
            return self.resolve_content(st, c, depth + 1)
        if o in ("seq", "dict", "set"):
            return self.resolve_content(st, t, depth + 1)
        if o == "tuple":
            return mk("tuple", tuple(self.resolve(st, x, depth + 1) for x in t.args[0]))
        if o == "new":
            fs = tuple((n, self.resolve(st, v, depth + 1)) for n, v in t.args[1])
            return self.mk_new(t.args[0], fs)
        if o in ("shared", "glob"):
            c = st.heap.get((t, "*"))
            return self.resolve_content(st, c, depth + 1) if c is not None else t
        if o in ("const", "sym", "cls", "fn", "enumv"):
            if o == "sym":
                return self.resolve_overlay(st, t, depth)
            return t
        if o in ("call", "mcall", "dyn"):
            na = tuple(self._res_arg(st, a, depth) for a in t.args)
            r = t if na == t.args else mk(o, *na)
            return self.resolve_overlay(st, r, depth) if r is t else r
        if o == "clos":
            return t
        if t.flags & 4:
            m = {}
            for r in _refs(t):
                if r not in self._resolving:
                    x = self.resolve(st, r, depth + 1)
                    if x is not r:
                        m[r] = x
            if m:
                return subst(t, m)
        return self.resolve_overlay(st, t, depth)

    def _res_arg(self, st, a, depth):
        if isinstance(a, T):
            if a.op in ("ref", "new", "tuple", "seq", "dict"):
                return self.resolve(st, a, depth + 1)
            return a
        if isinstance(a, tuple):
            return tuple(self._res_arg(st, x, depth) for x in a)
        return a

    def each_overlay(self, st, t):
        """list whose elements were updated in place by a loop"""
        eb = mk("each", close_binder("lam", t, *(lambda v: (v, v))(fvar(None))))
        fs = {f: val for (o, f), val in st.heap.items() if o is eb}
        if not fs:
            return None
        et = self.elem_type(t)
        ci = self.class_info(et[1]) if et and et[0] == "c" else None
        v = elem_var(t)
        vals = {}
        for f, val in fs.items():
            if not all(l.op == "lam" for l in leaves(val)):
                return opaque("each")
            vals[f] = push_ite(lambda l: open_binder(l, v)[1], val)
        if ci is None:
            return opaque("each")
        names = self.instance_fields(ci)
        rec = self.mk_new(ci.qual, tuple((n, vals[n] if n in vals else self.boolify(mk_attr(v, n))) for n in names))
        return mk_seq(mk_for(t, v, [elem(rec)]), "seq")

    def has_each(self, st):
        return any(o.op == "each" for (o, f) in st.heap)

    def resolve_overlay(self, st, t, depth):
        c = st.heap.get((t, "*"))
        if c is not None:
            return self.resolve_content(st, c, depth + 1)
        if self.has_each(st) and self.container_kind(t) == "list":
            r = self.each_overlay(st, t)
            if r is not None:
                return r
        ov = self._overlays(st).get(t)
        if ov:
            tt = strip_none(self.type_of(t))
            if tt and tt[0] == "c":
                ci = self.class_info(tt[1])
                names = self.instance_fields(ci)
                if names:
                    fs = []
                    for n in names:
                        v = st.heap.get((t, n))
                        if v is None:
                            v = self.boolify(mk_attr(t, n))
                            cc = st.heap.get((v, "*"))
                            if cc is not None:
                                v = self.resolve_content(st, cc, depth + 1)
                            else:
                                v = self.resolve_overlay(st, v, depth + 1) if v.op == "attr" else v
                        else:
                            v = self.resolve(st, v, depth + 1) if v is not t else v
                        fs.append((n, v))
                    for n in sorted(ov):
                        if n not in names:
                            fs.append((n, self.resolve(st, st.heap[(t, n)], depth + 1)))
                    return self.mk_new(ci.qual, tuple(fs))
            return mk("upd", t, tuple((n, self.resolve(st, st.heap[(t, n)], depth + 1)) for n in sorted(ov)))
        return t

    def _overlays(self, st):
        d = {}
        for (t, f) in st.heap:
            if f != "*" and isinstance(f, str) and t.op not in ("ref", "eff"):
                d.setdefault(t, []).append(f)
        return d

    def instance_fields(self, ci):
        """names of the instance attributes"""
        names = [f[0] for f in self.P.fields(ci)]
        if names:
            return names
        out = []
        for c in reversed(self.P.mro(ci)):
            for n in c.ann:
                if n not in out:
                    out.append(n)
            init = c.methods.get("__init__")
            if init is not None:
                for n in ast.walk(init.node):
                    if (
                        isinstance(n, ast.Attribute)
                        and isinstance(n.ctx, ast.Store)
                        and isinstance(n.value, ast.Name)
                        and n.value.id == "self"
                        and n.attr not in out
                    ):
                        out.append(n.attr)
        return out

    def resolve_inst(self, st, t, q, depth):
        if t in self._resolving:
            return mk("cyc", q)
        self._resolving.append(t)
        try:
            ci = self.class_info(q)
            names = [n for n in self.instance_fields(ci)]
            have = sorted(f for (o, f) in st.heap if o is t and isinstance(f, str) and f != "*")
            order = [n for n in names if n in have] + [n for n in have if n not in names]
            fs = tuple((n, self.resolve(st, st.heap[(t, n)], depth + 1)) for n in order)
            return self.mk_new(q, fs)
        finally:
            self._resolving.pop()

    _resolving = []

    def resolve_content(self, st, c, depth):
        if c.op == "ite":
            return mk_ite(atom(c.args[0]), self.resolve_content(st, c.args[1], depth), self.resolve_content(st, c.args[2], depth))
        if c.op not in ("seq", "dict", "set"):
            return self.resolve(st, c, depth + 1) if c.op in ("ref", "new", "tuple") else c
        segs = [self._res_seg(st, s, depth) for s in c.args[0]]
        return mk_seq(segs, c.op)

    def _res_seg(self, st, s, depth):
        if s.op == "elem":
            return elem(self.resolve(st, s.args[0], depth + 1))
        if s.op == "ent":
            return ent(self.resolve(st, s.args[0], depth + 1), self.resolve(st, s.args[1], depth + 1))
        if s.op == "splice":
            x = s.args[0]
            if x.op in ("ref",):
                return splice(self.resolve(st, x, depth + 1))
            return s
        if s.op == "cond":
            return mk_cond(s.args[0], tuple(self._res_seg(st, x, depth) for x in s.args[1]))
        if s.op == "for":
            v, segs = open_binder(s)
            inner = [self._res_seg(st, x, depth) for x in segs]
            r = mk_for(s.args[0], v, inner, "any")
            return r[0] if len(r) == 1 else mk("cond", TRUE, tuple(r))
        return s

    def mk_new(self, q, fs):
        """record constructor with eta: new(K, f=attr(t,f)...) == t"""
        base = None
        ok = bool(fs)
        ci = self.class_info(q)
        for n, v in fs:
            x = v
            if x.op == "ite" and x.args[1] is TRUE and x.args[2] is FALSE and x.args[0].op == "truth":
                x = x.args[0].args[0]
            if x.op == "attr" and x.args[1] == n:
                if base is None:
                    base = x.args[0]
                elif base is not x.args[0]:
                    ok = False
                    break
            else:
                ok = False
                break
        if ok and base is not None and ci is not None:
            tt = self.type_of(base)
            if tt == ("c", q) and not self.P.subclasses(q) and len(fs) == len(self.instance_fields(ci)):
                return base
        return mk("new", q, tuple(fs))


def _refs(t):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen or not x.flags & 4:
            continue
        seen.add(x)
        if x.op == "ref":
            out.append(x)
            continue
        stack.extend(y for y in tm.subterms(x.args))
    return out


def norm_ext(n):
    return {
        "ortools.linear_solver.pywraplp": "lp",
        "numpy": "np", "pandas": "pd",
    }.get(n, n).replace("ortools.linear_solver.pywraplp.", "lp.").replace("builtins.", "")


def atoms_of(t, out=None, seen=None):
    """decision atoms of a decision diagram"""
    if out is None:
        out, seen = [], set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.op != "ite" or x in seen:
            continue
        seen.add(x)
        if x.args[0] not in out:
            out.append(x.args[0])
        stack.append(x.args[1])
        stack.append(x.args[2])
    return out
