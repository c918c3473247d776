"""Calls: repository functions, constructors, container methods, builtins,
external libraries (left as interpreted call nodes, recorded as effects unless
known to be pure)."""
import ast
import json
import os

from .frontend import strip_none, maybe_none
from .terms import *  # noqa
from .frames import ARITHMETIC, named
from . import memo
from . import terms as tm

VISIT = "andromede.expression.visitor.visit"

PURE_EXT = (
    "math.", "itertools.", "functools.", "typing.", "operator.", "dataclasses.", "np.", "os.path.", "re.", "pathlib.", "copy.",
    "inspect.", "collections.", "enum.",
)
LOGGING = {"debug", "info", "warning", "error", "critical", "exception", "log"}


def is_logger(o):
    """log messages are not part of any result"""
    if o.op == "attr":
        return "log" in str(o.args[1]).lower()
    if o.op == "xcall":
        return str(o.args[0]).split(".")[-1] == "getLogger"
    return o.op in ("sym", "param", "var") and "logger" in str(o.args[0]).lower()


PURE_METHODS = {
    # ortools / generic read accessors
    "infinity", "Infinity", "name", "read", "dumps", "lb", "ub", "Lb", "Ub", "GetCoefficient", "offset", "Objective", "variables", "constraints",
    "solution_value", "Value", "NumVariables", "NumConstraints", "is_integer", "index", "integer", "Integer",
    "BestBound", "minimization", "LookupVariable", "LookupConstraint", "variable", "constraint", "basis_status",
    # str/path/pandas-like reads
    "lower", "upper", "strip", "split", "replace", "startswith", "endswith", "join", "format", "exists", "is_dir", "is_file",
    "get", "keys", "values", "items", "copy", "count", "mean", "sum", "max", "min", "all", "any", "tolist", "to_dict",
    "iloc", "loc", "astype", "round", "unique", "isin", "groupby", "stem", "suffix", "parent", "group", "degree",
    "lstrip", "rstrip", "title", "isdigit", "is_absolute", "resolve", "absolute", "with_suffix", "glob", "relative_to", "capitalize",
    "splitlines", "encode", "decode", "zfill", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint",
    "getText", "getChild", "getChildCount", "expr", "shift", "shift_expr", "IDENTIFIER", "NUMBER", "COMPARISON", "port_field", "right_expr",
    "symmetric_difference", "head", "fillna", "to_numpy", "nonzero", "item", "reshape", "transpose", "dot",
    "DataFrame", "Series", "concat", "reset_index", "clip", "rename", "to_frame", "removesuffix", "removeprefix", "isna", "isnull", "notna", "notnull",
    "equals", "dropna", "select_dtypes", "stat", "model_dump", "nunique", "diff", "cumsum", "idxmax", "idxmin", "with_name",
}
BOOL_METHODS = {"exists", "is_file", "is_dir", "startswith", "endswith", "isdigit", "isalpha", "isalnum", "isidentifier", "isspace", "islower", "isupper", "is_absolute"}
IGNORED_CALLS = {"print", "warnings.warn", "logging.debug", "logging.info", "logging.warning", "logging.error"}


SPEC_CALLS = {}
_sig = os.path.join(os.path.dirname(os.path.abspath(__file__)), "signatures.json")
SIGNATURES = json.load(open(_sig)) if os.path.exists(_sig) else {}


def without_suffix(t, x):
    """the text without the suffix it ends with (None: not known to end with it)"""
    if t.op == "const" and t.args[0] == "str" and x:
        return const(cval(t)[:-len(x)]) if cval(t).endswith(x) else None
    if t.op == "cat":
        last = without_suffix(t.args[0][-1], x)
        return None if last is None else mk_cat(list(t.args[0][:-1]) + [last])
    if t.op == "call" and t.args[0] == "path/":
        last = without_suffix(t.args[1][1], x)
        return None if last is None or last is const("") else mk("call", "path/", (t.args[1][0], last))
    return None


def right_stripped(t, x):
    if t.op == "const" and t.args[0] == "str":
        return const(cval(t).rstrip(x)) if cval(t).rstrip(x) else None
    if t.op == "cat":
        last = right_stripped(t.args[0][-1], x)
        return None if last is None else mk_cat(list(t.args[0][:-1]) + [last])
    if t.op == "call" and t.args[0] == "path/":
        last = right_stripped(t.args[1][1], x)
        return None if last is None else mk("call", "path/", (t.args[1][0], last))
    return None


class Builtins:
    # ------------------------------------------------------------ call expr
    def ex_Call(self, e, st):
        # super().method(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            return self.super_call(e, st)
        e.func.callee = True
        f = self.eval(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(("star", self.eval(a.value, st)))
            else:
                args.append(self.eval(a, st))
        kwargs = [(k.arg, self.eval(k.value, st)) for k in e.keywords]
        if st.live is FALSE:
            return NONE
        return self.call(f, args, kwargs, st, e)

    def super_call(self, e, st):
        fr = self.stack[-1]
        slf = st.env.get("self")
        args = [self.eval(a, st) for a in e.args]
        kwargs = [(k.arg, self.eval(k.value, st)) for k in e.keywords]
        if slf is None or fr.cls is None:
            return opaque("super")
        ci = self.exact_or_static_class(slf) or fr.cls
        mro = self.P.mro(ci)
        if fr.cls in mro:
            mro = mro[mro.index(fr.cls) + 1:]
        for c in mro:
            if e.func.attr in c.methods:
                return self.call_method_fi(c.methods[e.func.attr], slf, args, kwargs, st)
        if e.func.attr in ("__init__", "__post_init__", "__init_subclass__"):
            return NONE
        return opaque("super." + e.func.attr)

    def call(self, f, args, kwargs, st, node=None):
        o = f.op
        if o == "ite":
            return self.call_ite(f, args, kwargs, st)
        if o == "fn":
            fi = self.P.funcs.get(f.args[0]) or self.method_by_qual(f.args[0])
            if fi is None:
                return opaque("fn?" + f.args[0])
            return self.call_fi(fi, args, kwargs, st)
        if o == "clos":
            fi = self.closures[f]
            return self.call_fi(fi, args, kwargs, st)
        if o == "bm":
            return self.call_method(f.args[0], f.args[1], args, kwargs, st)
        if o == "cls":
            return self.construct(f.args[0], args, kwargs, st)
        if o == "ext":
            return self.call_ext(f.args[0], args, kwargs, st)
        if o == "partial":
            pf, pa, pk = f.args
            return self.call(pf, list(pa) + args, [(n, v) for n, v in pk if n not in dict(kwargs)] + kwargs, st)
        if o == "attr":
            # method of an object of unknown/external type
            return self.call_method(f.args[0], f.args[1], args, kwargs, st)
        if o == "opaque":
            self.effect(st, mk("xcall", f, self.flat(args, st), self.kw(kwargs, st)))
            return opaque("call")
        ci = self.exact_or_static_class(f)
        if ci is not None:
            m = self.P.find_method(ci, "__call__")
            if m is not None:
                if self.is_exact(f) or not (self.overridden(ci, "__call__") or m.is_abstract):
                    return self.call_method_fi(m, f, args, kwargs, st)
                return self.mcall(f, "__call__", m, args, kwargs, st)
        return mk("call", "dyn", (f,) + self.flat(args, st))

    def call_ite(self, f, args, kwargs, st):
        a = atom(f.args[0])
        s1 = st.clone()
        s1.live = band(st.live, a)
        s2 = st.clone()
        s2.live = band(st.live, bnot(a))
        v1 = self.call(f.args[1], args, kwargs, s1) if s1.live is not FALSE else NONE
        v2 = self.call(f.args[2], args, kwargs, s2) if s2.live is not FALSE else NONE
        l1, l2 = s1.live, s2.live
        self.into(st, self.merge_states(a, s1, s2))
        if l1 is FALSE:
            return v2
        if l2 is FALSE:
            return v1
        return mk_ite(a, v1, v2)

    def flat(self, args, st):
        out = []
        for a in args:
            if isinstance(a, tuple):
                c = self.content(st, a[1])
                if c.op == "tuple":
                    out.extend(self.resolve(st, x) for x in c.args[0])
                elif c.op == "seq" and all(s.op == "elem" for s in c.args[0]):
                    out.extend(self.resolve(st, s.args[0]) for s in c.args[0])
                else:
                    out.append(mk("starred", self.resolve(st, c)))
            else:
                out.append(self.resolve(st, a))
        return tuple(out)

    def kw(self, kwargs, st):
        return tuple(sorted(((n or "**"), self.resolve(st, v)) for n, v in kwargs) if all(n for n, _ in kwargs) else
                     [((n or "**"), self.resolve(st, v)) for n, v in kwargs])

    def effect(self, st, t):
        from .interp import EFFKEY, EFF
        st.heap[EFFKEY] = mk_seq([splice(st.heap.get(EFFKEY, EFF)), elem(t)])

    def from_spec(self):
        return bool(self.stack) and self.stack[-1].module is not None and self.stack[-1].module.name.startswith("spec_")

    # ------------------------------------------------------------ repo functions
    def call_fi(self, fi, args, kwargs, st):
        if fi.decorators and memo.is_cached(fi):
            bad = memo.stale(self.P, fi)
            if bad:
                self.stale.add((fi.qual, bad[0].name + "." + bad[1], bad[2].qual))
        if any(d and d.split(".")[-1] in ("lru_cache", "cache", "contextmanager", "wraps", "singledispatch") for d in fi.decorators):
            if not any(d and d.split(".")[-1] in ("lru_cache", "cache") for d in fi.decorators):
                return opaque("decorated:" + fi.qual)
        if fi.name.startswith("_") and not fi.name.startswith("__") and self.from_spec():
            sig = SIGNATURES.get(fi.qual)
            if sig is None:
                SPEC_CALLS[fi.qual] = fi.params()[0]
            elif sig != fi.params()[0]:
                self.note(f"interface of {fi.qual} changed")
                self.unfolded = True
        env = self.bind_args(fi, args, kwargs, st)
        if env is None:
            self.note(f"argument binding failed for {fi.qual}")
            return opaque("args:" + fi.qual)
        if fi.qual == VISIT:
            root = env[fi.params()[0][0]]
            if root.op == "ite":
                # dispatch leaf by leaf
                return self._visit_ite(fi, root, env, st)
            if not (root.op == "new"):
                return self.cut_call(fi, env, st)
        elif fi.qual in self.cut:
            return self.cut_call(fi, env, st)
        elif fi.qual in self.cut_nested and not (len(self.stack) == 2 and self.stack[1].fi is not None and self.stack[1].fi.name.startswith("impl_")):
            return self.cut_call(fi, env, st)
        elif self.recursive(fi):
            # structural recursion: unfold only on constructed nodes
            pos = fi.params()[0]
            for n in pos:
                a = env.get(n)
                if a is not None and a.op not in ("new",) and self.node_param(fi, n):
                    return self.cut_call(fi, env, st)
                if a is not None and self.node_param(fi, n):
                    break
        if sum(1 for fr in self.stack if fr.fi is not None and fr.fi.qual == fi.qual) >= (8 if fi.qual == VISIT else (6 if fi.env is not None and not isinstance(fi.node, ast.Lambda) else self.unfold)) and not isinstance(fi.node, ast.Lambda) and not self.progress_ok(fi, env):
            t = self.cut_call(fi, env, st)
            if self.P.recursive and fi.qual in self.P.recursive and fi.qual == VISIT:
                return t
            if not memo.plainly_pure(fi):
                self.unfolded = True        # effects of the remaining recursion are not in the value graph
            self.residual = True
            return mk("rcall", t)
        return self.call_function(fi, env, st)

    def node_param(self, fi, n):
        ann = fi.annotation(n)
        if ann is None:
            return False
        t = strip_none(self.P.type_of_ann(fi.module, ann))
        return bool(t and t[0] == "c" and self.is_sub(t[1], "andromede.expression.expression.ExpressionNode"))

    def recursive(self, fi):
        if fi.env is not None or isinstance(fi.node, ast.Lambda):
            return False
        if self.P.recursive is None:
            self.P.recursive = recursive_functions(self.P)
        return fi.qual in self.P.recursive

    def progress_ok(self, fi, env):
        """recursion from one allocated object to another one"""
        if not env or len(self.stack) > 16:
            return False
        me = next(iter(env.values()))
        if me.op != "ref":
            return False
        return all(getattr(fr, "arg0", None) is not me for fr in self.stack if fr.fi is not None and fr.fi.qual == fi.qual)

    def _visit_ite(self, fi, root, env, st):
        p = fi.params()[0][0]
        if root.op == "ite":
            a = atom(root.args[0])
            s1 = st.clone(); s1.live = band(st.live, a)
            s2 = st.clone(); s2.live = band(st.live, bnot(a))
            v1 = self._visit_ite(fi, root.args[1], env, s1) if s1.live is not FALSE else NONE
            v2 = self._visit_ite(fi, root.args[2], env, s2) if s2.live is not FALSE else NONE
            self.into(st, self.merge_states(a, s1, s2))
            return mk_ite(a, v1, v2)
        e2 = dict(env)
        e2[p] = root
        if root.op == "new":
            return self.call_function(fi, e2, st)
        return self.cut_call(fi, e2, st)

    def cut_call(self, fi, env, st):
        pos, va, kwo, kwa = fi.params()
        names = pos + kwo + ([va] if va else []) + ([kwa] if kwa else [])
        args = tuple(self.resolve(st, env[n]) for n in names if n in env)
        if fi.qual in self.drop_self:
            args = args[1:]
        t = mk("call", fi.qual, args)
        self.cut_hits.add(fi.qual)
        if fi.qual in self.no_inline or getattr(self, "cut_effects", None) and fi.qual in self.cut_effects:
            self.effect(st, t)
        if self.stack and self.stack[-1].intry or fi.qual in self.raising:
            self.may_raise(t, st)
        return self.boolify(t)

    def may_raise(self, t, st):
        r = atom(mk("raises", t))
        self.add_exit(st, r, "raise", const("any"))
        st.live = band(st.live, bnot(r))

    def call_method_fi(self, m, o, args, kwargs, st):
        if m.is_static:
            return self.call_fi(m, args, kwargs, st)
        return self.call_fi(m, [o] + list(args), kwargs, st)

    def mcall(self, o, name, m, args, kwargs, st):
        """polymorphic repository method: interpreted as an unknown pure function"""
        env = self.bind_args(m, [o] + list(args), kwargs, st)
        if env is None:
            return opaque("args:" + name)
        pos = m.params()[0][1:] + m.params()[2]
        t = mk("mcall", self.resolve(st, o), name, tuple(self.resolve(st, env[n]) for n in pos))
        if self.stack and self.stack[-1].intry:
            self.may_raise(t, st)
        return self.boolify(t)

    def call_method(self, o, name, args, kwargs, st):
        if self.spec_missing(o, name):
            t = opaque("missing-method:" + name)
            self.effect(st, t)
            return t
        if name in ("all", "any") and is_bool(o) and not args and not kwargs:
            return self.every(o, st) if name == "all" else self.some(o, st)
        if name == "len" and not args and o.op == "attr" and o.args[1] == "str":
            return mk("len", o.args[0])
        if name in ARITHMETIC and len(args) == 1 and not kwargs and self.tabular(o) and not isinstance(args[0], tuple):
            return self.binop(ARITHMETIC[name], o, args[0], st)
        if name in ("eq", "ne") and len(args) == 1 and not kwargs and self.tabular(o):
            return self.eq(o, args[0], st) if name == "eq" else bnot(self.eq(o, args[0], st))
        if name == "items" and not args and self.tabular(o):
            c = self.column_of(o)
            if c and self.frame_column(c):
                return self.over(c[0], lambda v: [elem(mk("tuple", (v, self.cell(c[0], v, c[1], st))))], st)
        if o.op == "ite":
            ls = leaves(o)
            if len(ls) <= 8:
                f = push_ite(lambda x: mk("bm", x, name), o)
                # calling a method of None is an error path
                if any(l is NONE for l in ls):
                    live = push_ite(lambda x: FALSE if x is NONE else TRUE, o)
                    if self.simplify_under(live, st) is FALSE:
                        return NONE
                    o2 = [l for l in ls if l is not NONE]
                    if len(set(o2)) == 1:
                        return self.call_method(o2[0], name, args, kwargs, st)
                return self.call_ite(f, args, kwargs, st) if f.op == "ite" else self.call(f, args, kwargs, st)
        if o.op == "cls":
            ci = self.class_info(o.args[0])
            m = ci and self.P.find_method(ci, name)
            if m is not None:
                if m.is_class:
                    return self.call_fi(m, [o] + args, kwargs, st)
                return self.call_fi(m, args, kwargs, st)
            if ci is not None and self.P.is_pydantic(ci):
                t = mk("mcall", o, name, self.flat(args, st) + tuple(mk("kwarg", n, v) for n, v in self.kw(kwargs, st)))
                if self.stack and self.stack[-1].intry or name in self.raising:
                    self.may_raise(t, st)
                return t
        ci = self.exact_or_static_class(o) or self.refined_class(o, st)
        if ci is not None:
            m = self.P.find_method(ci, name)
            if m is not None:
                if not self.is_exact(o) and (m.is_abstract or self.overridden(ci, name)):
                    return self.mcall(o, name, m, args, kwargs, st)
                if m.is_abstract:
                    return self.mcall(o, name, m, args, kwargs, st)
                return self.call_method_fi(m, o, args, kwargs, st)
            if name == "_replace" or (name == "model_copy"):
                pass
        kind = self.container_kind(o)
        if kind is None and o.op != "ext" and self.type_of(o) is None and (name in ("items", "keys", "values") or name == "get" and 1 <= len(args) <= 2 and not kwargs):
            kind = "dict"
        if kind:
            r = self.container_method(kind, o, name, args, kwargs, st)
            if r is not None:
                return r
        if self.is_str(o):
            return self.str_method(o, name, args, kwargs, st)
        if o.op == "ext":
            return self.call_ext(o.args[0] + "." + name, args, kwargs, st)
        if name == "is_integer" and not args:
            return atom(mk("batom", "is_integer", o))
        if name in LOGGING and is_logger(o):
            return NONE
        args, kwargs = self.positional(name, args, kwargs)
        if not any(isinstance(x, tuple) for x in args):
            args, kwargs = named(name, args, kwargs)
        if name == "with_suffix" and len(args) == 1 and not kwargs:
            r = self.with_suffix(o, args[0])
            if r is not None:
                return r
        if name == "SetBounds" and len(args) == 2 and not kwargs:
            for n, x in zip(("SetLb", "SetUb"), args):
                self.effect(st, mk("xcall", n, (self.resolve_shallow(st, o),) + self.flat([x], st), ()))
            return NONE
        if name == "joinpath" and args and not kwargs and not any(isinstance(x, tuple) for x in args):
            for x in args:
                o = self.mk_path(o, x)
            return o
        if name == "to_csv" and o.op == "getitem":
            c = self.content(st, o.args[1]) if o.args[1].op == "ref" else o.args[1]
            if c.op == "seq" and len(c.args[0]) == 1 and c.args[0][0].op == "elem":
                o = mk_getitem(o.args[0], c.args[0][0].args[0])     # a table of one column writes what the column writes
        fa, kw = (self.resolve_shallow(st, o),) + self.flat(args, st), self.kw(kwargs, st)
        r = self.file_call(name, fa, kw, st)
        if r is not None:
            return r
        t = mk("xcall", name, fa, kw)
        if name not in PURE_METHODS or any(n == "inplace" for n, _ in kwargs):
            self.effect(st, t)
        if self.stack and self.stack[-1].intry and name != "cwd":
            self.may_raise(t, st)
        return truth(t) if name in BOOL_METHODS else t

    def resolve_shallow(self, st, o):
        if o.op in ("ref", "new", "tuple", "seq"):
            return self.resolve(st, o)
        return o

    # ------------------------------------------------------------ constructors
    def construct(self, q, args, kwargs, st):
        ci = self.class_info(q)
        if ci is None:
            return opaque("cls?" + q)
        if self.P.is_enum(ci):
            v = args[0] if args and not isinstance(args[0], tuple) else None
            if v is not None and is_const(v):
                for n, ex in ci.assigns.items():
                    if isinstance(ex, ast.Constant) and ex.value == cval(v):
                        return mk("enumv", q, n)
            return mk("call", q, self.flat(args, st))
        ext = {b.split(".")[-1] for b in self.P.ext_bases(ci)}
        if ext & {"Exception", "ValueError", "RuntimeError", "KeyError", "TypeError"}:
            return mk("call", q, self.flat(args, st))
        if "NamedTuple" in ext:
            fs = [(n, a, d, ci) for n, (a, d) in ci.ann.items()]
            return self._construct_fields(q, ci, fs, args, kwargs, st, True)
        if self.P.is_pydantic(ci) and "__init__" not in ci.methods:
            fs = self.P.fields(ci)
            return self._construct_fields(q, ci, fs, args, kwargs, st, False, pyd=True)
        init = None
        dc = None
        for c in self.P.mro(ci):
            if "__init__" in c.methods:
                init = c.methods["__init__"]
                break
            if c.is_dataclass:
                dc = c
                break
        if dc is not None:
            value = self.P.is_frozen(ci) or (self.P.is_frozen(dc) and not ci.is_dataclass)
            return self._construct_fields(q, ci, self.P.fields(ci), args, kwargs, st, value)
        caps = self.captured(q, st)
        if init is None and caps is not None and self.P.is_value_class(ci):
            return mk("new", q, caps)
        if init is None:
            if self.P.is_value_class(ci) or not args:
                if self.P.is_value_class(ci):
                    return mk("new", q, ())
            r = self.alloc("inst", typ=q)
            return r
        r = mk("ref", fresh_id())
        self.refs[r] = ("inst", q)
        for n, x in caps or ():
            st.heap[(r, n)] = x
        self.call_fi(init, [r] + list(args), kwargs, st)
        return r

    def _construct_fields(self, q, ci, fs, args, kwargs, st, value, pyd=False):
        vals = {}
        flat = []
        for a in args:
            if isinstance(a, tuple):
                c = self.content(st, a[1])
                if c.op == "tuple":
                    flat.extend(c.args[0])
                elif c.op == "seq" and all(s.op == "elem" for s in c.args[0]):
                    flat.extend(s.args[0] for s in c.args[0])
                else:
                    return opaque("ctor*")
            else:
                flat.append(a)
        init_fs = [f for f in fs if not _field_kw(f[2], "init", True) is False]
        if len(flat) > len(init_fs):
            return opaque("ctor args " + q)
        for f, v in zip(init_fs, flat):
            vals[f[0]] = v
        names = [f[0] for f in fs]
        aliases = {}
        if pyd:
            aliases = {n.replace("_", "-"): n for n in names}
        for n, v in kwargs:
            if n is None:
                c = self.content(st, v)
                if c.op == "dict" and all(s.op == "ent" and is_const(s.args[0]) for s in c.args[0]):
                    for s in c.args[0]:
                        k = cval(s.args[0])
                        k = aliases.get(k, k)
                        if k in names:
                            vals[k] = s.args[1]
                        else:
                            return opaque("ctor**")
                    continue
                if len(kwargs) == 1 and not args:
                    return mk("call", "new**", (mk("cls", q), self.resolve(st, v)))
                return opaque("ctor**")
            if n not in names and not pyd:
                return self.bad_call(st)
            if n not in names:
                return opaque(f"ctor kw {q}.{n}")
            vals[n] = v
        for n, ann, d, owner in fs:
            if n in vals:
                continue
            if d is None:
                return self.bad_call(st)
            vals[n] = self.field_default(n, d, owner, st)
        post = self.P.find_method(ci, "__post_init__")
        if value:
            fs_ = tuple((f[0], vals[f[0]]) for f in fs)
            t = self.mk_new(q, fs_)
            if post is not None and not self.skip_post(ci):
                tn = mk("new", q, fs_)
                self.call_fi(post, [tn], [], st)
            return t
        r = mk("ref", fresh_id())
        self.refs[r] = ("inst", q)
        for f in fs:
            st.heap[(r, f[0])] = vals[f[0]]
        if post is not None:
            self.call_fi(post, [r], [], st)
        return r

    def bad_call(self, st):
        """a call whose arguments do not fit always raises"""
        if self.from_spec():
            self.note("interface changed")
            self.unfolded = True
        self.add_exit(st, TRUE, "raise", const("TypeError"))
        st.live = FALSE
        return NONE

    def skip_post(self, ci):
        # reflective validation of node operator names (inspect.getmembers): checked separately
        return any(c.qual == "andromede.expression.expression.ExpressionNode" for c in self.P.mro(ci))

    def field_default(self, n, d, owner, st):
        if isinstance(d, ast.Call):
            fn = ast.unparse(d.func).split(".")[-1]
            if fn in ("field", "Field", "PrivateAttr"):
                for k in d.keywords:
                    if k.arg == "default_factory":
                        f = self.eval_in_module(owner.module, k.value, st, closure=owner.env)
                        return self.call(f, [], [], st)
                    if k.arg == "default":
                        return self.eval_in_module(owner.module, k.value, st, closure=owner.env)
                if d.args:
                    return self.eval_in_module(owner.module, d.args[0], st, closure=owner.env)
                return opaque("field")
        return self.eval_in_module(owner.module, d, st, closure=owner.env)

    # ------------------------------------------------------------ containers
    def container_method(self, kind, o, name, args, kwargs, st):
        if any(isinstance(a, tuple) for a in args):
            return None
        c = self.content(st, o)
        if kind == "list":
            if name == "append":
                self.set_content(st, o, lambda c: mk_seq([splice(c), elem(args[0])], "seq"))
                return NONE
            if name == "extend":
                it = self.iterable(args[0], st)
                self.set_content(st, o, lambda c: mk_seq([splice(c), splice(it)], "seq"))
                return NONE
            if name == "insert" and len(args) == 2:
                if args[0] is ZERO:
                    self.set_content(st, o, lambda c: mk_seq([elem(args[1]), splice(c)], "seq"))
                else:
                    self.set_content(st, o, lambda c: opaque("insert"))
                return NONE
            if name == "copy":
                return self.alloc_container(st, "list", [splice(c)])
            if name == "clear":
                self.set_content(st, o, lambda c: mk("seq", ()))
                return NONE
            if name == "pop":
                if c.op == "seq" and c.args[0] and not args and c.args[0][-1].op == "elem":
                    v = c.args[0][-1].args[0]
                    self.set_content(st, o, lambda c: mk_seq(list(c.args[0][:-1]), "seq"))
                    return v
                if c.op == "seq" and c.args[0] and args and args[0] is ZERO and c.args[0][0].op == "elem":
                    v = c.args[0][0].args[0]
                    self.set_content(st, o, lambda c: mk_seq(list(c.args[0][1:]), "seq"))
                    return v
                self.set_content(st, o, lambda c: opaque("pop"))
                return opaque("pop")
            if name in ("remove", "sort", "reverse"):
                self.set_content(st, o, lambda c: opaque(name))
                return NONE
            if name == "count" and len(args) == 1 and self.resolve(st, c).op == "seq" and all(x.op == "elem" for x in self.resolve(st, c).args[0]):
                r = ZERO
                for x in self.resolve(st, c).args[0]:
                    r = mk_add(r, mk_ite(self.eq(x.args[0], args[0], st), ONE, ZERO))
                return r
            if name in ("index", "count"):
                return mk("call", "list." + name, (self.resolve(st, c),) + self.flat(args, st))
            return None
        if kind == "set":
            if name == "add":
                self.set_content(st, o, lambda c: mk_seq([splice(c), elem(args[0])], "set"))
                return NONE
            if name == "update" or name == "union":
                its = [splice(self.iterable(a, st)) for a in args]
                if name == "union":
                    return self.alloc_container(st, "set", [splice(c)] + its)
                self.set_content(st, o, lambda c: mk_seq([splice(c)] + its, "set"))
                return NONE
            if name == "pop" and not args and c.op in ("seq", "set") and c.args[0] and all(y.op == "elem" and (len(c.args[0]) == 1 or is_const(y.args[0])) for y in c.args[0]):
                v, left = c.args[0][0].args[0], list(c.args[0][1:])      # of several, any may come first: one of them
                self.set_content(st, o, lambda c: mk_seq(left, "set"))
                return v
            if name in ("discard", "remove") and c.op in ("seq", "set") and all(x.op == "elem" for x in c.args[0]):
                left = [mk_cond(bnot(mk_eq(x.args[0], args[0])), (x,)) for x in c.args[0]]
                self.set_content(st, o, lambda c: mk_seq(left, "set"))
                return NONE
            if name in ("discard", "remove"):
                self.set_content(st, o, lambda c: mk("uop", "set.without", (c, args[0])))
                return NONE
            if name == "copy":
                return self.alloc_container(st, "set", [splice(c)])
            if name in ("intersection", "difference") and len(args) == 1:
                return self.set_filter(o, args[0], name == "intersection", st)
            return mk("uop", "set." + name, (self.resolve(st, c),) + self.flat(args, st))
        if kind == "dict":
            if name == "items":
                return self.dict_items(c)
            if name == "values":
                return self.map_items(c, 1)
            if name == "keys":
                return mk("keys", c) if c.op != "dict" else self.map_items(c, 0)
            if name == "get":
                k = self.resolve(st, args[0])
                d = args[1] if len(args) > 1 else (dict(kwargs).get("default", NONE))
                i = mk_in(k, c)
                return mk_ite(i, self.boolify(self.mk_getitem(c, k)), d)
            if name == "setdefault":
                k = args[0]
                d = args[1] if len(args) > 1 else NONE
                i = self.simplify_under(mk_in(self.resolve(st, k), c), st)
                val = mk_ite(i, self.mk_getitem(c, k), d)
                self.set_content(st, o, lambda c: mk_seq([splice(c), mk_cond(bnot(i), (ent(k, d),))], "dict"))
                return val
            if name == "update":
                segs = []
                for a in args:
                    cc = self.content(st, a)
                    if cc.op in ("seq", "tuple"):
                        v = elem_var(cc)
                        segs.extend(mk_for(cc, v, [ent(mk_nth(v, 0), mk_nth(v, 1))], "dict"))
                    else:
                        segs.append(splice(cc))
                for n, v in kwargs:
                    if n is None:
                        segs.append(splice(self.content(st, v)))
                    else:
                        segs.append(ent(const(n), v))
                self.set_content(st, o, lambda c: mk_seq([splice(c)] + segs, "dict"))
                return NONE
            if name == "copy":
                return self.alloc_container(st, "dict", [splice(c)], typ=self.type_of(o))
            if name == "pop":
                k = args[0]
                v = self.mk_getitem(c, k)
                if len(args) > 1:
                    v = mk_ite(mk_in(k, c), v, args[1])
                self.set_content(st, o, lambda c: mk_seq([splice(c), mk("del", k)], "dict"))
                return v
            if name == "clear":
                self.set_content(st, o, lambda c: mk("dict", ()))
                return NONE
            return None
        return None

    def dict_items(self, c):
        if c.op == "ite":
            return push_ite(self.dict_items, c)
        if c.op == "dict" and self.simple_entries(c):
            return mk_seq([elem(mk("tuple", (s.args[0], s.args[1]))) for s in c.args[0]], "seq")
        if c.op == "dict" and 2 <= len(c.args[0]) <= 3 and all(x.op == "ent" for x in c.args[0]):
            return tm.inserted(c.args[0])
        if c.op == "dict" and len(c.args[0]) == 1 and c.args[0][0].op == "for":
            # {k(b): v(b) for b in items(D)} with k(b) = key of b : one-to-one
            f = c.args[0][0]
            if f.args[0].op == "items":
                v, segs = open_binder(f)
                s = segs[0] if len(segs) == 1 else None
                cond = None
                if s is not None and s.op == "cond" and len(s.args[1]) == 1:
                    cond, s = s.args[0], s.args[1][0]
                if s is not None and s.op == "ent" and s.args[0] is mk_nth(v, 0):
                    e = elem(mk("tuple", (s.args[0], s.args[1])))
                    inner = [e] if cond is None else [mk_cond(cond, (e,))]
                    return mk_seq(mk_for(f.args[0], v, inner), "seq")
        return tm.mk_items(c)

    def simple_entries(self, c):
        if len(c.args[0]) == 1 and c.args[0][0].op == "ent":
            return True
        ks = []
        for s in c.args[0]:
            if s.op != "ent" or s.args[0].op not in ("const", "enumv", "cls", "tuple"):
                return False
            ks.append(s.args[0])
        return True

    def map_items(self, c, i):
        it = self.dict_items(c)
        if it.op == "ite":
            return push_ite(lambda x: self._map_nth(x, i), it)
        return self._map_nth(it, i)

    def _map_nth(self, it, i):
        v = elem_var(it)
        return mk_seq(mk_for(it, v, [elem(self.boolify(mk_nth(v, i)))]), "seq")

    def str_method(self, o, name, args, kwargs, st):
        if name == "format" and is_const(o):
            s = cval(o)
            import string
            try:
                parts = []
                auto = 0
                kwd = dict(kwargs)
                for lit, fld, spec, conv in string.Formatter().parse(s):
                    if lit:
                        parts.append(const(lit))
                    if fld is None:
                        continue
                    if fld == "":
                        v = args[auto]
                        auto += 1
                    elif fld.isdigit():
                        v = args[int(fld)]
                    else:
                        v = kwd[fld]
                    if spec:
                        parts.append(mk("call", "format", (v, const(spec))))
                    else:
                        parts.append(self.to_str(v, st))
                return mk_cat(parts)
            except Exception:
                return opaque("format")
        if name == "removesuffix" and len(args) == 1 and is_const(args[0]) and not kwargs:
            r = without_suffix(o, cval(args[0]))
            if r is not None:
                return r
        if name == "rstrip" and len(args) == 1 and is_const(args[0]) and not kwargs:
            r = right_stripped(o, cval(args[0]))
            if r is not None:
                return r
        if name == "join" and len(args) == 1:
            c = self.content(st, args[0])
            if c.op in ("seq", "tuple"):
                es = list(c.args[0]) if c.op == "tuple" else [s.args[0] for s in c.args[0] if s.op == "elem"]
                if c.op == "tuple" or len(es) == len(c.args[0]):
                    parts = []
                    for i, x in enumerate(es):
                        if i:
                            parts.append(o)
                        parts.append(mk_str(x))
                    return mk_cat(parts)
                if o is const(""):
                    return mk_join(c.args[0])
            return mk("call", "str.join", (o, self.resolve(st, c)))
        if is_const(o) and all(is_const(a) for a in args if not isinstance(a, tuple)) and name in ("lower", "upper", "replace", "strip"):
            return const(getattr(cval(o), name)(*[cval(a) for a in args]))
        if name in ("startswith", "endswith", "isdigit"):
            return atom(mk("batom", "str." + name, o, self.flat(args, st)))
        return mk("call", "str." + name, (o,) + self.flat(args, st))

    # ------------------------------------------------------------ builtins / externals
    def iterable(self, x, st):
        """the sequence of elements iterated when iterating x"""
        if x.op == "ite":
            return push_ite(lambda y: self.iterable(y, st), x)
        c = self.content(st, x)
        if c.op == "ite":
            return push_ite(lambda y: self.iterable(y, st), c)
        if c.op == "dict":
            return self.map_items(c, 0)
        if c.op == "keys":
            return self.map_items(c.args[0], 0)
        if c.op == "seq":
            return c
        if c.op == "cls":
            ci = self.class_info(c.args[0])
            if ci and self.P.is_enum(ci):
                return mk_seq([elem(mk("enumv", c.args[0], n)) for n in ci.assigns], "seq")
        if self.container_kind(c) == "dict":
            return self._map_nth(mk("items", c), 0)
        ci = self.exact_or_static_class(c)
        if ci is not None:
            m = self.P.find_method(ci, "__iter__")
            if m is not None and not m.is_abstract:
                return self.iterable(self.call_method_fi(m, c, [], [], st), st)
        if c.op == "tuple":
            return mk_seq([elem(e) for e in c.args[0]], "seq")
        return c

    def call_ext(self, name, args, kwargs, st):
        h = getattr(self, "bi_" + name.replace(".", "_"), None)
        if h is not None:
            try:
                r = h(args, kwargs, st)
            except (IndexError, KeyError):
                r = None
            if r is not None:
                return r
        if name in IGNORED_CALLS or name.startswith("logging."):
            return NONE
        if name.split(".")[-1].endswith("Error") or name.split(".")[-1] == "Exception":
            return mk("call", "exc", (const(name),))
        if kwargs:
            kwargs = named("", [], kwargs)[1]
        if name == "repr" and len(args) == 1 and isinstance(args[0], T) and not kwargs:
            ci = self.op_class(args[0])
            m = ci and self.P.find_method(ci, "__repr__")
            if m:
                return self.call_method_fi(m, args[0], [], [], st)
        fa = self.flat(args, st)
        if name.startswith("anytree."):
            names = ("filter_", "stop", "maxlevel")
            kwargs = [(n, v) for n, v in list(zip(names, fa[1:])) + list(kwargs) if v is not NONE]
            fa = fa[:1]
        if name.startswith("subprocess."):       # as when not given
            kwargs = [(n, v) for n, v in kwargs if not (n in ("shell", "check") and v is FALSE)]
        kw = self.kw(kwargs, st)
        if name.startswith(PURE_EXT) or name in ("repr", "hash", "id", "round", "callable", "vars", "divmod", "frozenset", "bytes", "iter", "format", "ord", "chr", "issubclass"):
            t = mk("call", name, fa + tuple(mk("kwarg", n, v) for n, v in kw))
            if name in ("math.isclose", "math.isnan", "math.isinf", "math.isfinite", "callable", "issubclass"):
                return truth(t)
            return self.boolify(t)
        r = self.file_call(name, fa, kw, st)
        if r is not None:
            return r
        t = mk("xcall", name, fa, kw)
        if not self.ext_pure(name):
            self.effect(st, t)
        if self.stack and self.stack[-1].intry and name not in ("os.chdir", "os.getcwd"):
            self.may_raise(t, st)
        return t

    def file_call(self, name, fa, kw, st):
        """one form for the ways of opening, reading and writing a file"""
        def done(name, fa, kw=()):
            t = mk("xcall", name, tuple(fa), tuple(sorted(kw)))
            if not self.ext_pure(name):
                self.effect(st, t)
            if self.stack and self.stack[-1].intry:
                self.may_raise(t, st)
            return t

        def opened(p, mode):
            return done("open", (p,), (("mode", const(mode)),) if mode != "r" else ())

        d = dict(kw)
        if name in ("open", "io.open") and 1 <= len(fa) <= 2 and set(d) <= {"mode", "encoding"}:
            enc, mode = d.get("encoding"), fa[1] if len(fa) == 2 else d.get("mode", const("r"))
            if is_const(mode) and isinstance(cval(mode), str) and (enc is None or enc is NONE or is_const(enc) and str(cval(enc)).lower().replace("-", "") == "utf8"):
                return opened(fa[0], cval(mode).replace("t", "") or "r")
        if name == "write_text" and len(fa) == 2 and set(d) <= {"encoding"}:
            return done("write", (opened(fa[0], "w"), fa[1]))
        if name == "read_text" and len(fa) == 1 and set(d) <= {"encoding"}:
            return done("read", (opened(fa[0], "r"),))
        if name in ("json.loads", "yaml.safe_load") and len(fa) == 1 and not kw and fa[0].op == "xcall" and fa[0].args[0] == "read" and len(fa[0].args[1]) == 1:
            return done("json.load" if name == "json.loads" else name, fa[0].args[1])
        if name == "os.makedirs" and len(fa) == 1:
            return done("mkdir", fa, tuple(kw) + (("parents", TRUE),))
        if name == "json.dumps" and len(fa) == 1 and "indent" in d:
            return done(name, fa, [x for x in kw if x[0] != "indent"])
        if name in ("json.dump", "yaml.dump", "yaml.safe_dump") and len(fa) == 2:
            text = done("json.dumps" if name == "json.dump" else name, fa[:1], [x for x in kw if x[0] != "indent" or name != "json.dump"])
            return done("write", (fa[1], text))
        return None

    def ext_pure(self, name):
        return name.split(".")[-1] in PURE_METHODS

    def bi_len(self, args, kw, st):
        x = args[0]
        ci = self.exact_or_static_class(x)
        if ci is not None:
            m = self.P.find_method(ci, "__len__")
            if m:
                return self.call_method_fi(m, x, [], [], st)
        c = self.content(st, x)
        return mk_len(c)

    def bi_range(self, args, kw, st):
        if len(args) == 1:
            lo, hi = ZERO, args[0]
        elif len(args) == 2:
            lo, hi = args
        else:
            if is_num(args[2]) and cval(args[2]) == 1:
                lo, hi = args[:2]
            else:
                return mk("range3", *args)
        for k, x in enumerate((lo, hi)):
            if x.op == "ite" and len(leaves(x)) <= 16:
                return push_ite(lambda y: self.bi_range([y, hi] if k == 0 else [lo, y], kw, st), x)
        n = mk_sub(hi, lo)
        if is_num(n) and isinstance(cval(n), int) and cval(n) <= 12:
            return mk_seq([elem(mk_add(lo, const(i))) for i in range(max(0, cval(n)))], "seq")
        if n.op == "len" and lo is ZERO:
            # range(len(x)): indices of x
            v = elem_var(n.args[0])
            return mk_seq(mk_for(n.args[0], v, [elem(mk("idx", v))]), "seq")
        src = mk("range", n)
        v = elem_var(src)
        return mk_seq(mk_for(src, v, [elem(mk_add(lo, v))]), "seq")

    def bi_enumerate(self, args, kw, st):
        it = self.iterable(args[0], st)
        if it.op == "set":
            it = mk_seq(list(it.args[0]), "seq")
        start = args[1] if len(args) > 1 else dict(kw).get("start", ZERO)
        if it.op == "seq" and all(s.op == "elem" for s in it.args[0]):
            return mk_seq([elem(mk("tuple", (mk_add(start, const(i)), s.args[0]))) for i, s in enumerate(it.args[0])], "seq")
        # single one-to-one source
        if it.op == "seq" and len(it.args[0]) == 1 and it.args[0][0].op == "for":
            f = it.args[0][0]
            v, segs = open_binder(f)
            if len(segs) == 1 and segs[0].op == "elem":
                return mk_seq(mk_for(f.args[0], v, [elem(mk("tuple", (mk_add(start, mk("idx", v)), segs[0].args[0])))]), "seq")
        if it.op in ("seq", "set", "dict"):      # the position of an element is not modelled, the element is
            v = elem_var(it)
            return mk_seq(mk_for(it, v, [elem(mk("tuple", (opaque("enumerate"), v)))]), "seq")
        v = elem_var(it)
        return mk_seq(mk_for(it, v, [elem(mk("tuple", (mk_add(start, mk("idx", v)), v)))]), "seq")

    def positional(self, name, args, kwargs):
        """keyword arguments of a method all of whose definitions name their parameters alike, in their positions"""
        if not kwargs or any(a.op == "star" for a in args) or any(n is None for n, _ in kwargs):
            return args, kwargs
        sigs = {tuple(x.arg for x in (c.methods[name].node.args.posonlyargs + c.methods[name].node.args.args)[1:])
                for c in self.P.classes.values() if name in c.methods}
        if len(sigs) != 1:
            return args, kwargs
        names = list(sigs.pop())
        kw = dict(kwargs)
        args = list(args)
        for n in names[len(args):]:
            if n not in kw:
                break
            args.append(kw.pop(n))
        return args, [(n, v) for n, v in kwargs if n in kw]

    def frame_length(self, x):
        """length of a row, column, index of a table as the table's shape"""
        while x.op == "attr" and x.args[1] == "values" or x.op == "xcall" and x.args[0] in ("astype", "tolist", "to_list", "to_numpy"):
            x = x.args[0] if x.op == "attr" else x.args[1][0]
        if x.op in ("nth", "getitem") and x.args[0].op == "attr" and x.args[0].args[1] == "iloc" and not (x.op == "getitem" and x.args[1].op in ("tuple", "slice3")):
            return mk_nth(mk("attr", x.args[0].args[0], "shape"), 1)
        if x.op == "getitem" and x.args[1].op != "tuple":
            return mk_nth(mk("attr", x.args[0], "shape"), 0)
        if x.op == "attr" and x.args[1] in ("index", "columns"):
            return mk_nth(mk("attr", x.args[0], "shape"), 0 if x.args[1] == "index" else 1)
        if x.op == "getitem" and x.args[0].op == "attr" and x.args[0].args[1] == "iloc" and x.args[1].op == "tuple" and len(x.args[1].args[0]) == 2:
            whole = mk("slice3", NONE, NONE, NONE)
            i, j = x.args[1].args[0]
            if j is whole and i.op != "slice3":
                return mk_nth(mk("attr", x.args[0].args[0], "shape"), 1)
            if i is whole and j.op != "slice3":
                return mk_nth(mk("attr", x.args[0].args[0], "shape"), 0)
        return None

    def as_long(self, a, b, st):
        """known on this path to have as many elements as each other"""
        if st is None or any(x.op not in ("attr", "sym", "fv", "getitem", "nth") for x in (a, b)):
            return False
        return self.simplify_under(mk_eq0(mk_sub(mk_len(a), mk_len(b))), st) is TRUE

    def zip_same_source(self, its, st=None):
        """zip of one-to-one images of one sequence: a loop over that sequence"""
        parts = []
        for it in its:
            if it.op == "seq" and len(it.args[0]) == 1 and it.args[0][0].op == "splice":
                it = it.args[0][0].args[0]
            if it.op == "seq":
                if len(it.args[0]) != 1 or it.args[0][0].op != "for":
                    return None
                v, segs = open_binder(it.args[0][0])
                if len(segs) != 1 or segs[0].op != "elem":
                    return None
                parts.append((it.args[0][0].args[0], v, segs[0].args[0]))
            elif it.op in ("set", "dict", "ite"):
                return None
            else:
                v = elem_var(it)
                parts.append((it, v, v))
        srcs = [p[0] for p in parts]
        main = next((x for x in srcs if x.op == "attr" and x.args[1] in ("index", "columns")), None) or next((x for x in srcs if x.op != "range"), None)
        if main is None or len(parts) < 2:
            return None
        n = self.frame_length(main)
        for x in srcs:
            if x is not main and not (x.op == "range" and x.args[0] in (mk("len", main), n)) and not (n is not None and self.frame_length(x) is n) \
                    and not self.as_long(main, x, st):
                return None
        v = elem_var(main)
        out = []
        for src, w, body in parts:
            out.append(subst(body, {w: v if src is main else mk("idx", v) if src.op == "range" else (st and self.frame_getitem(src, mk("idx", v), st)) or mk_getitem(src, mk("idx", v))}))
        return mk_seq(mk_for(main, v, [elem(mk("tuple", tuple(out)))]), "seq")

    def with_suffix(self, o, suffix):
        """the path whose last part is known, renamed"""
        if not (is_const(suffix) and suffix.args[0] == "str"):
            return None
        if o.op == "call" and o.args[0] == "path/":
            head, last = o.args[1]
        elif o.op == "call" and o.args[0] == "pathlib.Path" and len(o.args[1]) == 1:
            head, last = None, o.args[1][0]
        else:
            return None
        if not (is_const(last) and last.args[0] == "str" and "/" not in cval(last) and "." not in cval(last).strip(".")) or not cval(last):
            return None
        last = const(cval(last) + cval(suffix))
        return mk("call", "pathlib.Path", (last,)) if head is None else mk("call", "path/", (head, last))

    def bi_divmod(self, args, kw, st):
        return mk("tuple", (self.binop("FloorDiv", args[0], args[1], st), self.binop("Mod", args[0], args[1], st)))

    def bi_np_divmod(self, args, kw, st):
        return self.bi_divmod(args, kw, st)

    def bi_zip(self, args, kw, st):
        its = [self.iterable(a, st) for a in args]
        if all(i.op == "seq" and all(s.op == "elem" for s in i.args[0]) for i in its):
            n = min(len(i.args[0]) for i in its) if its else 0
            return mk_seq([elem(mk("tuple", tuple(i.args[0][j].args[0] for i in its))) for j in range(n)], "seq")
        same = self.zip_same_source(its, st)
        if same is not None:
            return same
        src = mk("zip", tuple(its))
        v = elem_var(src)
        return mk_seq(mk_for(src, v, [elem(mk("tuple", tuple(self.boolify(mk_nth(v, j)) for j in range(len(its)))))]), "seq")

    def bi_isinstance(self, args, kw, st):
        c = args[1]
        if c.op == "ref":
            c = self.content(st, c)
        return self.simplify_under(self.isinstance_(args[0], c), st)

    def bi_type(self, args, kw, st):
        return self.type_term(args[0])

    def bi_bool(self, args, kw, st):
        return self.truthy(args[0], st)

    def bi_float(self, args, kw, st):
        x = args[0]
        if x.op == "cat" and len(x.args[0]) == 1 and not is_const(x.args[0][0]):
            return self.bi_float([x.args[0][0]], kw, st) or mk("call", "float", (x.args[0][0],))     # of the text of a number
        if is_const(x) and x.args[0] == "str":
            try:
                return const(float(cval(x)))
            except ValueError:
                return None
        if is_num(x):
            return x
        if x.op == "ite" and all(is_num(l) for l in leaves(x)):
            return x
        tt = self.type_of(x)
        if tt in (("prim", "float"), ("prim", "int")) or x.op == "poly":
            return x
        ks = [("prim", "str")]
        if tt is None and self._numeric_fact(x, st):
            return x
        return self.parsed(mk("call", "float", (x,)), st)

    def parsed(self, t, st):
        if self.stack and self.stack[-1].intry:
            self.may_raise(t, st)
        return t

    def _numeric_fact(self, x, st):
        k = st.known()
        c = bor(atom(mk("kind", x, "int")), atom(mk("kind", x, "float")))
        return band(k, bnot(c)) is FALSE

    def bi_int(self, args, kw, st):
        if not args:
            return ZERO
        x = args[0]
        if is_num(x) and isinstance(cval(x), int):
            return x
        if self.type_of(x) == ("prim", "int"):
            return x
        return self.parsed(mk("call", "int", self.flat(args, st)), st)

    def bi_str(self, args, kw, st):
        if not args:
            return const("")
        r = self.to_str(args[0], st)
        if r.op not in ("cat",) and not is_const(r) and not self.is_str(r):
            return mk_cat([r]) if False else mk("cat", (r,))
        return r

    def bi_abs(self, args, kw, st):
        x = args[0]
        if is_num(x):
            return const(abs(cval(x)))
        if x.op == "const" and x.args[0] == "inf":
            return const(float("inf"))
        if x.op == "ite":
            return push_ite(lambda y: self.bi_abs([y], kw, st), x)
        s, q = lead(x)
        return mk_ite(mk_gt0(q), q, mk_neg(q))

    def _minmax(self, name, args, kw, st):
        if any(n == "key" for n, _ in kw):
            return mk("call", name, self.flat(args, st) + (opaque("key"),))
        d = dict(kw).get("default")
        if len(args) == 1:
            c = self.iterable(args[0], st)
            if c.op == "seq" and c.args[0] and all(s.op == "elem" for s in c.args[0]):
                args = [s.args[0] for s in c.args[0]]
            else:
                return mk("call", name, (self.resolve(st, c),) + ((mk("kwarg", "default", d),) if d is not None else ()))
        vals = []
        for a in args:
            if a.op == "call" and a.args[0] == name and len(a.args[1]) > 1:
                vals.extend(a.args[1])
            else:
                vals.append(a)
        nums = [v for v in vals if is_num(v)]
        others = sorted({v for v in vals if not is_num(v)}, key=lambda t: t.id)
        if nums:
            m = (max if name == "max" else min)(nums, key=cval)
            if not others:
                return m
            others.append(m)
        r = others[-1]
        for x in reversed(others[:-1]):
            d = mk_sub(x, r) if name == "max" else mk_sub(r, x)
            r = mk_ite(mk_gt0(d), x, r)
        return r

    def bi_max(self, args, kw, st):
        return self._minmax("max", args, kw, st)

    def bi_min(self, args, kw, st):
        return self._minmax("min", args, kw, st)

    def merges_values(self, it):
        """may the set hold fewer elements than were put into it?"""
        for x in it.args[0]:
            if x.op == "for":
                v, inner = open_binder(x)
                if len(inner) == 1 and inner[0].op == "elem" and inner[0].args[0].op in ("attr", "field") and inner[0].args[0].args[0] is v and \
                        self.type_of(inner[0].args[0]) in (("prim", "float"), ("prim", "int"), ("prim", "bool")):
                    return True
        return False

    def bi_sum(self, args, kw, st):
        it = self.iterable(args[0], st)
        if it.op == "set" and not self.merges_values(it):
            it = mk_seq(list(it.args[0]), "seq")
        start = args[1] if len(args) > 1 else dict(kw).get("start", ZERO)
        et = self.elem_type(it)
        if et and et[0] == "c" and self.class_info(et[1]) is not None:
            ci = self.class_info(et[1])
            if not self.is_sub(et[1], "andromede.expression.expression.ExpressionNode") or not self.algebra:
                return opaque("sum of objects")
        if self.container_kind(start) == "list":
            v = elem_var(it)
            return self.alloc_container(st, "list", [splice(self.content(st, start))] + mk_for(it, v, [splice(v)]))
        if it.op == "seq":
            s = sum_seq(it, lambda e: e, None)
        else:
            v = elem_var(it)
            s = mk_bigsum(it, v, v)
        return mk_add(start, s)

    def bi_any(self, args, kw, st):
        if is_bool(args[0]):
            return self.some(args[0], st)
        it = self.iterable(args[0], st)
        v = elem_var(it)
        return mk_any(it, v, truth(v)) if it.op != "seq" else mk_any(it, v, self._tv(v))

    def _tv(self, v):
        return atom(mk("truth", v))

    def bi_all(self, args, kw, st):
        if is_bool(args[0]):
            return self.every(args[0], st)
        it = self.iterable(args[0], st)
        v = elem_var(it)
        return bnot(mk_any(it, v, bnot(self._tv(v))))

    def bi_sorted(self, args, kw, st):
        it = self.iterable(args[0], st)
        k = dict(kw)
        extra = ()
        if k:
            extra = tuple(mk("kwarg", n, self.closure_term(v, st)) for n, v in sorted(k.items()))
        return mk("call", "sorted", (self.resolve(st, it),) + extra)

    def closure_term(self, v, st):
        """canonical form of a one-argument callable"""
        if v.op in ("clos", "fn", "bm", "partial"):
            x = mk("fv", fresh_id(), None)
            s2 = st.clone()
            try:
                r = self.call(v, [x], [], s2)
                return close_binder("lam", NONE, x, self.resolve(s2, r))
            except Limit:
                raise
            except Exception:
                return opaque("closure")
        return v

    def bi_reversed(self, args, kw, st):
        c = self.iterable(args[0], st)
        if c.op == "seq" and all(s.op == "elem" for s in c.args[0]):
            return mk_seq(list(reversed(c.args[0])), "seq")
        return mk("call", "reversed", (c,))

    def bi_list(self, args, kw, st):
        if not args:
            return self.alloc_container(st, "list", [])
        return self.alloc_container(st, "list", [splice(self.iterable(args[0], st))])

    def bi_tuple(self, args, kw, st):
        if not args:
            return mk("tuple", ())
        it = self.iterable(args[0], st)
        if it.op == "seq" and all(s.op == "elem" for s in it.args[0]):
            return mk("tuple", tuple(s.args[0] for s in it.args[0]))
        return it

    def bi_set(self, args, kw, st):
        if not args:
            return self.alloc_container(st, "set", [])
        return self.alloc_container(st, "set", [splice(self.iterable(args[0], st))])

    bi_frozenset = bi_set

    def bi_dict(self, args, kw, st):
        segs = []
        for a in args:
            c = self.content(st, a)
            if self.container_kind(c) == "dict" or c.op == "dict" or self.container_kind(c) is None and all(
                    x.op == "dict" or self.container_kind(x) is None and x.op in ("sym", "attr", "getitem", "xcall", "nth", "fv", "ref") for x in leaves(c)):
                segs.append(splice(c))
            else:
                it = self.iterable(a, st)
                if it.op == "items":
                    segs.append(splice(it.args[0]))
                else:
                    v = elem_var(it)
                    segs.extend(mk_for(it, v, [ent(mk_nth(v, 0), mk_nth(v, 1))], "dict"))
        for n, v in kw:
            if n is None:
                segs.append(splice(self.content(st, v)))
            else:
                segs.append(ent(const(n), v))
        return self.alloc_container(st, "dict", segs)

    def bi_collections_defaultdict(self, args, kw, st):
        r = self.alloc_container(st, "dict", [])
        st.heap[(r, "*")] = mk("dict", (mk("dflt", args[0] if args else NONE),))
        return None if True else r

    def bi_getattr(self, args, kw, st):
        if is_const(args[1]):
            return self.getattr(args[0], cval(args[1]), st)
        if args[0].op == "mod":
            return mk("modget", args[0], args[1])
        n = args[1]
        if n.op == "ite" and all(is_const(l) for l in leaves(n)):
            return push_ite(lambda x: self.getattr(args[0], cval(x), st), n)
        return None

    def bi_setattr(self, args, kw, st):
        if is_const(args[1]):
            self.setattr(args[0], cval(args[1]), args[2], st)
            return NONE
        return None

    def bi_hasattr(self, args, kw, st):
        return atom(mk("batom", "hasattr", args[0], args[1]))

    def bi_map(self, args, kw, st):
        if len(args) != 2:
            z = self.bi_zip(args[1:], [], st)
            return self.loop_collect(z, lambda s, e: self.call(args[0], [mk_nth(e, i) for i in range(len(args) - 1)], [], s), st)
        return self.loop_collect(self.iterable(args[1], st), lambda s, e: self.call(args[0], [e], [], s), st)

    def bi_filter(self, args, kw, st):
        it = self.iterable(args[1], st)

        def body(s, e, out):
            c = self.truthy(e if args[0] is NONE else self.call(args[0], [e], [], s), s)
            self.set_content(s, out, lambda x: mk_seq([splice(x), mk_cond(c, (elem(e),))], "seq"))
        return self.loop_build("list", it, body, st)

    def bi_next(self, args, kw, st):
        it = self.iterable(args[0], st)
        if it.op == "seq":
            r = self.first_of(it)
            if r is not None:
                has, v = r
                if len(args) > 1:
                    return mk_ite(has, v, args[1])
                bad = bnot(has)
                if bad is not FALSE:
                    self.add_exit(st, bad, "raise", const("StopIteration"))
                    st.live = band(st.live, has)
                return v
        return None

    def first_of(self, seq):
        """(nonempty condition, first element) of a sequence term"""
        segs = seq.args[0]
        has, val = FALSE, NONE
        for s in reversed(segs):
            r = self._first_seg(s)
            if r is None:
                return None
            h, v = r
            val = v if has is FALSE else mk_ite(h, v, val)
            has = bor(h, has)
        return has, val

    def _first_seg(self, s):
        if s.op == "elem":
            return TRUE, s.args[0]
        if s.op == "cond":
            inner = self.first_of(mk("seq", s.args[1]))
            if inner is None:
                return None
            return band(s.args[0], inner[0]), inner[1]
        if s.op == "splice":
            return truth(s.args[0]), self.boolify(mk_nth(s.args[0], 0)) if s.args[0].op != "items" else mk("nth", s.args[0], 0)
        if s.op == "for":
            v, segs = open_binder(s)
            if len(segs) == 1:
                x = segs[0]
                c = TRUE
                if x.op == "cond" and len(x.args[1]) == 1:
                    c, x = x.args[0], x.args[1][0]
                if x.op == "elem":
                    return self.first_match(s.args[0], v, c, x.args[0])
        return None

    def first_match(self, src, v, c, val):
        has = mk_any(src, v, c)
        if v not in val.fv:
            return has, val
        if c is TRUE:
            return has, subst(val, {v: mk_nth(src, 0)})
        if src.op == "call" and src.args[0] == "reversed" and c.op == "ite" and c.args[1] is TRUE and c.args[2] is FALSE and c.args[0].op == "eq":
            # the last element of the given key: what a dict built from the sequence holds
            for a, k in (c.args[0].args, c.args[0].args[::-1]):
                if v in a.fv and v not in k.fv:
                    w = elem_var(src.args[1][0])
                    d = mk_seq(mk_for(src.args[1][0], w, [ent(subst(a, {v: w}), subst(val, {v: w}))]), "dict")
                    return has, mk_getitem(d, k)
        return has, close_binder("first", src, v, c, val)

    def bi_itertools_product(self, args, kw, st):
        its = [self.iterable(a, st) for a in args]
        if kw:
            return None

        def rec(i, acc):
            if i == len(its):
                return [elem(mk("tuple", tuple(acc)))]
            v = elem_var(its[i])
            inner = rec(i + 1, acc + [v])
            return mk_for(its[i], v, inner)
        return mk_seq(rec(0, []), "seq")

    def bi_itertools_chain(self, args, kw, st):
        return mk_seq([splice(self.iterable(a, st)) for a in args], "seq")

    def bi_itertools_chain_from_iterable(self, args, kw, st):
        it = self.iterable(args[0], st)
        v = elem_var(it)
        return mk_seq(mk_for(it, v, [splice(v)]), "seq")

    def bi_functools_reduce(self, args, kw, st):
        f, xs = args[0], self.iterable(args[1], st)
        if len(args) > 2:
            return self.loop_fold(xs, args[2], lambda s, a, e: self.call(f, [a, e], [], s), st)
        if xs.op == "seq" and xs.args[0] and xs.args[0][0].op == "elem":
            init = xs.args[0][0].args[0]
            rest = mk_seq(list(xs.args[0][1:]), "seq")
        else:
            init = self.getitem(xs, ZERO, st)
            rest = self.slice_(xs, ONE, NONE, NONE)
        return self.loop_fold(rest, init, lambda s, a, e: self.call(f, [a, e], [], s), st)

    def bi_functools_partial(self, args, kw, st):
        return mk("partial", args[0], tuple(args[1:]), tuple(kw))

    def bi_operator_add(self, args, kw, st):
        return self.binop("Add", args[0], args[1], st)

    def bi_operator_sub(self, args, kw, st):
        return self.binop("Sub", args[0], args[1], st)

    def bi_operator_mul(self, args, kw, st):
        return self.binop("Mult", args[0], args[1], st)

    def bi_operator_truediv(self, args, kw, st):
        return self.binop("Div", args[0], args[1], st)

    def bi_operator_or_(self, args, kw, st):
        return self.binop("BitOr", args[0], args[1], st)

    def bi_operator_neg(self, args, kw, st):
        return mk_neg(args[0])

    def bi_typing_cast(self, args, kw, st):
        return args[1]

    def bi_dataclasses_replace(self, args, kw, st):
        o = args[0]
        if o.op == "ite":
            return push_ite(lambda x: self.bi_dataclasses_replace([x], kw, st), o)
        ci = self.exact_or_static_class(o)
        if ci is None:
            ci = self.refined_class(o, st)
        if o is tm.MISSING:
            return o
        if ci is None:
            return opaque("replace")
        if o.op != "new" and self.P.subclasses(ci.qual):
            if any(n is None for n, _ in kw):
                kw = self.star_kw(kw, st)
                if kw is None:
                    return opaque("replace**")
            if not kw and self.P.is_frozen(ci):
                return o
            return mk("replace", o, tuple(sorted((n, self.resolve(st, v)) for n, v in kw)))
        fs = self.P.fields(ci)
        same = [(f[0], self.getattr(o, f[0], st)) for f in fs if _field_kw(f[2], "init", True) is not False]
        if any(n is not None and n in {f[0] for f in fs} and n not in {m for m, _ in same} for n, _ in kw):
            return self.bad_call(st)
        return self._construct_fields(ci.qual, ci, fs, [], same + list(kw), st, self.P.is_frozen(ci))

    def star_kw(self, kw, st):
        out = []
        for n, v in kw:
            if n is not None:
                out.append((n, v))
                continue
            c = self.content(st, v)
            if c.op == "dict" and all(x.op == "ent" and is_const(x.args[0]) for x in c.args[0]):
                out.extend((cval(x.args[0]), x.args[1]) for x in c.args[0])
            else:
                return None
        return out

    def bi_copy_copy(self, args, kw, st):
        o = args[0]
        k = self.container_kind(o)
        if k:
            return self.alloc_container(st, k, [splice(self.content(st, o))], typ=self.type_of(o))
        if o.op == "new":
            return o
        return None

    def bi_copy_deepcopy(self, args, kw, st):
        o = args[0]
        r = self.resolve(st, o)
        k = self.container_kind(o)
        if k:
            return self.alloc_container(st, k, [splice(r)], typ=self.type_of(o))
        return None

    def bi_math_isinf(self, args, kw, st):
        return mk_eq(mk("call", "abs", (lead(args[0])[1],)), const(float("inf"))) if not is_const(args[0]) else (TRUE if args[0].args[0] == "inf" else FALSE)

    def bi_math_prod(self, args, kw, st):
        return None

    def bi_print(self, args, kw, st):
        return NONE

    def bi_setattr_(self, args, kw, st):
        return None

    def bi_object___setattr__(self, args, kw, st):
        if is_const(args[1]):
            self.setattr(args[0], cval(args[1]), args[2], st)
            return NONE
        return None

    # ------------------------------------------------------------ comprehension
    def ex_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def ex_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def ex_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    def ex_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        saved = dict(st.env)
        out = self.alloc_container(st, kind, [])

        def level(i, s):
            if i == len(e.generators):
                if kind == "dict":
                    k = self.eval(e.key, s)
                    v = self.eval(e.value, s)
                    self.set_content(s, out, lambda c: mk_seq([splice(c), ent(k, v)], "dict"))
                else:
                    v = self.eval(e.elt, s)
                    kk = "set" if kind == "set" else "seq"
                    self.set_content(s, out, lambda c: mk_seq([splice(c), elem(v)], kk))
                return
            g = e.generators[i]
            it = self.iterable(self.eval(g.iter, s), s)

            def body(s2, x):
                self.assign(g.target, x, s2)
                conds = g.ifs

                def rec(j, s3):
                    if j == len(conds):
                        level(i + 1, s3)
                        return
                    c = self.simplify_under(self.cond(conds[j], s3), s3)
                    if c is TRUE:
                        return rec(j + 1, s3)
                    if c is FALSE:
                        return
                    a = s3.clone()
                    a.live = band(s3.live, c)
                    b = s3.clone()
                    b.live = band(s3.live, bnot(c))
                    if a.live is not FALSE:
                        rec(j + 1, a)
                    self.into(s3, self.merge_states(c, a, b))
                rec(0, s2)
            self.run_loop(it, body, s)
        level(0, st)
        st.env = {**{k: v for k, v in st.env.items() if k in saved}, **{k: v for k, v in saved.items()}}
        return out


def _field_kw(d, name, default):
    if isinstance(d, ast.Call):
        for k in d.keywords:
            if k.arg == name and isinstance(k.value, ast.Constant):
                return k.value.value
    return default


def recursive_functions(P):
    """functions on a cycle of the (name-resolved, per module) call graph"""
    by_mod = {}
    allf = {}
    for q, f in P.funcs.items():
        allf[q] = f
    for c in P.classes.values():
        for m in c.methods.values():
            allf[m.qual] = m
    names = {}
    for q, f in allf.items():
        names.setdefault((f.module.name, f.node.name), []).append(q)
    edges = {}
    for q, f in allf.items():
        es = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                for t in names.get((f.module.name, nm), ()):
                    if isinstance(n.func, ast.Name) and allf[t].cls is not None:
                        continue    # a bare name never denotes a method
                    es.add(t)
        edges[q] = es
    out = set()
    for q in allf:
        seen = set()
        stack = list(edges[q])
        while stack:
            x = stack.pop()
            if x == q:
                out.add(q)
                break
            if x in seen:
                continue
            seen.add(x)
            stack.extend(edges.get(x, ()))
    return out
