"""
Syntax-directed construction of value graphs (gated form) for repository
functions: forward dataflow over the syntax tree, one pass per function body,
joins gated by their branch condition, loops summarised (append/extend/dict
build/accumulate/search/first-match/general fold), helpers inlined, calls to
polymorphic or cut functions left as interpreted call nodes.
"""
import ast
import builtins

from .frontend import ClassInfo, FuncInfo, Program, strip_none, maybe_none
from .terms import *  # noqa
from . import memo
from . import terms as tm
from .typing_ import Types
from .builtins_ import Builtins
from .loops import Loops
from .exprs import Exprs
from .frames import Frames

EFF = mk("eff")
EFFKEY = (EFF, "*")


class State:
    __slots__ = ("env", "heap", "live", "facts")

    def __init__(self, env, heap, live, facts):
        self.env = env
        self.heap = heap
        self.live = live
        self.facts = facts

    def clone(self):
        return State(dict(self.env), dict(self.heap), self.live, self.facts)

    def known(self):
        return band(self.facts, self.live)


class Exit:
    __slots__ = ("cond", "kind", "val", "st")

    def __init__(self, cond, kind, val, st):
        self.cond = cond
        self.kind = kind
        self.val = val
        self.st = st


class Frame:
    def __init__(self, fi, module):
        self.fi = fi
        self.module = module
        self.exits = []
        self.yields = None
        self.loopctx = []
        self.intry = 0
        self.cls = None
        self.closure = None  # enclosing env for nested functions
        self.nonlocal_ = set()


class Summary:
    """Result of analysing a function: value, raise condition, final heap"""

    def __init__(self):
        self.value = None
        self.raises = FALSE
        self.raised = []
        self.heap = {}
        self.effects = None
        self.failing = []
        self.notes = []


class Interp(Types, Builtins, Loops, Exprs, Frames):
    MAXDEPTH = 45

    def __init__(self, program, cut=(), algebra=True, no_inline=(), cut_nested=()):
        self.P = program
        self.refs = {}
        self.local_classes = {}
        self._freememo = {}
        self._membermemo = {}
        self._ftmemo = {}
        self.closures = {}
        self.cut = set(cut)
        self.cut_nested = set(cut_nested)
        self.xunroll = 0
        self.drop_self = set()
        self.cut_hits = set()
        self.unfolded = False
        self.residual = False
        self.unfold = 1
        self.xlists = ()
        self.no_inline = set(no_inline)
        self.raising = set()
        self.stale = set()
        self.lookups = True
        self.xtypes = {}
        self.stack = []
        self.notes = []
        self.analysed = set()
        self.algebra = algebra
        self._globmemo = {}
        self._mutmemo = {}
        self.steps = 0
        self.max_steps = 400_000
        self.init_types()

    def note(self, msg):
        if len(self.notes) < 200:
            self.notes.append(msg)

    # ------------------------------------------------------------ heap
    def alloc(self, kind, content=None, typ=None):
        r = mk("ref", fresh_id())
        self.refs[r] = (kind, typ)
        return r

    def alloc_container(self, st, kind, segs, typ=None):
        r = self.alloc(kind, typ=typ)
        k = {"list": "seq", "dict": "dict", "set": "set"}[kind]
        st.heap[(r, "*")] = mk_seq(list(segs), k)
        return r

    def content(self, st, t):
        """current content term of a container-valued term"""
        if t.op == "ite":
            return push_ite(lambda x: self.content(st, x), t)
        c = st.heap.get((t, "*"))
        if c is not None:
            return c
        if self.is_memo(t):
            return mk_seq([], "dict")
        if self.xunroll and t.op in ("attr", "xcall", "call", "mcall", "getitem", "sym"):
            nm = t.args[1] if t.op in ("attr", "mcall") else t.args[0]
            if t.op == "getitem":
                nm = cval(t.args[1]) if is_const(t.args[1]) else None
            if t.op == "xcall" and nm in ("values", "items", "keys") and t.args[1]:
                x = t.args[1][0]        # mapping of an external object
                nm = x.args[1] if x.op in ("attr", "mcall") else x.args[0] if x.op == "xcall" else None
            nm = nm.split(".")[-1] if isinstance(nm, str) else ""
            if nm + "{}" in self.xlists and not (t.op == "xcall" and t.args[0] in ("values", "items", "keys")):
                its = [mk_nth(mk("items", t), i) for i in range(self.xunroll)]
                return mk_seq([mk("ent", mk_nth(it, 0), mk_nth(it, 1)) for it in its], "dict")
            if nm in self.xlists:
                if self.container_kind(t) == "dict":
                    it = mk_nth(mk("items", t), 0)
                    return mk_seq([mk("ent", mk_nth(it, 0), self.boolify(mk_nth(it, 1)))], "dict")
                return mk_seq([elem(self.boolify(mk_nth(t, i))) for i in range(self.xunroll)])
        return t

    def is_memo(self, t):
        """a container in which only results are remembered, under keys that determine them"""
        if t.op == "attr":
            return t.args[1] in memo.sound(self.P)[0]
        return t.op == "glob" and (t.args[0], t.args[1]) in memo.sound(self.P)[2]

    def set_content(self, st, t, f):
        """update content of (possibly gated) location t by f(content)"""
        if t.op == "ite":
            self._cond_update(st, t, TRUE, f)
            return
        st.heap[(t, "*")] = f(self.content(st, t))

    def _cond_update(self, st, t, c, f):
        if t.op == "ite":
            a = atom(t.args[0])
            self._cond_update(st, t.args[1], band(c, a), f)
            self._cond_update(st, t.args[2], band(c, bnot(a)), f)
            return
        old = self.content(st, t)
        new = f(old)
        st.heap[(t, "*")] = self.merge_val((t, "*"), c, new, old)

    def default(self, key):
        t, f = key
        if f == "*":
            return t
        if t.op == "each":
            lam = t.args[0]
            v, loc = open_binder(lam)
            return close_binder("lam", lam.args[0], v, self.boolify(mk_attr(loc, f)))
        return self.boolify(mk_attr(t, f))

    def boolify(self, t):
        if t.op in ("attr", "getitem", "nth", "call", "mcall") and self.type_of(t) == ("prim", "bool"):
            return truth(t)
        return t

    def merge_val(self, key, c, a, b):
        """value/contents gate: a if c else b"""
        if a is b:
            return a
        if key is not None and isinstance(key, tuple) and key[1] == "*":
            return self.merge_content(c, a, b)
        return mk_ite(c, a, b)

    def merge_content(self, c, a, b):
        ka = a.op if a.op in ("seq", "dict", "set") else None
        kb = b.op if b.op in ("seq", "dict", "set") else None
        k = ka or kb
        if k is None or (ka and kb and ka != kb):
            return mk_ite(c, a, b)
        sa = list(a.args[0]) if ka else [splice(a)]
        sb = list(b.args[0]) if kb else [splice(b)]
        i = 0
        while i < len(sa) and i < len(sb) and sa[i] is sb[i]:
            i += 1
        return mk_seq(sa[:i] + [mk_cond(c, tuple(sa[i:])), mk_cond(bnot(c), tuple(sb[i:]))], k)

    def merge_states(self, c, s1, s2):
        """join of the two arms of a branch on c"""
        if s1.live is FALSE:
            return s2
        if s2.live is FALSE:
            return s1
        env = {}
        for n in set(s1.env) | set(s2.env):
            a, b = s1.env.get(n), s2.env.get(n)
            if a is None or b is None:
                env[n] = a if b is None else b
            else:
                env[n] = a if a is b else mk_ite(c, a, b)
        heap = {}
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is b:
                heap[k] = a
                continue
            if a is None:
                a = b if k[0].op == "ref" else self.default(k)
            if b is None:
                b = a if k[0].op == "ref" else self.default(k)
            heap[k] = self.merge_val(k, c, a, b)
        return State(env, heap, bor(s1.live, s2.live), s1.facts)

    # --------------------------------------------------------- function calls
    def call_function(self, fi, bound, st, self_env=None):
        """inline fi with bound argument environment; returns value term"""
        if len(self.stack) > self.MAXDEPTH:
            self.note(f"depth limit at {fi.qual}")
            self.unfolded = True
            return opaque("depth:" + fi.qual)
        self.analysed.add(fi.qual)
        um = memo.unsound(self.P).get(id(fi.node))
        if um is not None:
            self.stale.add((fi.qual, "what its key leaves out: " + ", ".join(sorted(um.missing)), "later calls"))
        fr = Frame(fi, fi.module)
        fr.arg0 = next(iter(bound.values())) if bound else None
        fr.cls = fi.cls
        fr.closure = fi.env
        ci = fi.cls
        if ci is not None and getattr(ci, "captures", None) and bound and not fi.is_static and not fi.is_class and isinstance(fi.env, tuple):
            me = next(iter(bound.values()))
            ev = {}
            for nm in ci.captures:
                x = self.getattr(me, "$" + nm, st)
                if x is not None and not (x.op == "attr"):
                    ev[nm] = x
            fr.closure = (ev, fi.env, None)
        if self.stack:
            fr.intry = self.stack[-1].intry
        env = dict(bound)
        cst = State(env, st.heap, TRUE, st.known())
        cst.heap = dict(st.heap)
        self.stack.append(fr)
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body, cst)
                if cst.live is not FALSE:
                    fr.exits.append(Exit(cst.live, "return", v, cst))
            else:
                if fi.is_generator:
                    fr.yields = self.alloc_container(cst, "list", [])
                self.exec_block(fi.node.body, cst)
                if cst.live is not FALSE:
                    fr.exits.append(Exit(cst.live, "return", NONE, cst))
        finally:
            self.stack.pop()
        rets = [e for e in fr.exits if e.kind == "return"]
        for e in fr.exits:
            if e.kind == "raise":
                self.add_exit(st, e.cond, "raise", e.val, State(dict(st.env), e.st.heap, TRUE, TRUE))
            elif e.kind == "lookup":
                self.add_exit(st, e.cond, "lookup", NONE, e.st)
        if not rets:
            st.live = FALSE
            return opaque("noreturn") if False else NONE
        # merge returns
        m = rets[-1]
        val, mst = m.val, m.st
        live = m.cond
        for e in reversed(rets[:-1]):
            if fr.yields is None:
                val = e.val if e.val is val else mk_ite(e.cond, e.val, val)
            s1 = State({}, e.st.heap, e.cond, TRUE)
            s2 = State({}, mst.heap, live, TRUE)
            mst = self.merge_states(e.cond, s1, s2)
            live = bor(live, e.cond)
        st.heap = mst.heap
        if fr.yields is not None:
            val = fr.yields
        st.live = band(st.live, live)
        return val

    def add_exit(self, st, relcond, kind, val, est=None):
        """record an exit of the current frame; relcond relative to st.live"""
        c = band(st.live, relcond)
        if c is FALSE:
            return
        fr = self.stack[-1] if self.stack else None
        if fr is None:
            return
        e = Exit(c, kind, val, (est or st).clone() if est is None else est)
        fr.exits.append(e)

    def bind_args(self, fi, args, kwargs, st, defaults_env=None, skip_self=False):
        """bind call arguments to parameters. args: list of terms (may contain
        ('star', term)), kwargs: list of (name|None, term).  Returns dict or None"""
        a = fi.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        rest = []
        flat = []
        for x in args:
            if isinstance(x, tuple):
                c = self.content(st, x[1])
                if c.op == "tuple":
                    flat.extend(c.args[0])
                elif c.op == "seq" and all(s.op == "elem" for s in c.args[0]):
                    flat.extend(s.args[0] for s in c.args[0])
                else:
                    return None
            else:
                flat.append(x)
        for i, x in enumerate(flat):
            if i < len(pos):
                env[pos[i]] = x
            else:
                rest.append(x)
        if rest and not a.vararg:
            return None
        if a.vararg:
            env[a.vararg.arg] = mk("tuple", tuple(rest))
        names = set(pos) | {p.arg for p in a.kwonlyargs}
        extra = []
        for n, v in kwargs:
            if n is None:
                c = self.content(st, v)
                if c.op == "dict" and all(
                    s.op == "ent" and is_const(s.args[0]) and s.args[0].args[0] == "str" for s in c.args[0]
                ):
                    for s in c.args[0]:
                        k = cval(s.args[0])
                        if k in names:
                            env[k] = s.args[1]
                        else:
                            extra.append((k, s.args[1]))
                    continue
                return None
            if n in names:
                env[n] = v
            elif a.kwarg:
                extra.append((n, v))
            else:
                return None
        if a.kwarg:
            env[a.kwarg.arg] = mk_seq([ent(const(n), v) for n, v in extra], "dict")
        # defaults
        defs = a.defaults
        for p, d in zip(pos[len(pos) - len(defs):], defs):
            if p not in env:
                env[p] = self.eval_default(fi, p, d, st)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env:
                if d is None:
                    return None
                env[p.arg] = self.eval_default(fi, p.arg, d, st)
        for p in pos:
            if p not in env:
                return None
        return env

    def eval_default(self, fi, pname, d, st):
        """default argument: evaluated in the defining module.  A mutable
        default is one shared object: a 'shared' location."""
        if isinstance(d, (ast.List, ast.Dict, ast.Set)) or (
            isinstance(d, ast.Call) and ast.unparse(d.func) in ("list", "dict", "set")
        ):
            r = mk("shared", fi.qual, pname)
            if (r, "*") not in st.heap and r not in self.refs:
                pass
            kind = "list" if isinstance(d, ast.List) or ast.unparse(d).startswith("list") else (
                "dict" if isinstance(d, ast.Dict) or ast.unparse(d).startswith("dict") else "set")
            self.refs[r] = (kind, None)
            if (r, "*") not in st.heap:
                # content unknown in general: treat as initial literal
                v = self.eval_in_module(fi.module, d, st, closure=fi.env)
                c = self.content(st, v)
                st.heap[(r, "*")] = c
            return r
        return self.eval_in_module(fi.module, d, st, closure=fi.env)

    def eval_in_module(self, module, expr, st, closure=None):
        fr = Frame(None, module)
        fr.closure = closure
        self.stack.append(fr)
        try:
            s2 = State({}, st.heap, TRUE, TRUE)
            v = self.eval(expr, s2)
            st.heap = s2.heap
            return v
        finally:
            self.stack.pop()

    # --------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        for i, s in enumerate(stmts):
            if st.live is FALSE:
                return
            self._rest = stmts[i + 1:]
            self.exec_stmt(s, st, stmts[i + 1:])

    def exec_stmt(self, s, st, rest=()):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("interpretation steps")
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.note(f"unsupported statement {type(s).__name__}")
            self.havoc_stmt(s, st)
            return
        m(s, st, rest)

    def havoc_stmt(self, s, st):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.env[n.id] = opaque("havoc:" + n.id)
        st.heap[EFFKEY] = mk_seq([splice(st.heap.get(EFFKEY, EFF)), elem(opaque("havoc"))])

    def st_Pass(self, s, st, rest):
        pass

    def st_Import(self, s, st, rest):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            st.env[n] = mk("mod", full) if full in self.P.modules else mk("ext", full)

    def st_ImportFrom(self, s, st, rest):
        mod = self.stack[-1].module
        base = s.module or ""
        if s.level:
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            e = self.P.resolve(base, a.name) if base in self.P.modules else ("ext", base + "." + a.name)
            st.env[a.asname or a.name] = self.entity(e, st) if e else opaque("import " + a.name)

    def st_Expr(self, s, st, rest):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st)

    def st_Return(self, s, st, rest):
        v = NONE if s.value is None else self.eval(s.value, st)
        if st.live is FALSE:
            return
        fr = self.stack[-1]
        fr.exits.append(Exit(st.live, "return", v, st.clone()))
        st.live = FALSE

    def st_Raise(self, s, st, rest):
        name = "reraise"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            try:
                name = ast.unparse(e).split(".")[-1]
            except Exception:
                name = "?"
        fr = self.stack[-1]
        fr.exits.append(Exit(st.live, "raise", const(name), st.clone()))
        st.live = FALSE

    def st_Assert(self, s, st, rest):
        c = self.cond(s.test, st)
        fr = self.stack[-1]
        r = band(st.live, bnot(c))
        if r is not FALSE:
            fr.exits.append(Exit(r, "raise", const("AssertionError"), st.clone()))
        st.live = band(st.live, c)

    def st_Assign(self, s, st, rest):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def st_AnnAssign(self, s, st, rest):
        if s.value is not None:
            v = self.eval(s.value, st)
            if v.op == "ref" and self.refs.get(v, (0, 1))[1] is None:
                self.refs[v] = (self.refs[v][0], self.P.type_of_ann(self.stack[-1].module, s.annotation))
            self.assign(s.target, v, st)

    def st_AugAssign(self, s, st, rest):
        cur = self.eval(_load(s.target), st)
        v = self.eval(s.value, st)
        opn = type(s.op).__name__
        # in-place container operators
        ct = self.container_kind(cur)
        if ct == "list" and opn == "Add":
            self.set_content(st, cur, lambda c: mk_seq([splice(c), splice(self.content(st, v))], "seq"))
            return
        if ct in ("dict", "set") and opn == "BitOr":
            self.set_content(st, cur, lambda c: mk_seq([splice(c), splice(self.content(st, v))], ct))
            return
        cls = self.exact_or_static_class(cur)
        if cls is not None:
            iname = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "Div": "__itruediv__", "BitOr": "__ior__"}.get(opn)
            m = iname and self.P.find_method(cls, iname)
            if m is not None:
                r = self.call_method_fi(m, cur, [v], [], st)
                self.assign(s.target, r, st)
                return
        self.assign(s.target, self.binop(opn, cur, v, st), st)

    def st_If(self, s, st, rest):
        c = self.cond(s.test, st)
        if st.live is FALSE:
            return
        c = self.simplify_under(c, st)
        if c is TRUE:
            return self.exec_block(s.body, st)
        if c is FALSE:
            return self.exec_block(s.orelse, st)
        s1 = st.clone()
        s1.live = band(st.live, c)
        s2 = st.clone()
        s2.live = band(st.live, bnot(c))
        if s1.live is not FALSE:
            self.exec_block(s.body, s1)
        if s2.live is not FALSE:
            self.exec_block(s.orelse, s2)
        r = self.merge_states(c, s1, s2)
        self.into(st, r)

    def into(self, st, r):
        st.env, st.heap, st.live = r.env, r.heap, r.live

    def simplify_under(self, c, st):
        """constant-fold a condition under the facts known on this path"""
        if c is TRUE or c is FALSE:
            return c
        k = st.known()
        if k is TRUE:
            return c
        try:
            if self.entails(k, c):
                return TRUE
            if self.entails(k, bnot(c)):
                return FALSE
        except Limit:
            pass
        return c

    def entails(self, k, c):
        from .compare import feasible
        r = band(k, bnot(c))
        if r is FALSE:
            return True
        return not feasible(r)

    def st_With(self, s, st, rest):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                # an open file is its own context
                opened = v.op == "xcall" and v.args[0] == "open"
                self.assign(it.optional_vars, v if opened else mk("call", "enter", (v,)), st)
        self.exec_block(s.body, st)

    def st_FunctionDef(self, s, st, rest):
        fr = self.stack[-1]
        fi = FuncInfo((fr.fi.qual if fr.fi else "?") + ".<locals>." + s.name, s, fr.module, None, None)
        cl = self.make_closure(fi, st, fr)
        st.env[s.name] = cl
        # allow recursion through the closure environment
        fi.env[0][s.name] = cl

    def make_closure(self, fi, st, fr):
        fi.env = (dict(st.env), fr.closure, fr.cls)
        t = mk("clos", fresh_id())
        self.closures[t] = fi
        return t

    def st_ClassDef(self, s, st, rest):
        """local class: captured variables become hidden fields of its instances"""
        fr = self.stack[-1]
        q = f"{fr.fi.qual if fr.fi else '?'}.<locals>.{s.name}"
        key = q
        n = 1
        while key in self.local_classes and self.local_classes[key].node is not s:
            n += 1
            key = f"{q}#{n}"
        env = (dict(st.env), fr.closure, fr.cls)
        caps = []
        for nm in self._free_names(s):
            cl = env
            while cl is not None:
                if nm in cl[0]:
                    caps.append((nm, cl[0][nm]))
                    break
                cl = cl[1]
        ci = self.local_classes.get(key)
        if ci is None:
            ci = ClassInfo(key, s, fr.module, env)
            self.local_classes[key] = ci
            self._local_bases(ci, st)
        ci.env = env
        for m in list(ci.methods.values()) + list(ci.setters.values()):
            m.env = env
        ci.captures = [nm for nm, _ in caps]
        st.env[s.name] = mk("cls", key)
        st.env["$cap:" + key] = mk("tuple", tuple(v for _, v in caps))

    def _free_names(self, s):
        r = self._freememo.get(s)
        if r is None:
            loaded, bound = [], set()
            for n in ast.walk(s):
                if isinstance(n, ast.Name):
                    if isinstance(n.ctx, ast.Load):
                        if n.id not in loaded:
                            loaded.append(n.id)
                    else:
                        bound.add(n.id)
                elif isinstance(n, ast.arg):
                    bound.add(n.arg)
            r = [x for x in loaded if x not in bound and x != s.name]
            self._freememo[s] = r
        return r

    def captured(self, q, st):
        """captured variables of local class q as seen from here, or None"""
        ci = self.local_classes.get(q)
        if ci is None or not getattr(ci, "captures", None):
            return None
        k = "$cap:" + q
        v = st.env.get(k)
        cl = self.stack[-1].closure
        while v is None and cl is not None:
            v = cl[0].get(k)
            cl = cl[1]
        if v is None or v.op != "tuple" or len(v.args[0]) != len(ci.captures):
            return None
        return tuple(("$" + n, x) for n, x in zip(ci.captures, v.args[0]))

    def _local_bases(self, ci, st):
        out = []
        for b in ci.node.bases:
            x = b.value if isinstance(b, ast.Subscript) else b
            try:
                t = self.eval(x, st)
            except Exception:
                continue
            if t.op == "cls":
                c = self.class_info(t.args[0])
                if c:
                    out.append(c)
            elif t.op == "ext":
                out.append(t.args[0])
        ci.bases = out

    def st_Nonlocal(self, s, st, rest):
        self.stack[-1].nonlocal_.update(s.names)
        self.note("nonlocal")
        for n in s.names:
            st.env[n] = opaque("nonlocal:" + n)

    def st_Global(self, s, st, rest):
        self.note("global")
        for n in s.names:
            st.env[n] = opaque("global:" + n)
            st.heap[(mk("globvar", self.stack[-1].module.name, n), "written")] = opaque("g")

    def st_Delete(self, s, st, rest):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                if self.container_kind(o) == "dict" or self.is_dict(o):
                    self.set_content(st, o, lambda c: mk_seq([splice(c), mk("del", k)], "dict"))
                else:
                    self.set_content(st, o, lambda c: opaque("del"))
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                self.note("del attr")

    def st_Break(self, s, st, rest):
        fr = self.stack[-1]
        fr.exits.append(Exit(st.live, "break", NONE, st.clone()))
        st.live = FALSE

    def st_Continue(self, s, st, rest):
        fr = self.stack[-1]
        fr.exits.append(Exit(st.live, "continue", NONE, st.clone()))
        st.live = FALSE

    def st_Match(self, s, st, rest):
        subj = self.eval(s.subject, st)
        self._match_cases(s.cases, subj, st)

    def _match_cases(self, cases, subj, st):
        if not cases or st.live is FALSE:
            return
        c = cases[0]
        binds = {}
        cond = self.pattern(c.pattern, subj, st, binds)
        if cond is None:
            self.note("match pattern")
            for cc in cases:
                for b in cc.body:
                    self.havoc_stmt(b, st)
            return
        s1 = st.clone()
        s1.env.update(binds)
        s1.live = band(st.live, cond)
        if c.guard is not None and s1.live is not FALSE:
            g = self.cond(c.guard, s1)
            cond = band(cond, g)
            s1.live = band(st.live, cond)
        cond = self.simplify_under(cond, st)
        s2 = st.clone()
        s2.live = band(st.live, bnot(cond))
        if cond is not FALSE and s1.live is not FALSE:
            self.exec_block(c.body, s1)
        else:
            s1.live = FALSE
        if cond is not TRUE:
            self._match_cases(cases[1:], subj, s2)
        else:
            s2.live = FALSE
        self.into(st, self.merge_states(cond, s1, s2))

    def pattern(self, p, x, st, binds):
        if isinstance(p, ast.MatchValue):
            return mk_eq(x, self.eval(p.value, st))
        if isinstance(p, ast.MatchSingleton):
            return mk_eq(x, const(p.value))
        if isinstance(p, ast.MatchAs):
            c = TRUE
            if p.pattern is not None:
                c = self.pattern(p.pattern, x, st, binds)
            if p.name:
                binds[p.name] = x
            return c
        if isinstance(p, ast.MatchOr):
            r = FALSE
            for q in p.patterns:
                c = self.pattern(q, x, st, binds)
                if c is None:
                    return None
                r = bor(r, c)
            return r
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, st)
            c = self.isinstance_(x, cls)
            names = []
            if p.patterns:
                ci = cls.op == "cls" and self.class_info(cls.args[0])
                if not ci:
                    return None
                names = [f[0] for f in self.P.fields(ci)][: len(p.patterns)]
                if len(names) < len(p.patterns):
                    return None
            for n, q in list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns)):
                s2 = st.clone()
                s2.live = band(st.live, c)
                cc = self.pattern(q, self.getattr(x, n, s2), st, binds)
                if cc is None:
                    return None
                c = band(c, cc)
            return c
        if isinstance(p, ast.MatchSequence) and x.op == "tuple" and len(p.patterns) == len(x.args[0]):
            c = TRUE
            for q, e in zip(p.patterns, x.args[0]):
                cc = self.pattern(q, e, st, binds)
                if cc is None:
                    return None
                c = band(c, cc)
            return c
        return None

    def st_Try(self, s, st, rest):
        fr = self.stack[-1]
        start = len(fr.exits)
        fr.intry += 1
        body = st.clone()
        self.exec_block(s.body, body)
        fr.intry -= 1
        new = fr.exits[start:]
        del fr.exits[start:]
        states = []
        kept = []
        for e in new:
            if e.kind != "raise" or not s.handlers:
                kept.append(e)
                continue
            handled = False
            left = e.cond
            for h in s.handlers:
                mt = self.handler_matches(h, e.val)
                if mt:
                    mine = left
                    if mt == "maybe":
                        # an exception of unknown class: either of this handler's classes or not
                        is_it = FALSE
                        for n in sorted(self.handler_names(h)):
                            is_it = bor(is_it, atom(mk("batom", "caught", const(n), e.cond)))
                        mine, left = band(left, is_it), band(left, bnot(is_it))
                    hs = st.clone()
                    hs.heap = dict(e.st.heap)
                    hs.env = dict(st.env)
                    for n, v in body.env.items():
                        if n not in hs.env:
                            hs.env[n] = opaque("try:" + n)
                    if isinstance(e.st, State) and e.st.env and set(st.env) <= set(e.st.env):
                        hs.env = dict(e.st.env)
                    hs.live = mine
                    if h.name:
                        hs.env[h.name] = mk("call", "exc", (e.val,))
                    self.exec_block(h.body, hs)
                    states.append((mine, hs))
                    if mt != "maybe":
                        handled = True
                        break
            if not handled and left is not e.cond:
                e.cond = left
            if not handled:
                kept.append(e)
        fr.exits.extend(kept)
        if body.live is not FALSE and s.orelse:
            self.exec_block(s.orelse, body)
        r = body
        for c, hs in states:
            r = self.merge_states(c, hs, r)
        self.into(st, r)
        if s.finalbody:
            mine = fr.exits[start:]
            del fr.exits[start:]
            for e in mine:
                if e.kind == "lookup":
                    fr.exits.append(e)
                    continue
                es = State(dict(e.st.env or st.env), dict(e.st.heap), TRUE, TRUE)
                self.exec_block(s.finalbody, es)
                e.st = es
                fr.exits.append(e)
            if st.live is not FALSE:
                self.exec_block(s.finalbody, st)

    def handler_names(self, h):
        """names of the exception classes of a handler (a module constant naming a tuple of them is looked up)"""
        t = h.type
        if isinstance(t, ast.Name):
            e = self.stack[-1].module.bind.get(t.id)
            if isinstance(e, tuple) and e[0] == "var" and isinstance(e[3], ast.Tuple):
                t = e[3]
        return {ast.unparse(x).split(".")[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])}

    def handler_matches(self, h, exc):
        if h.type is None:
            return True
        names = self.handler_names(h)
        if "Exception" in names or "BaseException" in names:
            return True
        n = cval(exc) if is_const(exc) else "?"
        if n in names:
            return True
        if n == "any":
            return "maybe"
        bc = getattr(builtins, n, None)
        if isinstance(bc, type) and issubclass(bc, BaseException) and any(b.__name__ in names for b in bc.__mro__):
            return True
        ci = None
        for q, c in self.P.classes.items():
            if c.name == n:
                ci = c
        if ci:
            for b in self.P.mro(ci):
                if b.name in names:
                    return True
            for b in self.P.ext_bases(ci):
                if b.split(".")[-1] in names:
                    return True
        return False

    # --------------------------------------------------------- assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if v.op == "ite" and False:
                pass
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            if isinstance(t.slice, ast.Slice):
                self.set_content(st, o, lambda c: opaque("slice-assign"))
                return
            k = self.eval(t.slice, st)
            self.setitem(o, k, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = self.content(st, v)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                if c.op == "tuple" or (c.op == "seq" and all(s.op == "elem" for s in c.args[0])):
                    es = list(c.args[0]) if c.op == "tuple" else [s.args[0] for s in c.args[0]]
                    after = n - i - 1
                    for j in range(i):
                        self.assign(t.elts[j], es[j], st)
                    mid = es[i: len(es) - after]
                    self.assign(t.elts[i].value, self.alloc_container(st, "list", [elem(x) for x in mid]), st)
                    for j in range(after):
                        self.assign(t.elts[i + 1 + j], es[len(es) - after + j], st)
                elif i == n - 1:
                    for j in range(i):
                        self.assign(t.elts[j], mk_nth(c, j), st)
                    self.assign(t.elts[i].value, self.slice_(c, const(i), NONE, NONE), st)
                else:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, opaque("star"), st)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.nth(c, i), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            self.note("assign target")

    def nth(self, c, i):
        return self.boolify(mk_nth(c, i))

    def setattr(self, o, name, v, st):
        if o.op == "ite":
            self._cond_setattr(o, TRUE, name, v, st)
            return
        ci = self.exact_or_static_class(o)
        if ci is not None:
            for c in self.P.mro(ci):
                if name in c.setters:
                    self.call_method_fi(c.setters[name], o, [v], [], st)
                    return
        st.heap[(o, name)] = v

    def _cond_setattr(self, o, c, name, v, st):
        if o.op == "ite":
            a = atom(o.args[0])
            self._cond_setattr(o.args[1], band(c, a), name, v, st)
            self._cond_setattr(o.args[2], band(c, bnot(a)), name, v, st)
            return
        old = self.getattr(o, name, st)
        st.heap[(o, name)] = mk_ite(c, v, old)

    def setitem(self, o, k, v, st):
        if self.frame_setitem(o, k, v, st):
            return
        kind = self.container_kind(o)
        if kind == "list":
            def f(c):
                if is_num(k) and c.op == "seq" and all(s.op == "elem" for s in c.args[0]) and 0 <= cval(k) < len(c.args[0]):
                    segs = list(c.args[0])
                    segs[cval(k)] = elem(v)
                    return mk_seq(segs, "seq")
                return mk("setitem", c, k, v)
            self.set_content(st, o, f)
            return
        if kind == "dict" or self.is_dict(o) or self.type_of(o) is None or True:
            self.set_content(st, o, lambda c: mk_seq([splice(c), ent(k, v)], "dict"))

    def container_kind(self, t):
        if t.op == "ref":
            k = self.refs.get(t)
            if k and k[0] in ("list", "dict", "set"):
                return k[0]
            return None
        if t.op in ("shared", "glob"):
            k = self.refs.get(t)
            return k[0] if k else None
        if t.op == "seq":
            return "list"
        if t.op in ("dict", "set"):
            return t.op
        if t.op == "ite":
            ks = {self.container_kind(l) for l in leaves(t)}
            return ks.pop() if len(ks) == 1 else None
        tt = strip_none(self.type_of(t))
        if tt and tt[0] in ("list", "dict", "set"):
            return tt[0]
        return None

    def is_dict(self, t):
        return self.container_kind(t) == "dict"

    def exact_or_static_class(self, t):
        """ClassInfo for attribute/method lookup, or None"""
        if t.op in ("new", "enumv"):
            return self.class_info(t.args[0])
        if t.op == "ref":
            k = self.refs.get(t)
            if k and k[0] == "inst":
                return self.class_info(k[1])
            return None
        tt = strip_none(self.type_of(t))
        if tt and tt[0] == "c":
            return self.class_info(tt[1])
        return None

    def is_exact(self, t):
        return t.op in ("new", "enumv") or (t.op == "ref" and self.refs.get(t, ("",))[0] == "inst")


def _load(t):
    import copy as _c
    t2 = _c.copy(t)
    t2.ctx = ast.Load()
    return t2
