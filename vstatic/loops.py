"""
Loop summaries.  A loop over an unknown sequence is analysed once per
fixpoint round with placeholders (lc) for every loop-carried value; each
carried value is then put in closed form (append/extend/dict build, sum,
exists/forall, first match, last value) or, failing that, kept as an
uninterpreted fold.
"""
import ast

from .terms import *  # noqa
from . import terms as tm

UNDEF = mk("undef")
FLAGS = ("$brk", "$ret", "$exc")


def _has_break(body):
    """a break of this loop, not of one inside it"""
    for b in body:
        if isinstance(b, ast.Break):
            return True
        if isinstance(b, (ast.For, ast.While)):
            if _has_break(b.orelse):
                return True
            continue
        if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if _has_break(getattr(b, f, [])):
                return True
        for h in getattr(b, "handlers", []):
            if _has_break(h.body):
                return True
    return False


class Loops:
    # ------------------------------------------------------------------ driver
    def run_loop(self, it, body, st):
        """run body(st, element) for every element of sequence term `it`"""
        if st.live is FALSE:
            return
        if it.op == "ite":
            ls = leaves(it)
            ds = list(dict.fromkeys(ls))
            if len(ds) < len(ls) and len(ls) <= 64:
                # one pass per distinct source
                first, other = ds[0], ds[1]
                c = push_ite(lambda x: TRUE if x is first else FALSE, it)
                rest = push_ite(lambda x: other if x is first else x, it)
                self._fork(c, st, lambda s: self.run_loop(first, body, s), lambda s: self.run_loop(rest, body, s))
                return
            c = atom(it.args[0])
            self._fork(c, st, lambda s: self.run_loop(it.args[1], body, s), lambda s: self.run_loop(it.args[2], body, s))
            return
        if it.op in ("seq", "set"):
            self._run_segs(it.args[0], body, st)
            return
        if it.op == "tuple":
            for e in it.args[0]:
                if st.live is FALSE:
                    return
                body(st, e)
            return
        v = elem_var(it)
        self.abstract(it, v, lambda s: body(s, v), st)

    def _fork(self, c, st, f, g):
        c = self.simplify_under(c, st)
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        s1 = st.clone()
        s1.live = band(st.live, c)
        s2 = st.clone()
        s2.live = band(st.live, bnot(c))
        if s1.live is not FALSE:
            f(s1)
        if s2.live is not FALSE:
            g(s2)
        self.into(st, self.merge_states(c, s1, s2))

    def _run_segs(self, segs, body, st):
        for s in segs:
            if st.live is FALSE:
                return
            if s.op == "elem":
                body(st, s.args[0])
            elif s.op == "cond":
                self._fork(s.args[0], st, lambda x: self._run_segs(s.args[1], body, x), lambda x: None)
            elif s.op == "splice":
                self.run_loop(s.args[0], body, st)
            elif s.op == "for":
                w, inner = open_binder(s)
                self.abstract(s.args[0], w, lambda x: self._run_segs(inner, body, x), st)
            else:
                self.note("loop over " + s.op)
                v = elem_var(opaque("seg"))
                self.abstract(opaque("seg"), v, lambda x: body(x, v), st)

    # ------------------------------------------------------------------ statements
    def st_For(self, s, st, rest):
        it = self.iterable(self.eval(s.iter, st), st)
        if st.live is FALSE:
            return

        def bind(x, e):
            self.assign(s.target, e, x)
        self.for_loop(it, bind, s.body, s.orelse, st, _has_break(s.body))

    def for_loop(self, it, bind, stmts, orelse, st, has_break):
        fr = self.stack[-1]
        key = "$brk%d" % len(fr.loopctx)
        fr.loopctx.append(key)
        if has_break:
            st.env[key] = FALSE

        def once(s, e):
            if has_break and s.env.get(key, FALSE) is not FALSE:
                b = s.env[key]
                if b is TRUE:
                    return
                s1 = s.clone()
                s1.live = band(s.live, bnot(b))
                s2 = s.clone()
                s2.live = band(s.live, b)
                if s1.live is not FALSE:
                    iterate(s1, e)
                self.into(s, self.merge_states(bnot(b), s1, s2))
            else:
                iterate(s, e)

        def iterate(s, e):
            n = len(fr.exits)
            bind(s, e)
            self.exec_block(stmts, s)
            mine = fr.exits[n:]
            del fr.exits[n:]
            for x in mine:
                if x.kind == "continue":
                    es = x.st.clone()
                    es.live = x.cond
                    self.into(s, self.merge_states(x.cond, es, s))
                elif x.kind == "break":
                    es = x.st.clone()
                    es.live = x.cond
                    es.env[key] = TRUE
                    self.into(s, self.merge_states(x.cond, es, s))
                else:
                    fr.exits.append(x)
        self.run_loop(it, once, st)
        fr.loopctx.pop()
        b = st.env.pop(key, FALSE) if has_break else FALSE
        if orelse and st.live is not FALSE:
            if b is FALSE:
                self.exec_block(orelse, st)
            else:
                self._fork(b, st, lambda x: None, lambda x: self.exec_block(orelse, x))

    def st_While(self, s, st, rest):
        r = self._counting(s, st)
        if r is not None:
            var, lo, hi = r
            it = self.bi_range([lo, hi], [], st)
            self.for_loop(it, lambda x, e: x.env.__setitem__(var, e), s.body[:-1], s.orelse, st, False)
            st.env[var] = mk_ite(mk_gt(hi, lo), hi, lo)
            return
        if self._concrete_while(s, st):
            return
        self.note("while loop")
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    st.env[n.id] = opaque("while:" + n.id)
        # containers reachable from names used in the loop may change
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id in st.env:
                self.havoc_value(st.env[n.id], st)
        if any(isinstance(n, (ast.Raise, ast.Call, ast.Subscript, ast.Assert)) for b in s.body for n in ast.walk(b)):
            self.add_exit(st, atom(mk("batom", "while-raise", opaque("w"))), "raise", const("any"))
        if _has_return(s.body):
            c = atom(mk("batom", "while-return", opaque("w")))
            fr = self.stack[-1]
            fr.exits.append(tm_exit(self, band(st.live, c), "return", opaque("while-ret"), st.clone()))
            st.live = band(st.live, bnot(c))

    def _concrete_while(self, s, st):
        """a while loop whose condition is decided at every turn is executed turn by turn"""
        from .terms import mk_seq
        brk = _has_break(s.body)
        mark = f"%going{s.lineno}"
        done = ast.Assign(targets=[ast.Name(id=mark, ctx=ast.Store())], value=ast.Constant(value=True), lineno=s.lineno, col_offset=0)
        ast.fix_missing_locations(done)
        snap = st.clone()
        fr = self.stack[-1]
        n = len(fr.exits)
        for _ in range(40):
            c = self.simplify_under(self.truthy(self.eval(s.test, st), st), st)
            if c is FALSE:
                if s.orelse:
                    self.exec_block(s.orelse, st)
                return True
            if c is not TRUE:
                break
            if not brk:
                self.for_loop(mk_seq([elem(const(0))]), lambda x, e: None, s.body, [], st, False)
            else:
                st.env[mark] = FALSE
                self.for_loop(mk_seq([elem(const(0))]), lambda x, e: None, s.body, [done], st, True)
                if st.live is not FALSE:
                    m = self.simplify_under(self.truthy(st.env.pop(mark), st), st)
                    if m is FALSE:
                        return True
                    if m is not TRUE:
                        break
            if st.live is FALSE:
                return True
        else:
            if isinstance(s.test, ast.Name):
                # a work list that is never exhausted, for given inputs: the loop does not end
                self.effect(st, mk("xcall", "endless loop", (), ()))
                return True
        del fr.exits[n:]
        st.env, st.heap, st.live, st.facts = snap.env, snap.heap, snap.live, snap.facts
        return False

    def havoc_value(self, t, st):
        if t.op in ("ref", "shared", "glob"):
            for k in list(st.heap):
                if k[0] is t:
                    st.heap[k] = opaque("havoc")
        elif t.op in ("new", "const"):
            pass
        elif t.op == "sym":
            st.heap[(t, "*")] = opaque("havoc") if self.container_kind(t) else st.heap.get((t, "*"), t)

    def _counting(self, s, st):
        """while i < n: ...; i += 1"""
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)):
            return None
        if not isinstance(t.ops[0], (ast.Lt, ast.LtE)):
            return None
        i = t.left.id
        last = s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == i
                and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        stored = set()
        for b in s.body[:-1]:
            for n in ast.walk(b):
                if isinstance(n, (ast.Break, ast.Continue)):
                    return None
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    stored.add(n.id)
        if i in stored or i not in st.env:
            return None
        for n in ast.walk(t.comparators[0]):
            if isinstance(n, ast.Name) and n.id in stored:
                return None
            if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == "len"):
                return None
        hi = self.eval(t.comparators[0], st)
        if isinstance(t.ops[0], ast.LtE):
            hi = mk_add(hi, ONE)
        return i, st.env[i], hi

    # ------------------------------------------------------------------ helpers
    def loop_collect(self, it, f, st):
        return self.loop_build("list", it, lambda s, e, out: self._append(s, out, f(s, e)), st)

    def _append(self, s, out, v):
        self.set_content(s, out, lambda c: mk_seq([splice(c), elem(v)], "seq"))

    def loop_build(self, kind, it, body, st):
        out = self.alloc_container(st, kind, [])
        saved = dict(st.env)
        self.run_loop(it, lambda s, e: body(s, e, out), st)
        st.env = saved
        return out

    def loop_fold(self, xs, init, f, st):
        saved = dict(st.env)
        key = "$acc%d" % fresh_id()
        st.env[key] = init

        def body(s, e):
            s.env[key] = f(s, s.env[key], e)
        self.run_loop(xs, body, st)
        r = st.env[key]
        st.env = saved
        return r

    # ------------------------------------------------------------------ abstract loop
    def abstract(self, src, v, run, st):
        from .interp import State, Exit, EFF, EFFKEY
        fr = self.stack[-1]
        pre_env, pre_heap = dict(st.env), dict(st.heap)
        known = st.known()
        split = {}      # key -> list of field names (record-valued carried value)
        carried = {}    # key -> placeholder
        inits = {}
        flags = {}
        for rnd in range(9):
            s = State(dict(pre_env), dict(pre_heap), TRUE, known)
            for k, ph in carried.items():
                if k[0] == "env":
                    s.env[k[1]] = ph
                elif k[0] == "heap":
                    s.heap[k[1]] = ph
            n = len(fr.exits)
            first_ref = tm._fresh[0]
            run(s)
            exits = fr.exits[n:]
            del fr.exits[n:]
            new = {}
            upd = {}
            self._collect(s, pre_env, pre_heap, carried, first_ref, upd, v)
            grew = False
            for k in upd:
                if k not in carried:
                    grew = True
                    init = self._init_of(k, pre_env, pre_heap)
                    inits[k] = init
                    carried[k] = self._placeholder(k, init, upd[k])
            if not grew:
                # record-valued carried values: split into fields
                for k in list(carried):
                    if k in split or k not in upd:
                        continue
                    u = upd[k]
                    i = inits[k]
                    if i.op == "ref":
                        i = self.resolve(State(pre_env, pre_heap, TRUE, TRUE), i)
                    q = _record(u)
                    if q is not None and i.op not in ("new", "ite", "undef") and self.type_of(i) == ("c", q) and not self.P.subclasses(q):
                        ci = self.class_info(q)
                        i = mk("new", q, tuple((f, self.boolify(mk_attr(i, f))) for f in self.instance_fields(ci)))
                    if carried[k].op == "lc" and q is not None and i.op == "new" and i.args[0] == q:
                        names = [f for f, _ in i.args[1]]
                        if all(l is carried[k] or [f for f, _ in l.args[1]] == names for l in leaves(u)):
                            split[k] = names
                            inits[k] = i
                            carried[k] = mk("new", q, tuple((f, self._ph_for(x, None)) for f, x in i.args[1]))
                            grew = True
            if not grew:
                break
        else:
            self.note("loop did not stabilise")
            for k in carried:
                self._store(st, k, opaque("loop"))
            return
        # flatten
        items = {}      # (key, field|None) -> (lc, init, update)
        for k, ph in carried.items():
            u = upd.get(k, ph)
            if k in split:
                for f, x in ph.args[1]:
                    uf = push_ite(lambda l: (x if l is ph else new_field(l, f)), u)
                    items[(k, f)] = (_lcof(x), new_field(inits[k], f), uf, _is_tr(x))
            else:
                items[(k, None)] = (_lcof(ph), inits[k], u, _is_tr(ph))
        # exits of an iteration
        retc, excc = FALSE, FALSE
        retv, excv = None, None
        ret_heap_changed = False
        for e in exits:
            if e.kind == "return":
                val = self._close_refs(e.val, e.st, first_ref)
                retv = val if retv is None else mk_ite(e.cond, val, retv)
                retc = bor(retc, e.cond)
            elif e.kind == "raise":
                excv = e.val if excv is None or excv is e.val else mk_ite(e.cond, e.val, excv)
                excc = bor(excc, e.cond)
            elif e.kind in ("break", "continue"):
                # belongs to an enclosing python-level loop handled by caller
                fr.exits.append(e)
        for e in exits:
            if e.kind == "lookup" and not self._mentions(e.cond, items):
                self.add_exit(st, mk_any(src, v, e.cond), "lookup", NONE, e.st)
        absorbing = self._absorbing(carried, upd, retc, retv, v) if retc is not FALSE else None
        if absorbing is not None:
            r = mk("lc", fresh_id(), ("prim", "bool"))
            items[("$ret", None)] = (r, FALSE, bor(atom(mk("truth", r)), retc), True)
        elif retc is not FALSE:
            r = mk("lc", fresh_id(), ("prim", "bool"))
            rv = mk("lc", fresh_id(), None)
            items[("$ret", None)] = (r, FALSE, bor(atom(mk("truth", r)), retc), True)
            items[("$retv", None)] = (rv, NONE, mk_ite(atom(mk("truth", r)), rv, mk_ite(retc, retv, rv)), False)
        if excc is not FALSE:
            r = mk("lc", fresh_id(), ("prim", "bool"))
            items[("$exc", None)] = (r, FALSE, bor(atom(mk("truth", r)), excc), True)
        sol = self._solve(src, v, items)
        # write back
        rec = {}
        for (k, f), val in sol.items():
            if k in FLAGS or k == "$retv":
                continue
            if f is None:
                self._store(st, k, val)
            else:
                rec.setdefault(k, {})[f] = val
        for k, d in rec.items():
            i = inits[k]
            self._store(st, k, mk("new", i.args[0], tuple((f, d[f]) for f, _ in i.args[1])))
        # location written at an element: quantify
        for (loc, f) in list(self._elem_writes):
            val = self._elem_writes[(loc, f)]
            self._quantify(st, src, v, loc, f, val)
        # exits after the loop
        exc = sol.get(("$exc", None), FALSE)
        if exc is not FALSE:
            if any(self._mentions(x, items) for x in (excv,)):
                excv = const("any")
            if v in excv.fv:
                excv = const("any")
            c = band(st.live, exc)
            fr.exits.append(Exit(c, "raise", excv, st.clone()))
            st.live = band(st.live, bnot(exc))
        ret = sol.get(("$ret", None), FALSE)
        if ret is not FALSE and st.live is not FALSE:
            c = band(st.live, ret)
            if c is not FALSE:
                rs = st.clone()
                for k in carried:
                    if k[0] == "heap":
                        rs.heap[k[1]] = opaque("prefix")
                rs.live = c
                if absorbing is not None:
                    rval = st.env[absorbing[1]]
                else:
                    rval = sol[("$retv", None)]
                fr.exits.append(Exit(c, "return", rval, rs))
                st.live = band(st.live, bnot(ret))

    def _absorbing(self, carried, upd, retc, retv, v):
        """early return of a loop-carried value at a fixpoint of the loop:
        the value returned is the value the complete loop would compute"""
        for k, ph in carried.items():
            if k[0] != "env" or upd.get(k) is not retv:
                continue
            u = retv
            w = fvar(None)
            tm.FV_SRC[w] = tm.FV_SRC.get(v)
            m = {v: w}
            if ph.op == "new":
                for f, x in ph.args[1]:
                    uf = push_ite(lambda l: (x if l is ph else new_field(l, f)), u)
                    lc = _lcof(x)
                    if _is_tr(x):
                        m[mk("truth", lc)] = uf
                    else:
                        m[lc] = uf
            elif _is_tr(ph):
                m[mk("truth", _lcof(ph))] = u
            else:
                m[_lcof(ph)] = u
            if any(_lcof(p) in u.fv or _lcof(p) in retc.fv for q, p in carried.items() if q != k and p.op != "new"):
                continue
            u2 = subst(u, m)
            if mk_ite(retc, u2, u) is u:
                return k
            # compare record fields
            if u2.op == "new" and u.op == "new" and all(
                    mk_ite(retc, a[1], b[1]) is b[1] for a, b in zip(u2.args[1], u.args[1])):
                return k
        return None

    _elem_writes = {}

    def _mentions(self, t, items):
        return any(it[0] in t.fv for it in items.values())

    def _store(self, st, k, val):
        if k[0] == "env":
            st.env[k[1]] = val
        else:
            st.heap[k[1]] = val

    def _init_of(self, k, env, heap):
        if k[0] == "env":
            return env.get(k[1], UNDEF)
        r = heap.get(k[1])
        if r is None:
            return self.default(k[1])
        return r

    def _placeholder(self, k, init, u):
        return self._ph_for(init, k, u)

    def _ph_for(self, init, k, u=None):
        from .interp import EFFKEY
        if is_bool(init) or (u is not None and is_bool(u) and init in (UNDEF,)):
            return atom(mk("truth", mk("lc", fresh_id(), ("prim", "bool"))))
        typ = None
        if init is not UNDEF:
            if init.op == "ref" and self.refs.get(init, ("",))[0] == "inst":
                typ = ("c", self.refs[init][1])
            else:
                typ = self.type_of(init)
            if typ is None and init.op in ("seq", "dict", "set"):
                typ = {"seq": ("list", None), "dict": ("dict", None, None), "set": ("set", None)}[init.op]
        elif u is not None:
            typ = self.type_of(u)
        return mk("lc", fresh_id(), typ)

    def _collect(self, s, pre_env, pre_heap, carried, first_ref, upd, v):
        """loop-carried updates after one iteration, references allocated in
        the iteration replaced by the value they hold"""
        self._elem_writes = ew = {}
        env0 = lambda n: carried.get(("env", n)) or pre_env.get(n)
        for n, val in s.env.items():
            o = env0(n)
            if o is val:
                if ("env", n) in carried:
                    upd[("env", n)] = val
                continue
            upd[("env", n)] = self._close_refs(val, s, first_ref)
        for k, val in s.heap.items():
            loc, f = k
            if loc.op == "ref" and loc.args[0] > first_ref:
                continue
            o = carried.get(("heap", k))
            if o is None:
                o = pre_heap.get(k)
            if o is None:
                o = self.default(k)
            if o is val:
                if ("heap", k) in carried:
                    upd[("heap", k)] = val
                continue
            val2 = self._close_refs(val, s, first_ref)
            if v in loc.fv or any(x.op == "opaque" and False for x in ()):
                ew[k] = val2
                continue
            upd[("heap", k)] = val2

    def _close_refs(self, t, s, first_ref, memo=None):
        """replace refs allocated in this iteration by their value"""
        if memo is None:
            memo = {}
        if t in memo:
            return memo[t]
        if not _has_new_ref(t, first_ref, {}):
            return t
        m = {}
        for r in _new_refs(t, first_ref):
            m[r] = self.resolve(s, r)
        res = subst(t, m)
        memo[t] = res
        return res

    def _quantify(self, st, src, v, loc, f, val):
        own, base = mk("getitem", src, v), loc
        while base.op in ("attr", "getitem", "nth") and base is not own:
            base = base.args[0]
        if src.op != "items" and base is own:
            # a table walked by its keys and looked up under each is walked by its entries
            src = mk("items", src)
            w = tm.elem_var(src)
            m = {own: mk("nth", w, 1), v: mk("nth", w, 0)}
            v, loc, val = w, subst(loc, m), subst(val, m)
        each = close_binder("lam", src, v, loc)
        bodyv = close_binder("lam", src, v, val)
        if any(x.op == "lc" for x in val.fv):
            bodyv = opaque("each")
        st.heap[(mk("each", each), f)] = bodyv

    # ------------------------------------------------------------------ closed forms
    def _solve(self, src, v, items):
        lc_key = {it[0]: key for key, it in items.items()}
        nonempty = tm.truth_source(src)
        out = {}
        # counters: x' = x + c
        idx = {}
        for key, (lc, init, u, b) in items.items():
            if b or init is UNDEF:
                continue
            if u.op in ("poly", "lc") or is_num(u):
                d = mk_sub(u, lc)
                if is_num(d) and lc in u.fv:
                    idx[lc] = mk_add(init, mk_mul(d, mk("idx", v)))
        if idx:
            for key, (lc, init, u, b) in list(items.items()):
                if lc in idx:
                    continue
                if any(x in idx for x in u.fv):
                    items[key] = (lc, init, subst(u, {k: x for k, x in idx.items()}), b)
        if src.op == "attr" and src.args[1] == "index":
            # the labels of the rows of a table are distinct: what is read at this row was not written before
            for key, (lc, init, u, b) in list(items.items()):
                if u.op in ("dict", "ite") and not b and init is not UNDEF and _keyed_by(u, lc, v):
                    items[key] = (lc, init, subst(u, {mk("getitem", lc, v): mk_getitem(init, v)}), b)
        pending = dict(items)
        brk = None
        for key, (lc, init, u, b) in items.items():
            r = self._closed(src, v, lc, init, u, b, nonempty, lc_key)
            if r is not None:
                out[key] = r
                del pending[key]
        # first match: x' = b ? x : (c ? V : x) with b' = b or c
        for key, (lc, init, u, b) in list(pending.items()):
            others = [x for x in u.fv if x in lc_key and x is not lc]
            if len(others) != 1:
                continue
            o = others[0]
            ok = items[lc_key[o]]
            if not ok[3] or not is_bool(u) and False:
                continue
            tb = mk("truth", o)
            ub1 = _assume(ok[2], tb, True)
            ub0 = _assume(ok[2], tb, False)
            if ub1 is not TRUE or any(x in lc_key for x in ub0.fv) or ok[1] is not FALSE:
                continue
            u1 = _assume(u, tb, True)
            w = _assume(u, tb, False)
            ph = atom(mk("truth", lc)) if b else lc
            if u1 is not ph:
                continue
            c = ub0
            if mk_ite(c, ph, w) is not ph:
                # W must be the identity when c is false
                if not self._identity_unless(w, c, ph):
                    continue
            wv = subst(_under(w, c), {lc: init} if not b else {})
            if b:
                wv = _assume(wv, mk("truth", lc), init is TRUE) if init in (TRUE, FALSE) else None
                if wv is None:
                    continue
            if any(x in lc_key for x in wv.fv):
                continue
            has, val = self.first_match(src, v, c, wv)
            out[key] = mk_ite(has, val, init)
            del pending[key]
        if pending:
            # absorbing exits: return r when r is the fixpoint is left to fold
            for key, val in self._fold(src, v, pending, items, lc_key).items():
                out[key] = val
        return out

    def _identity_unless(self, w, c, ph):
        x = mk_ite(c, ph, w)
        return x is ph

    def _closed(self, src, v, lc, init, u, b, nonempty, lc_key):
        ph = atom(mk("truth", lc)) if b else lc
        if u is ph:
            return init
        foreign = [x for x in u.fv if x in lc_key and x is not lc]
        if foreign:
            return None
        if b:
            if not is_bool(u):
                return None
            a = mk("truth", lc)
            u1, u0 = _assume(u, a, True), _assume(u, a, False)
            if lc in u1.fv or lc in u0.fv:
                return None
            if u1 is TRUE:
                return bor(init if is_bool(init) else truth(init), mk_any(src, v, u0))
            if u0 is FALSE:
                return band(init if is_bool(init) else truth(init), bnot(mk_any(src, v, bnot(u1))))
            if u1 is u0:
                return mk_ite(nonempty, self._last(src, v, u1), init)
            return None
        if lc not in u.fv:
            r = self._last(src, v, u)
            if init is UNDEF:
                return r
            return mk_ite(nonempty, r, init)
        # append-like
        if u.op in ("seq", "dict", "set"):
            segs = u.args[0]
            if segs and segs[0].op == "splice" and segs[0].args[0] is lc and not any(lc in s.fv for s in segs[1:]):
                base = init
                return mk_seq([splice(base)] + mk_for(src, v, list(segs[1:]), u.op), u.op)
            return self._dict_forms(src, v, lc, init, u)
        # conditional overwrite
        if u.op == "ite":
            c = _cond_not(u, lc)
            if c is not None and lc not in c.fv:
                val = _strip(u, lc)
                if val is not None and lc not in val.fv:
                    has = mk_any(src, v, c)
                    if v not in val.fv:
                        return mk_ite(has, val, init)
                    return mk_ite(has, close_binder("last", src, v, c, val), init)
        # text
        if all(l is lc or l.op == "cat" and l.args[0][0] is lc and not any(lc in y.fv for y in l.args[0][1:]) for l in leaves(u)):
            d = push_ite(lambda l: const("") if l is lc else mk_cat(l.args[0][1:]), u)
            if lc not in d.fv:
                return mk_cat([init, tm.mk_join(mk_for(src, v, [elem(d)]))])
        # accumulation
        if self._numeric(u, lc):
            d = push_ite(lambda l: mk_sub(l, lc), u)
            if lc not in d.fv:
                return mk_add(init, mk_bigsum(src, v, d))
        return None

    def _dict_forms(self, src, v, lc, init, u):
        return None

    def _numeric(self, u, lc):
        for l in leaves(u):
            if l is lc:
                continue
            if l.op == "poly" or is_num(l):
                continue
            return False
        return True

    def _last(self, src, v, val):
        if v not in val.fv:
            return val
        return close_binder("last", src, v, TRUE, val)

    def _fold(self, src, v, pending, items, lc_key):
        """uninterpreted joint fold, one group per connected component"""
        out = {}
        todo = dict(pending)
        while todo:
            key0 = next(iter(todo))
            group = [key0]
            seen = {key0}
            i = 0
            while i < len(group):
                u = items[group[i]][2]
                i += 1
                for x in u.fv:
                    k = lc_key.get(x)
                    if k is not None and k not in seen:
                        seen.add(k)
                        group.append(k)
            # canonical order: the queried key first, then by discovery from it
            for k in group:
                if k in todo:
                    out[k] = self._fold_one(src, v, k, items, lc_key)
                    del todo[k]
        return out

    def _fold_one(self, src, v, key, items, lc_key):
        order = [key]
        i = 0
        while i < len(order):
            u = items[order[i]][2]
            i += 1
            for x in _in_order(u, lc_key):
                k = lc_key[x]
                if k not in order:
                    order.append(k)
        ups = tuple(items[k][2] for k in order)
        inits = tuple(items[k][1] for k in order)
        h = 0
        for u in ups:
            h = max(h, u.h)
        m = {items[k][0]: mk("acc", j, h) for j, k in enumerate(order)}
        ups2 = tuple(subst(u, m) for u in ups)
        r = close_binder("fold", src, v, ups2, inits)
        return atom(mk("truth", r)) if items[key][3] else r


def _keyed_by(u, lc, v):
    """u is lc with entries at v only"""
    if u.op == "ite":
        return all(x is lc or _keyed_by(x, lc, v) for x in u.args[1:])
    if u.op != "dict" or not u.args[0] or u.args[0][0] is not splice(lc):
        return False

    def ok(s):
        return s.op == "ent" and s.args[0] is v or s.op == "cond" and all(ok(x) for x in s.args[1])
    return all(ok(s) for s in u.args[0][1:])


def tm_exit(self, c, kind, val, st):
    from .interp import Exit
    return Exit(c, kind, val, st)


def _in_order(t, keys):
    out, seen = [], set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x in keys:
            out.append(x)
        if not (x.fv & keys.keys()):
            return
        for y in tm.subterms(x.args):
            go(y)
    go(t)
    return out


def _lcof(ph):
    if ph.op == "lc":
        return ph
    return ph.args[0].args[0]   # truth(lc)


def _is_tr(ph):
    return ph.op == "ite"


def _record(u):
    q = None
    for l in leaves(u):
        if l.op == "lc":
            continue
        if l.op != "new":
            return None
        if q is not None and q != l.args[0]:
            return None
        q = l.args[0]
    return q


def _assume(t, a, val):
    """cofactor of a gated term"""
    return subst(t, {}) if False else _cofactor(t, a, val, {})


def _cofactor(t, a, val, memo):
    if t in memo:
        return memo[t]
    if t.op == "ite":
        if t.args[0] is a:
            r = _cofactor(t.args[1] if val else t.args[2], a, val, memo)
        else:
            r = mk_ite(atom(t.args[0]), _cofactor(t.args[1], a, val, memo), _cofactor(t.args[2], a, val, memo))
    elif t.op in ("seq", "dict", "set"):
        r = mk_seq([_cof_seg(s, a, val, memo) for s in t.args[0]], t.op)
    else:
        r = t
    memo[t] = r
    return r


def _cof_seg(s, a, val, memo):
    if s.op == "cond":
        return mk_cond(_cofactor(s.args[0], a, val, memo), tuple(_cof_seg(x, a, val, memo) for x in s.args[1]))
    if s.op == "elem":
        return elem(_cofactor(s.args[0], a, val, memo))
    if s.op == "ent":
        return ent(_cofactor(s.args[0], a, val, memo), _cofactor(s.args[1], a, val, memo))
    return s


def _under(t, c):
    """simplify gated t knowing c"""
    if c is TRUE or t.op != "ite":
        return t
    x = t.args[0]
    if band(c, atom(x)) is FALSE:
        return _under(t.args[2], c)
    if band(c, bnot(atom(x))) is FALSE:
        return _under(t.args[1], c)
    return mk_ite(atom(x), _under(t.args[1], band(c, atom(x))), _under(t.args[2], band(c, bnot(atom(x)))))


def _cond_not(u, lc):
    """condition under which gated u is not lc"""
    if u is lc:
        return FALSE
    if u.op == "ite":
        a, b = _cond_not(u.args[1], lc), _cond_not(u.args[2], lc)
        if a is None or b is None:
            return None
        return mk_ite(atom(u.args[0]), a, b)
    return TRUE


def _strip(u, lc):
    """u with the lc leaves removed (any other leaf will do)"""
    if u is lc:
        return None
    if u.op == "ite":
        a, b = _strip(u.args[1], lc), _strip(u.args[2], lc)
        if a is None:
            return b
        if b is None:
            return a
        return mk_ite(atom(u.args[0]), a, b)
    return u


def _has_new_ref(t, first, memo):
    if t in memo:
        return memo[t]
    memo[t] = False
    if t.op == "ref":
        r = t.args[0] > first
    else:
        r = any(_has_new_ref(x, first, memo) for x in tm.subterms(t.args))
    memo[t] = r
    return r


def _new_refs(t, first):
    out, seen = [], set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "ref" and x.args[0] > first:
            out.append(x)
        for y in tm.subterms(x.args):
            go(y)
    go(t)
    return out


def _has_break(stmts):
    for s in stmts:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if _has_break(s.orelse):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if _has_break(getattr(s, f, []) or []):
                return True
        for h in getattr(s, "handlers", []) or []:
            if _has_break(h.body):
                return True
        for c in getattr(s, "cases", []) or []:
            if _has_break(c.body):
                return True
    return False


def _has_return(stmts):
    return any(isinstance(n, ast.Return) for s in stmts for n in ast.walk(s))
