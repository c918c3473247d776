"""
Three-valued comparison of value graphs.

equal        : identical after normalisation (case split on branch atoms,
               arithmetic and container normal forms)
different    : a minimal differing pair both of whose sides are fully
               interpreted  -> reported
undetermined : the differing pair contains something the analysis does not
               interpret (opaque value, uninterpreted fold, ...) -> not reported
"""
import ast
from .terms import *  # noqa
from . import terms as tm

KINDS_HOOK = [None]     # term -> set of possible class quals (closed world) or None
ENUM_HOOK = [None]      # term -> list of enum member terms or None

_ANYMEMO = {}
SOFT_OPS = {"undef", "setitem", "range3", "cyc", "acc", "each", "upd", "dyn", "enumerate", "modget", "lc", "uop", "rcall"}


# ---------------------------------------------------------------- feasibility
def feasible(c, budget=400):
    """False only if the condition is certainly unsatisfiable"""
    n = [0]

    def go(t, asm):
        if t is FALSE:
            return False
        n[0] += 1
        if n[0] > budget:
            return True
        if not consistent(asm):
            return False
        if t is TRUE:
            return True
        x = t.args[0]
        for val in (True, False):
            a2 = dict(asm)
            a2[x] = val
            if go(t.args[1] if val else t.args[2], a2):
                return True
        return False
    return go(c, {})


def _bound_key(q):
    d = dict(poly_dict(q))
    c = d.pop((), 0)
    return poly_from(d), c


def consistent(asm):
    """cheap theory check on a set of literals"""
    kinds, eqs, neqs, bounds = {}, {}, {}, {}
    nkinds = {}
    for x, val in asm.items():
        if x.op == "kind":
            if val:
                k = kinds.get(x.args[0])
                if k is not None and k != x.args[1]:
                    if not ({k, x.args[1]} <= {"int", "float", "bool"}):
                        return False
                kinds[x.args[0]] = x.args[1]
            else:
                nkinds.setdefault(x.args[0], set()).add(x.args[1])
        elif x.op == "eq":
            a, b = x.args
            if b.op in ("const", "enumv", "cls"):
                if val:
                    if a in eqs and eqs[a] is not b:
                        return False
                    eqs[a] = b
                else:
                    neqs.setdefault(a, set()).add(b)
            if is_num(b):
                _bnd(bounds, a, "eq" if val else "ne", -cval(b))
            elif a.op not in ("const",) and b.op not in ("const", "enumv", "cls"):
                d = mk_sub(a, b)
                if d.op == "poly":
                    s, q = tm.lead(d)
                    _bnd2(bounds, tm._scale(q), "eq" if val else "ne")
        elif x.op in ("gt0", "ge0", "eq0"):
            _bnd2(bounds, x.args[0], {"gt0": "gt", "ge0": "ge", "eq0": "eq"}[x.op] if val else
                  {"gt0": "le", "ge0": "lt", "eq0": "ne"}[x.op])
        elif x.op == "truth" and val:
            if asm.get(mk("kind", x.args[0], "NoneType")):
                return False
        elif x.op == "in" and val:
            c = x.args[1]
            if asm.get(mk("truth", c)) is False:
                return False
        elif x.op == "any" and val:
            if asm.get(mk("truth", x.args[0])) is False:
                return False
            s = x.args[0]
            if s.op == "items" and asm.get(mk("truth", s.args[0])) is False:
                return False
    ins = [x for x, val in asm.items() if x.op == "in" and val]
    negs = {x.args[0] for x, val in asm.items() if x.op == "any" and not val}
    if negs:
        seen = set()
        for x in asm:
            for v in x.fv:
                if v not in seen:
                    seen.add(v)
                    s = tm.FV_SRC.get(v) if v.op == "fv" else None
                    if s is not None and s in negs:
                        ins.append(mk("in", v, s))
    if ins:
        m = None
        for x, val in asm.items():
            if x.op != "any" or val:
                continue
            src = x.args[0]
            for y in ins:
                k, c = y.args
                if src.op == "items" and src.args[0] is c:
                    el = mk("tuple", (k, mk_getitem(c, k)))
                elif src is c:
                    el = k
                else:
                    continue
                if m is None:
                    m = {z: TRUE if v else FALSE for z, v in asm.items()}
                v, body = open_binder(x)
                r = subst(body, {v: el})
                for _ in range(4):
                    r2 = subst(r, m)
                    if r2 is r:
                        break
                    r = r2
                if r is TRUE:
                    return False
    quant = {}
    for x, val in asm.items():
        if x.op == "any":
            quant.setdefault(x.args[0], ([], []))[0 if val else 1].append(x)
    for src, (pos, neg) in quant.items():
        if not pos or not neg:
            continue
        for x in pos:
            k = (x, tuple(sorted(y.id for y in neg)))
            r = _ANYMEMO.get(k)
            if r is None:
                v, c = open_binder(x)
                for y in neg:
                    c = band(c, bnot(open_binder(y, v)[1]))
                r = _ANYMEMO[k] = c is not FALSE
                if len(_ANYMEMO) > 50000:
                    _ANYMEMO.clear()
            if not r:
                return False
    for x, k in kinds.items():
        if k in nkinds.get(x, ()):
            return False
    for x, ks in nkinds.items():
        if x in kinds:
            continue
        h = KINDS_HOOK[0]
        al = h(x) if h else None
        if al and al <= ks:
            return False
    for a, b in eqs.items():
        if b in neqs.get(a, ()):
            return False
        if is_const(b) and asm.get(mk("truth", a)) is not None:
            tv = bool(cval(b)) if b.args[0] != "inf" else True
            if asm[mk("truth", a)] != tv:
                return False
    for a, bs in neqs.items():
        h = ENUM_HOOK[0]
        al = h(a) if h else None
        if al and set(al) <= bs:
            return False
    for q, cons in bounds.items():
        if not _ival(cons, tm.poly_is_int(q)):
            return False
    return True


def _bnd(bounds, a, rel, c):
    bounds.setdefault(a, []).append((rel, c))


def _bnd2(bounds, p, rel):
    q, c = _bound_key(p)
    bounds.setdefault(q, []).append((rel, c))


def _ival(cons, isint):
    """constraints  q + c REL 0 on a single quantity q"""
    lo, lo_s, hi, hi_s = None, False, None, False
    ne = []
    for rel, c in cons:
        k = -c
        if rel == "eq":
            rels = [("ge", k), ("le", k)]
        elif rel == "ne":
            ne.append(k)
            continue
        else:
            rels = [(rel, k)]
        for r, k in rels:
            if r in ("gt", "ge"):
                s = r == "gt"
                if isint and s and isinstance(k, int):
                    k, s = k + 1, False
                if lo is None or k > lo or (k == lo and s):
                    lo, lo_s = k, s
            else:
                s = r == "lt"
                if isint and s and isinstance(k, int):
                    k, s = k - 1, False
                if hi is None or k < hi or (k == hi and s):
                    hi, hi_s = k, s
    if lo is not None and hi is not None:
        if lo > hi or (lo == hi and (lo_s or hi_s)):
            return False
        if lo == hi and lo in ne:
            return False
    return True


# ---------------------------------------------------------------- comparison
CALLABLE = ("clos", "fn", "bm", "partial", "lam")


class Diff:
    __slots__ = ("hard", "a", "b", "where", "asm")

    def __init__(self, hard, a, b, where, asm):
        self.hard = hard
        self.a = a
        self.b = b
        self.where = where
        self.asm = dict(asm)

    def __repr__(self):
        cs = " & ".join(("" if v else "not ") + show(k, 4) for k, v in list(self.asm.items())[:14])
        return f"[{'DIFF' if self.hard else 'undetermined'}] at {'.'.join(map(str, self.where))}: {show(self.a, 6)}  |  {show(self.b, 6)}" + (
            f"   when {cs}" if cs else "")


def is_soft(t):
    if isinstance(t, tuple):
        return any(is_soft(x) for x in t)
    if not isinstance(t, T):
        return False
    return soft_reason(t) is not None


_softmemo = {}


def soft_reason(t):
    r = _softmemo.get(t, 0)
    if r != 0:
        return r
    r = None
    if t.op == "opaque":
        r = "opaque:" + str(t.args[0])
    elif t.op in SOFT_OPS or t.op in tm.SOFT:
        r = t.op
    elif t.op == "call" and isinstance(t.args[0], str) and t.args[0] in ("sorted",) and False:
        r = "sorted"
    else:
        for s in tm.subterms(t.args):
            r = soft_reason(s)
            if r:
                break
    _softmemo[t] = r
    return r


ONE_TO_ONE = {"pathlib.Path", "str", "path/"}


def closures_of(t):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "clos":
            out.add(x)
        todo.extend(tm.subterms(x.args))
    return out


def root_inputs(t, out=None):
    out = set() if out is None else out
    if t.op == "sym":
        out.add(t)
    for x in tm.subterms(t.args):
        root_inputs(x, out)
    return out


def varies(t):
    """takes more than one value as the inputs vary"""
    if t.op == "sym":
        return True
    if t.op == "attr":
        return isinstance(t.args[0], T) and varies(t.args[0])
    if t.op == "call" and t.args[0] in ONE_TO_ONE:
        return any(varies(x) for x in t.args[1] if isinstance(x, T))
    return False


def unrelated(a, b, asm):
    """one side varies with an input that the other does not read, and no assumption ties them"""
    if t_size(a) > 400 or t_size(b) > 400:
        return False
    ia, ib = root_inputs(a), root_inputs(b)
    for x, o in ((a, ib), (b, ia)):
        # an entry of a table that the other side does not read, of which only the keys are known
        if x.op == "getitem" and x.args[0].op == "sym" and x.args[0] not in o:
            t = x.args[0]
            if all(k.op == "in" and k.args[1] is t and t not in root_inputs(k.args[0]) for k in asm if t in root_inputs(k)):
                return True
    if ia & ib or not (varies(a) or varies(b)):
        return False
    for x in asm:
        if x.op in ("truth", "kind"):
            continue
        ix = root_inputs(x)
        if ix & ia and ix & ib or x.op == "eq" and ix & (ia | ib):
            return False
    return True


def t_size(t):
    return t.size


def quantities(t):
    if t.op == "poly":
        return {x for m in poly_dict(t) for x, _ in m}
    return set() if t.op == "const" else {t}


# library functions of one family give different results
FAMILIES = [
    {"min", "max", "sum", "mean", "median", "prod", "any", "all", "count", "std"},
    {"minimum", "maximum", "add", "subtract", "multiply", "divide"},
    {"ceil", "floor", "round", "rint", "trunc", "abs"},
    {"argmin", "argmax"}, {"cumsum", "cumprod", "diff", "cummax", "cummin"}, {"head", "tail"}, {"sin", "cos"},
    {"Minimize", "Maximize", "SetMinimization", "SetMaximization"}, {"SetLb", "SetUb"}, {"lb", "ub"}, {"NumVar", "IntVar", "BoolVar"},
    {"startswith", "endswith"}, {"upper", "lower"}, {"removesuffix", "removeprefix", "lstrip", "rstrip", "strip"},
    {"exists", "is_file", "is_dir"}, {"get_wind_matrix", "get_solar_matrix", "get_load_matrix", "get_series_matrix", "get_prepro_modulation_matrix"},
    {"get_links", "get_areas", "get_thermals", "get_renewables", "get_st_storages", "get_binding_constraints"}, {"isnan", "isinf", "isfinite"},
    {"append", "remove", "insert"},
    {"expr", "shift_expr", "right_expr", "atom", "shift", "portFieldExpr", "IDENTIFIER", "NUMBER", "COMPARISON"},
]


# f(x) is not x for some x
LOSSY = {"round", "abs", "floor", "ceil", "trunc", "rint", "fillna", "dropna", "clip", "head", "tail", "drop_duplicates", "sort_values", "interpolate",
         "minimum", "maximum", "ffill", "bfill", "unique", "nan_to_num", "lower", "upper", "strip", "lstrip", "rstrip", "casefold", "capitalize", "title"}


def cut_short(x, o, asm):
    """part of a sequence of any length, between fixed positions, against the whole"""
    return x.op == "slice" and x.args[0] is o and o.op in ("sym", "attr", "getitem", "xcall") and not is_soft(o) \
        and all(isinstance(k, T) and k.op == "const" for k in x.args[1:3]) and x.args[3] is NONE \
        and not (x.args[1] in (NONE, ZERO) and x.args[2] is NONE) \
        and not any(_occurs(o, k) for k in asm if k.op != "kind")


class Comparer:
    def __init__(self, interp, max_splits=3000, denote=False):
        self.denote = denote
        self.I = interp
        self.splits = 0
        self.max_splits = max_splits
        self.leaves = 0
        self.memo = {}
        self.rmemo = {}

    # -------------------------------------------------- entry
    def diff(self, a, b, where=(), asm=None):
        asm = asm or {}
        if a is b:
            self.leaves += 1
            return []
        k = (a.id, b.id, tuple(sorted((x.id, v) for x, v in asm.items())))
        r = self.memo.get(k)
        if r is not None:
            return r
        r = self._diff(a, b, where, asm)
        self.memo[k] = r
        return r

    def _diff(self, a, b, where, asm):
        a, b = self._unify_any(a, b, where, asm)
        if a is b:
            self.leaves += 1
            return []
        # conditions rebuilt after their atom was decided
        known = {y: TRUE if asm[y] else FALSE for y in self.atoms(a) | self.atoms(b) if y in asm}
        if known:
            for y in list(known):
                if known[y] is TRUE and y.op == "eq":
                    self.orient(y, known)
            return self.diff(subst(a, known), subst(b, known), where, asm)
        x = self.pick(a, b)
        if x is not None:
            self.splits += 1
            if self.splits > self.max_splits:
                return [Diff(False, a, b, where + ("split-limit",), asm)]
            out = []
            for val in (True, False):
                asm2 = dict(asm)
                asm2[x] = val
                if not consistent(asm2):
                    continue
                m = {x: TRUE if val else FALSE}
                if val and x.op == "eq":
                    self.orient(x, m)
                if val and x.op == "kind" and x.args[1] == "NoneType":
                    m[x.args[0]] = NONE
                if val and x.op == "kind":
                    for y in self.atoms(a) | self.atoms(b):
                        if y.op == "kind" and y.args[0] is x.args[0] and y is not x:
                            if not ({y.args[1], x.args[1]} <= {"int", "float", "bool"}):
                                m[y] = FALSE
                self.refine(x, val, m)
                self.refine_ranges(a, b, m)
                a2, b2 = subst(a, m), subst(b, m)
                out.extend(self.diff(a2, b2, where, asm2))
                if sum(1 for d in out if d.hard) > 3:
                    break
            return out
        m = {}
        for y, v in asm.items():
            if v and y.op == "eq":
                self.orient(y, m)
        if m:
            a2, b2 = subst(a, m), subst(b, m)
            if (a2 is not a or b2 is not b) and len(where) < 200:
                return self.diff(a2, b2, where, asm)
        if any(y.op in ("gt0", "ge0") for y in asm) and a.op not in ("const", "seq", "dict", "new", "tuple", "set") and b.op not in ("seq", "dict", "new", "tuple", "set"):
            # order facts that leave no room for a difference
            d = mk_sub(a, b)
            if d.op in ("poly", "add", "call", "sym", "field", "mcall", "xcall") or poly_dict(d):
                hi, lo = mk_gt0(d), mk_gt0(mk_neg(d))
                if all(self.refuted(asm, z) for z in (hi, lo)):
                    self.leaves += 1
                    return []
        return self.cmp(a, b, where, asm)

    @staticmethod
    def refuted(asm, z):
        if z is FALSE:
            return True
        if z is TRUE:
            return False
        asm2 = dict(asm)
        val = True
        if z.op == "ite" and {z.args[1], z.args[2]} == {FALSE, TRUE}:
            z, val = z.args[0], z.args[1] is TRUE
        if z.op not in ("gt0", "ge0"):
            return False
        if z in asm2:
            return asm2[z] != val
        asm2[z] = val
        return not consistent(asm2)

    def orient(self, x, m):
        """equation -> rewriting of the larger side by the smaller one"""
        p, q = x.args
        if q.op in ("const", "enumv", "cls"):
            m[p] = q
        elif p.op in ("const", "enumv", "cls"):
            m[q] = p
        elif (p.size, p.id) < (q.size, q.id) and not _occurs(q, p):
            m[q] = p
        elif not _occurs(p, q):
            m[p] = q

    def refine_ranges(self, a, b, m):
        for r in self.ranges(a) | self.ranges(b):
            if subst(mk_gt(r.args[0], ZERO), m) is FALSE:
                m[r] = mk("seq", ())

    def ranges(self, t):
        r = self.rmemo.get(t)
        if r is None:
            r = frozenset()
            for s in tm.subterms(t.args):
                r = r | self.ranges(s)
            if t.op == "range" and not any(f.op == "bv" for f in t.fv):
                r = r | {t}
            self.rmemo[t] = r
        return r

    def refine(self, x, val, m):
        """what a decided branch atom says about the value it tests"""
        if x.op == "truth" and not val:
            t = x.args[0]
            k = self.I.container_kind(t)
            if k and t.op not in ("const",):
                m[t] = mk({"list": "seq"}.get(k, k), ())
        if x.op == "eq0" and val:
            sl = tm._single_len(x.args[0])
            if sl is not None and isinstance(sl[1], int) and -3 <= sl[1] < 0:
                t = sl[0].args[0]
                if self.I.container_kind(t) == "list":
                    et = self.I.elem_type(t)
                    els = []
                    for i in range(-sl[1]):
                        e = mk_nth(t, i)
                        sy = sym(show(e, 3), et)
                        m[e] = sy
                        els.append(elem(sy))
                    m[t] = mk("seq", tuple(els))
        if x.op == "kind" and val and self.denote:
            from .denote import NODES, denote_node
            t, q = x.args
            if q in NODES and t.op != "new":
                ci = self.I.class_info(q)
                fs = []
                for n in self.I.instance_fields(ci):
                    a = mk_attr(t, n)
                    sy = sym(show(a, 3), self.I.field_type(ci, n))
                    m[a] = sy
                    fs.append((n, sy))
                m[t] = denote_node(mk("new", q, tuple(fs)))

    # -------------------------------------------------- atoms
    def atoms(self, t):
        out = set()
        _atoms(t, out, set())
        return out

    def pick(self, a, b):
        xs = self.atoms(a) | self.atoms(b)
        if not xs:
            return None
        pri = {"kind": 0, "eq": 1, "truth": 2}
        return min(xs, key=lambda x: (pri.get(x.op, 3), x.size, x.id))

    def _unify_any(self, a, b, where, asm):
        """make equivalent quantified conditions syntactically equal"""
        xa = [x for x in self.atoms(a) if x.op == "any"]
        xb = [x for x in self.atoms(b) if x.op == "any"]
        if not xa or not xb:
            return a, b
        m = {}
        sa, sb = set(xa), set(xb)
        for y in xb:
            if y in sa:
                continue
            for x in xa:
                if x in sb or x in m.values():
                    continue
                if x.args[0] is not y.args[0]:
                    continue
                v, c1 = open_binder(x)
                _, c2 = open_binder(y, v)
                if not self.diff(c1, c2, where, asm):
                    m[y] = x
                    break
        if m:
            b = subst(b, m)
        return a, b

    # -------------------------------------------------- structural
    def mismatch(self, a, b, where, asm):
        hard = not is_soft(a) and not is_soft(b) or cut_short(a, b, asm) or cut_short(b, a, asm)
        for x in asm:
            if is_soft(x):
                hard = False
        if hard and self.unsure(a, b, asm):
            hard = False
        if hard:
            ca, cb = closures_of(a), closures_of(b)
            if ca - cb and cb - ca:
                hard = False        # different functions may do the same
        return [Diff(hard, a, b, where, asm)]

    def lossy(self, x, o):
        if x.op == o.op == "attr" and x.args[1:] == o.args[1:] and x.args[1] in ("values", "T", "array"):
            return self.lossy(x.args[0], o.args[0])
        if x.op == o.op == "xcall" and x.args[0] == o.args[0] and x.args[0] in ("to_numpy", "tolist", "to_list") and x.args[1][1:] == o.args[1][1:]:
            return self.lossy(x.args[1][0], o.args[1][0])
        if x.op == "call" and x.args[0] == "path/" and len(x.args[1]) == 2 and not is_soft(x) \
                and (x.args[1][1] is o or o.op == "call" and o.args[0] == "pathlib.Path" and o.args[1] == (x.args[1][1],)):
            return True         # below a directory
        if x.op == "call" and x.args[0] == "int" and len(x.args[1]) == 1 and x.args[1][0] is o and self.I.type_of(o) == ("prim", "float"):
            return True
        return x.op in ("call", "xcall") and isinstance(x.args[0], str) and x.args[0].split(".")[-1] in LOSSY and x.args[1] and x.args[1][0] is o \
            and self.I.type_of(o) not in (("prim", "int"), ("prim", "bool"))

    def unsure(self, a, b, asm=()):
        """pairs of interpreted heads that may nevertheless be equal"""
        if cut_short(a, b, asm) or cut_short(b, a, asm):
            return False
        for x, o in ((a, b), (b, a)):
            if self.lossy(x, o):
                return False      # a value against what is left of it
        for x, o in ((a, b), (b, a)):
            # any value of a function given as input, against something that does not mention it
            if x.op == "call" and x.args[0] == "dyn" and x.args[1][0].op == "sym":
                tied = [k for k in asm if k.op not in ("truth", "kind") and _occurs(x, k)]
                if o.op == "mod_" and o.args[0] is x and not tied:
                    return False
                if o.op in ("poly", "const", "attr", "sym") and not _occurs(x, o) and len(tied) <= 1 \
                        and all(k.op in ("gt0", "ge0") and k.args[0].op == "poly" and all(sum(e for _, e in m) <= 1 for m in poly_dict(k.args[0])) for k in tied):
                    return False
        for x, o in ((a, b), (b, a)):
            # the value an expression has against the infinity of the solver: no expression is always infinite
            if x.op == "call" and isinstance(x.args[0], str) and x.args[0].startswith("andromede.") and not any(_occurs(x, k) for k in asm if k.op not in ("gt0", "ge0", "not")):
                qs = quantities(o)
                if qs and all(q.op == "xcall" and q.args[0] == "infinity" for q in qs):
                    return False
        if "poly" in (a.op, b.op):
            both = [quantities(t) for t in (a, b)]
            d = mk_sub(a, b)
            if d.op in ("poly", "const") and d is not ZERO and all(x in both[0] and x in both[1] for x in quantities(d)):
                return False      # the same quantities combined differently
            # a function taken as given may be any function, in particular a constant one
            given = {x: mk("sym", "given:" + x.args[0]) for x in quantities(d)
                     if x.op == "call" and isinstance(x.args[0], str) and x.args[0].startswith("andromede.")}
            if given:
                c = subst(d, given)
                fixed = set(given.values())
                if c is not ZERO and all(x in fixed or x in both[0] and x in both[1] for x in quantities(c)) \
                        and all({x.args[0] for x in given} <= {y.args[0] for y in both[i] if y.op == "call"} for i in (0, 1)):
                    return False
        if unrelated(a, b, asm):
            return False
        if a.op in ("call", "xcall") and b.op in ("call", "xcall") and a.args[0] != b.args[0] and isinstance(a.args[0], str) and isinstance(b.args[0], str):
            # different library functions: only those known to differ count
            p, q = a.args[0], b.args[0]
            if not p.startswith("andromede.") and not q.startswith("andromede."):
                p, q = p.split(".")[-1], q.split(".")[-1]
                return not any(p in f and q in f and p != q for f in FAMILIES)
        for x, o in ((a, b), (b, a)):
            if x.op == "xcall" and o.op not in ("const", "attr", "sym", "new", "enumv", "xcall", "absent"):
                return True
        ea, eb = a.op == "call", b.op == "call"
        if ea != eb:
            c = a if ea else b
            o = b if ea else a
            n = c.args[0]
            # library function the analysis has no rule for, against something else
            if isinstance(n, str) and not n.startswith("cut:") and o.op not in ("const", "attr", "sym", "new", "enumv"):
                return True
        for x, o in ((a, b), (b, a)):
            # zip(range(n), xs) against xs: the same elements when n is the length of xs
            if x.op == "zip" and (o in x.args[0] or o.op != "zip" and any("range" in (y.op, *((z.args[0].op for z in y.args[0] if z.op == "splice") if y.op == "seq" else ())) for y in x.args[0])):
                return True
        for x in (a, b):
            if x.op in ("zip", "range", "idx", "getitem", "nth", "keys", "items") and (a.op != b.op):
                o = b if x is a else a
                if o.op in ("zip", "range", "idx", "getitem", "nth", "keys", "items", "slice", "call"):
                    return True
        return False

    def cmp(self, a, b, where, asm):
        if a.op in CALLABLE and b.op in CALLABLE and "clos" in (a.op, b.op):
            fa, fb = self.I.closures.get(a), self.I.closures.get(b)
            if fa is not None and fb is not None and (fa.node is fb.node or fa.module is fb.module and ast.dump(fa.node) == ast.dump(fb.node)):
                self.leaves += 1
                return []
            return [Diff(False, a, b, where, asm)]      # functions are compared where they are applied
        if a is b:
            self.leaves += 1
            return []
        # eta under known class
        if a.op == "new" and b.op != "new":
            b2 = self.eta(b, a, asm)
            if b2 is not None:
                b = b2
        elif b.op == "new" and a.op != "new":
            a2 = self.eta(a, b, asm)
            if a2 is not None:
                a = a2
        if a.op == "poly" or b.op == "poly" or "bigsum" in (a.op, b.op):
            return self.cmp_poly(a, b, where, asm)
        return self.cmp_struct(a, b, where, asm)

    def cmp_struct(self, a, b, where, asm):
        if a.op in ("seq", "dict", "set") and b.op == a.op:
            return self.cmp_segs(list(a.args[0]), list(b.args[0]), a.op, where, asm)
        if "set" in (a.op, b.op) and a.op != b.op:
            o = b if a.op == "set" else a
            tt = self.I.type_of(o)
            if tt and tt[0] == "list" and o.op in ("sym", "attr", "field", "getitem", "fv", "bv", "nth"):
                return [Diff(True, a, b, where, asm)]     # the list may hold an element twice
        if a.op in ("seq", "dict", "set") and b.op not in ("seq", "dict", "set", "const", "tuple"):
            return self.cmp_segs(list(a.args[0]), [splice(b)], a.op, where, asm)
        if b.op in ("seq", "dict", "set") and a.op not in ("seq", "dict", "set", "const", "tuple"):
            return self.cmp_segs([splice(a)], list(b.args[0]), b.op, where, asm)
        if {a.op, b.op} == {"seq", "tuple"}:
            sa = list(a.args[0]) if a.op == "seq" else [elem(x) for x in a.args[0]]
            sb = list(b.args[0]) if b.op == "seq" else [elem(x) for x in b.args[0]]
            return self.cmp_segs(sa, sb, "seq", where, asm)
        if a.op == "new" and b.op == "new" and a.args[0] == b.args[0]:
            fa, fb = dict(a.args[1]), dict(b.args[1])
            out = []
            for n in list(fa) + [n for n in fb if n not in fa]:
                if n not in fa or n not in fb:
                    out.extend(self.mismatch(fa.get(n, NONE), fb.get(n, NONE), where + (n,), asm))
                    continue
                out.extend(self.diff(fa[n], fb[n], where + (n,), asm))
            return out
        if a.op == b.op and a.op in tm.BINDERS:
            d = self.diff(a.args[0], b.args[0], where + ("src",), asm)
            if d:
                return d
            oa = open_binder(a)
            ob = open_binder(b, oa[0])
            return self.cmp_args(oa[1:], ob[1:], a, b, where, asm)
        if a.op == b.op and a.op not in ("const", "sym", "opaque", "ref", "fv", "lc", "bv", "enumv", "cls", "fn"):
            return self.cmp_args(a.args, b.args, a, b, where + (a.op,), asm)
        return self.mismatch(a, b, where, asm)

    def cmp_args(self, xs, ys, a, b, where, asm):
        if len(xs) != len(ys):
            return self.mismatch(a, b, where, asm)
        out = []
        for i, (x, y) in enumerate(zip(xs, ys)):
            if isinstance(x, T) and isinstance(y, T):
                out.extend(self.diff(x, y, where + (i,), asm))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                out.extend(self.cmp_args(x, y, a, b, where + (i,), asm))
            elif x != y:
                return self.mismatch(a, b, where + (i,), asm)
        if out and (is_soft_head(a) or is_soft_head(b)) and not (a.op == b.op == "lam" and len(where) == 3 and where[0] == "heap"):
            for d in out:
                d.hard = False
        return out

    def eta(self, t, new, asm):
        q = new.args[0]
        if asm.get(mk("kind", t, q)) or self.exact(t, q):
            r = mk("new", q, tuple((n, self.I.boolify(mk_attr(t, n))) for n, _ in new.args[1]))
            return subst(r, {x: TRUE if v else FALSE for x, v in asm.items()})
        return None

    def exact(self, t, q):
        tt = self.I.type_of(t)
        if tt == ("c", q):
            ci = self.I.class_info(q)
            return ci is not None and not self.I.P.subclasses(q)
        return False

    def cmp_poly(self, a, b, where, asm):
        d = mk_sub(a, b)
        if d is ZERO:
            self.leaves += 1
            return []
        if d.op == "ite":
            return self.diff(d, ZERO, where, asm)
        if d.op != "poly":
            # numbers of unknown kind
            return self.mismatch(a, b, where, asm)
        # try to combine sums over the same source
        items = dict(poly_dict(d))
        sums = {}
        for m, c in list(items.items()):
            bs = [x for x, e in m if x.op == "bigsum" and e == 1]
            if len(bs) == 1:
                sums.setdefault(bs[0].args[0], []).append((m, c, bs[0]))
        combined = ZERO
        changed = False
        out = []
        for src, ts in sums.items():
            if len(ts) < 2:
                continue
            changed = True
            v = elem_var(src)
            body = ZERO
            for m, c, bsum in ts:
                rest = tuple((x, e) for x, e in m if x is not bsum)
                _, bb = open_binder(bsum, v)
                body = mk_add(body, mk_mul(poly_from({rest: c}), bb))
                del items[m]
            out.extend(self.diff(body, ZERO, where + ("sum",), asm))
        if changed:
            rest = poly_from(items)
            if rest is not ZERO:
                out.extend(self.diff(rest, ZERO, where, asm))
            return out
        ms = list(items.items())
        if len(ms) >= 2:
            both = [quantities(t) for t in (a, b)]
            if all(x in both[0] and x in both[1] for m, _ in ms for x, _ in m):
                return self.mismatch(a, b, where, asm)      # the same quantities combined differently
        # monomials differing in one uninterpreted factor: compare the factors
        if len(ms) == 2 and ms[0][1] == -ms[1][1]:
            (m1, c1), (m2, c2) = ms
            f1 = [x for x in m1 if x not in m2]
            f2 = [x for x in m2 if x not in m1]
            if len(f1) == 1 and len(f2) == 1 and f1[0][1] == f2[0][1]:
                x, y = f1[0][0], f2[0][0]
                if x.op == y.op:
                    return self.cmp_struct(x, y, where, asm)
        return self.mismatch(a, b, where, asm)

    def cmp_segs(self, sa, sb, kind, where, asm):
        # drop common prefix / suffix
        while sa and sb and sa[0] is sb[0]:
            sa, sb = sa[1:], sb[1:]
        while sa and sb and sa[-1] is sb[-1]:
            sa, sb = sa[:-1], sb[:-1]
        if not sa and not sb:
            self.leaves += 1
            return []
        if kind in ("set",) or (kind == "dict" and _distinct_keys(sa) and _distinct_keys(sb)):
            return self.cmp_multi(sa, sb, kind, where, asm)
        if len(sa) != len(sb):
            # fuse neighbouring loops / align greedily
            out = self.align(sa, sb, kind, where, asm)
            return out
        out = []
        for i, (x, y) in enumerate(zip(sa, sb)):
            out.extend(self.cmp_seg(x, y, kind, where + (i,), asm))
        return out

    def align(self, sa, sb, kind, where, asm):
        # match segments that are equivalent, report the others
        used = set()
        out = []
        for x in sa:
            hit = None
            for j, y in enumerate(sb):
                if j in used:
                    continue
                if x is y or not self.cmp_seg(x, y, kind, where, asm):
                    hit = j
                    break
            if hit is None:
                out.extend(self.mismatch(x, mk("absent"), where, asm))
            else:
                used.add(hit)
        for j, y in enumerate(sb):
            if j not in used:
                out.extend(self.mismatch(mk("absent"), y, where, asm))
        return self.soften(out)

    def soften(self, out):
        """an element may be hidden in an undetermined segment of the other side"""
        if any(is_soft(d.a) or is_soft(d.b) for d in out):
            for d in out:
                d.hard = False
        return out

    def cmp_multi(self, sa, sb, kind, where, asm):
        sa, sb = list(sa), list(sb)
        ra = []
        for x in sa:
            if x in sb:
                sb.remove(x)
            else:
                ra.append(x)
        rest = []
        for x in ra:
            hit = None
            for y in sb:
                if x.op == y.op and not self.cmp_seg(x, y, kind, where, asm):
                    hit = y
                    break
            if hit is not None:
                sb.remove(hit)
            else:
                rest.append(x)
        if not rest and not sb:
            return []
        if len(rest) == 1 and len(sb) == 1:
            return self.cmp_seg(rest[0], sb[0], kind, where, asm)
        # pair entries having the same key / the same called function
        out = []
        for x in list(rest):
            for y in list(sb):
                if _seg_head(x) == _seg_head(y):
                    d = self.cmp_seg(x, y, kind, where, asm)
                    out.extend(d)
                    rest.remove(x)
                    sb.remove(y)
                    break
        for x in rest:
            out.extend(self.mismatch(x, mk("absent"), where, asm))
        for y in sb:
            out.extend(self.mismatch(mk("absent"), y, where, asm))
        return self.soften(out)

    def cmp_seg(self, x, y, kind, where, asm):
        if x is y:
            return []
        if x.op == y.op == "elem":
            return self.diff(x.args[0], y.args[0], where, asm)
        if x.op == y.op == "ent":
            d = self.diff(x.args[0], y.args[0], where + ("key",), asm)
            return d + self.diff(x.args[1], y.args[1], where + ("val",), asm)
        if x.op == y.op == "splice":
            p, q = x.args[0], y.args[0]
            if p.op in ("seq", "dict", "set") and q.op in ("seq", "dict", "set"):
                return self.mismatch(x, y, where, asm)
            return self.diff(p, q, where, asm)
        if x.op == y.op == "for":
            p, q = x.args[0], y.args[0]
            if p.op == q.op == "zip" and len(p.args[0]) == len(q.args[0]):
                w = [(u, t) for u, t in zip(p.args[0], q.args[0]) if u is not t]
                if len(w) == 1 and any(self.lossy(*z) for z in (w[0], w[0][::-1])) and not any(is_soft(z) for z in asm):
                    return [Diff(True, w[0][0], w[0][1], where + ("over",), asm)]
            d = self.diff(x.args[0], y.args[0], where + ("over",), asm)
            if d:
                return d
            v, s1 = open_binder(x)
            _, s2 = open_binder(y, v)
            k = "dict" if kind == "dict" else kind
            return self.diff(mk(k, tuple(s1)), mk(k, tuple(s2)), where + ("each",), asm)
        return self.mismatch(x, y, where, asm)


def is_soft_head(t):
    return t.op in SOFT_OPS or t.op in tm.SOFT


def _seg_head(s):
    if s.op == "elem":
        x = s.args[0]
        return ("elem", x.op, x.args[0] if x.args and isinstance(x.args[0], str) else None,
                x.args[1] if len(x.args) > 1 and isinstance(x.args[1], str) else None)
    if s.op == "ent":
        return ("ent", s.args[0].id)
    if s.op == "for":
        v, segs = open_binder(s)
        return ("for", s.args[0].id, tuple(_seg_head(x) for x in segs if x.op in ("elem",)))
    return (s.op,)


def _distinct_keys(segs):
    return all(s.op == "ent" and s.args[0].op in ("const", "enumv", "cls") for s in segs)


def _occurs(x, t):
    seen = set()

    def go(y):
        if y is x:
            return True
        if y in seen:
            return False
        seen.add(y)
        return any(go(z) for z in tm.subterms(y.args))
    return go(t)


def _atoms(t, out, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == "ite":
        x = t.args[0]
        if not any(f.op == "bv" for f in x.fv):
            out.add(x)
        _atoms(t.args[1], out, seen)
        _atoms(t.args[2], out, seen)
        _atoms(x, out, seen)
        return
    for s in tm.subterms(t.args):
        _atoms(s, out, seen)
