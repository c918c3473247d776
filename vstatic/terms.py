"""
Hash-consed value-graph terms with smart constructors.

A term denotes the value a program expression computes.  Two program texts that
compute the same value graph after normalisation denote the same value.
Conditions are ordered decision diagrams over *atoms*; arithmetic is kept in
polynomial normal form; sequences/dicts are kept as lists of segments
(element / splice / conditional / for-each), so a loop that appends, an
extend, and a comprehension have one form.

Nothing here executes repository code and no solver is involved.
"""
from fractions import Fraction


class T:
    __slots__ = ("op", "args", "id", "fv", "h", "size", "flags")

    def __repr__(self):
        return show(self)


_table = {}
_counter = [0]


class Limit(Exception):
    """A size limit was hit: the obligation is undetermined."""


MAX_TERMS = 1_500_000


def _key(a):
    if isinstance(a, T):
        return ("T", a.id)
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _counter[0]
        _counter[0] += 1
        if _counter[0] > MAX_TERMS:
            raise Limit("term table")
        # fv: fresh bound variables / loop placeholders occurring free
        fv = frozenset()
        h = 0
        size = 1
        flags = 0
        for s in subterms(args):
            if s.fv:
                fv = fv | s.fv
            if s.h > h:
                h = s.h
            size += s.size
            flags |= s.flags
        if op in ("fv", "lc", "bv"):
            fv = fv | {t}
        if op in BINDERS:
            hb = 0
            for s in subterms(args[1:]):
                if s.h > hb:
                    hb = s.h
            h = max(h, hb + 1)
            bound = mk("bv", hb + 1)
            rest = frozenset()
            for s in subterms(args[1:]):
                rest = rest | s.fv
            fv = (rest - {bound}) | (args[0].fv if isinstance(args[0], T) else frozenset())
            t.id = _counter[0]
            _counter[0] += 1
        if op == "opaque":
            flags |= 1
        if op in SOFT:
            flags |= 2
        if op == "ref":
            flags |= 4
        t.fv = fv
        t.h = h
        t.size = size
        t.flags = flags
        _table[k] = t
    return t


# ops which bind the canonical variable bv(h) in args[1:]; args[0] = source
BINDERS = {"for", "bigsum", "any", "first", "last", "fold", "lam", "bigcat"}
SOFT = {"fold", "first", "last", "lam", "slice", "bigcat"}


def subterms(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from subterms(a)


# --------------------------------------------------------------------------
# basic constructors


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return mk("const", type(v).__name__, v)
    if isinstance(v, (int, Fraction)):
        if isinstance(v, Fraction) and v.denominator == 1:
            v = v.numerator
        return mk("const", "num", v)
    if isinstance(v, float):
        if v != v:
            return mk("const", "nan", "nan")
        if v in (float("inf"), float("-inf")):
            return mk("const", "inf", "inf" if v > 0 else "-inf")
        if v == int(v) and abs(v) < 1e15:
            return mk("const", "num", int(v))
        return mk("const", "num", Fraction(v).limit_denominator(10**18) if 0 else Fraction(repr(v)))
    if v is Ellipsis:
        return mk("const", "ellipsis", "...")
    if isinstance(v, bytes):
        return mk("const", "bytes", v)
    raise TypeError(v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)

_fresh = [0]


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


def opaque(tag):
    return mk("opaque", tag, fresh_id())


def sym(name, typ=None):
    return mk("sym", name, typ)


def fvar(typ=None, src=None):
    """a fresh bound variable (element of an iterated source)"""
    return mk("fv", fresh_id(), typ)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def is_num(t):
    return t.op == "const" and t.args[0] == "num"


# --------------------------------------------------------------------------
# substitution


VAROPS = ("fv", "lc", "bv")


class _Map(dict):
    """substitution; remembers whether only variables are replaced"""

    def __init__(self, d):
        super().__init__(d)
        self.vars = all(k.op in VAROPS for k in d)
        self.keyset = frozenset(d)


def subst(t, mapping, memo=None):
    """mapping: dict T->T (keys: any terms); rebuilds through smart constructors"""
    if memo is None:
        memo = {}
    return _subst(t, _Map(mapping), memo)


_steps = [0]
MAX_STEPS = 40_000_000


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    if m.vars and not (t.fv & m.keyset):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    _steps[0] += 1
    if _steps[0] > MAX_STEPS:
        raise Limit("substitution steps")
    if t.op in BINDERS:
        src = _subst_arg(t.args[0], m, memo)
        opened = open_binder(t)
        v, rest = opened[0], opened[1:]
        rest2 = tuple(_subst_arg(x, m, memo) for x in rest)
        if src is t.args[0] and all(x is y or x == y for x, y in zip(rest, rest2)):
            r = t
        else:
            if src is not t.args[0]:
                FV_SRC[v] = src
            r = reclose(t.op, src, v, *rest2)
        memo[t] = r
        return r
    changed = False
    nargs = []
    for a in t.args:
        na = _subst_arg(a, m, memo)
        if na is not a:
            changed = True
        nargs.append(na)
    if changed:
        r = rebuild(t.op, tuple(nargs))
    else:
        r = t
    memo[t] = r
    return r


def _subst_arg(a, m, memo):
    if isinstance(a, T):
        return _subst(a, m, memo)
    if isinstance(a, tuple):
        res = tuple(_subst_arg(x, m, memo) for x in a)
        for x, y in zip(a, res):
            if x is not y:
                return res
        return a
    return a


def rebuild(op, args):
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


# --------------------------------------------------------------------------
# conditions: ordered decision diagrams.  A boolean term is TRUE, FALSE or
# ite(atom, hi, lo).  "atom" itself as a value is represented ite(atom,TRUE,FALSE)

ATOM_OPS = {
    "kind", "eq", "gt0", "ge0", "eq0", "truth", "in", "any", "same", "batom", "issub", "raises",
}


def atom(t):
    return mk("ite", t, TRUE, FALSE)


def mk_ite(c, a, b):
    """c boolean term, a/b arbitrary"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != "ite":
        c = truth(c)
        return mk_ite(c, a, b)
    return _ite(c, a, b, {})


def _top(*ts):
    best = None
    for t in ts:
        if t.op == "ite":
            if best is None or t.args[0].id < best.id:
                best = t.args[0]
    return best


def _cof(t, x, v):
    if t.op == "ite" and t.args[0] is x:
        return t.args[1] if v else t.args[2]
    return t


def _ite(c, a, b, memo):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = memo.get(k)
    if r is not None:
        return r
    if len(memo) > 20000:
        raise Limit("ite")
    x = _top(c, a, b)
    hi = _ite(_cof(c, x, 1), _cof(a, x, 1), _cof(b, x, 1), memo)
    lo = _ite(_cof(c, x, 0), _cof(a, x, 0), _cof(b, x, 0), memo)
    r = hi if hi is lo else mk("ite", x, hi, lo)
    memo[k] = r
    return r


def rebuild_ite(x, a, b):
    """x: atom term (maybe rewritten into TRUE/FALSE/boolean)"""
    if x is TRUE:
        return a
    if x is FALSE:
        return b
    if x.op == "ite":
        return mk_ite(x, a, b)
    if x.op in ATOM_OPS:
        return mk_ite(atom(x), a, b)
    return mk_ite(truth(x), a, b)


def bnot(c):
    return mk_ite(c, FALSE, TRUE)


def band(a, b):
    return mk_ite(a, b, FALSE)


def bor(a, b):
    return mk_ite(a, TRUE, b)


def is_bool(t):
    if t is TRUE or t is FALSE:
        return True
    return t.op == "ite" and is_bool_leaf(t)


_boolmemo = {}


def is_bool_leaf(t):
    if t is TRUE or t is FALSE:
        return True
    if t.op != "ite":
        return False
    r = _boolmemo.get(t)
    if r is None:
        r = is_bool_leaf(t.args[1]) and is_bool_leaf(t.args[2])
        _boolmemo[t] = r
    return r


def push_ite(f, t):
    """apply f to the leaves of the decision diagram t"""
    if t.op == "ite":
        return mk_ite(atom(t.args[0]), push_ite(f, t.args[1]), push_ite(f, t.args[2]))
    return f(t)


def leaves(t, out=None):
    if out is None:
        out = []
    if t.op == "ite":
        leaves(t.args[1], out)
        leaves(t.args[2], out)
    else:
        out.append(t)
    return out


# --------------------------------------------------------------------------
# truth, equality, comparison

TYPE_HOOK = {"truth": None, "eq": None, "is_int": None}


def truth(t):
    """python truthiness as a boolean term"""
    if t.op == "ite":
        return push_ite(truth, t)
    if t.op == "const":
        k, v = t.args
        if k == "num":
            return TRUE if v != 0 else FALSE
        if k in ("inf", "nan"):
            return TRUE
        return TRUE if v else FALSE
    if t.op in ATOM_OPS:
        return atom(t)
    if t.op == "len":
        return truth_len(t)
    if t.op in ("new", "cls", "fn", "clos", "bm", "ext", "mod", "lam"):
        return TRUE
    if t.op == "tuple":
        return TRUE if t.args[0] else FALSE
    if t.op in ("seq", "dict", "set"):
        return seq_nonempty(t)
    if t.op == "cat":
        for p in t.args[0]:
            if is_const(p) and cval(p):
                return TRUE
    if t.op == "poly":
        return bnot(mk_eq(t, ZERO))
    h = TYPE_HOOK["truth"]
    if h:
        r = h(t)
        if r is not None:
            return r
    return atom(mk("truth", t))


def seq_nonempty(t):
    r = FALSE
    for s in t.args[0]:
        r = bor(r, seg_nonempty(s))
        if r is TRUE:
            return r
    return r


def seg_nonempty(s):
    if s.op in ("elem", "ent"):
        return TRUE
    if s.op == "splice":
        return truth(s.args[0])
    if s.op == "cond":
        r = FALSE
        for x in s.args[1]:
            r = bor(r, seg_nonempty(x))
        return band(s.args[0], r)
    if s.op == "for":
        src, body = s.args
        r = FALSE
        v, segs = open_binder(s)
        for x in segs:
            r = bor(r, seg_nonempty(x))
        if r is TRUE:
            return truth_source(src)
        return mk_any(src, v, r)
    return atom(mk("truth", mk("seq", (s,))))


def truth_source(src):
    if src.op == "items":
        return truth(src.args[0])
    if src.op == "range":
        return mk_gt(src.args[0], ZERO)
    return truth(src)


def tablelike(t):
    return t.op in ("attr", "xcall", "acc", "lc") and not (t.op == "attr" and t.args[1] in ("index", "columns"))


def keys_form(x):
    """{k for k, _ in D.items()} has the members of D.keys()"""
    if x.op == "set" and len(x.args[0]) == 1 and x.args[0][0].op == "for":
        src, body = x.args[0][0].args
        if src.op == "items" and len(body) == 1 and body[0].op == "elem":
            e = body[0].args[0]
            if e.op == "nth" and e.args[1] in (0, ZERO) and e.args[0] is mk("bv", 1):
                return mk("keys", src.args[0])
    return x


def mk_eq(a, b):
    if a.op == "set" or b.op == "set":
        a, b = keys_form(a), keys_form(b)
    if a is b:
        return TRUE
    if a.op == "ite":
        return mk_ite(atom(a.args[0]), mk_eq(a.args[1], b), mk_eq(a.args[2], b))
    if b.op == "ite":
        return mk_ite(atom(b.args[0]), mk_eq(a, b.args[1]), mk_eq(a, b.args[2]))
    if a.op == "const" and b.op == "const":
        if a.args[0] == "bool" and b.args[0] == "num":
            return TRUE if int(a.args[1]) == b.args[1] else FALSE
        if b.args[0] == "bool" and a.args[0] == "num":
            return TRUE if int(b.args[1]) == a.args[1] else FALSE
        return FALSE
    if a.op == "const" and a.args[0] == "bool":
        a, b = b, a
    if b is TRUE and a.op in ATOM_OPS:
        return atom(a)
    if b is FALSE and a.op in ATOM_OPS:
        return bnot(atom(a))
    for x, y in ((a, b), (b, a)):
        if y.op == "const" and y.args == ("str", "") and x.op == "getitem" and tablelike(x.args[0]):
            return bnot(truth(x))
        if y.op == "const" and y.args[0] == "bool" and x.op == "getitem" and tablelike(x.args[0]):
            return truth(x) if y is TRUE else bnot(truth(x))
    if a.op == "nth" and b.op == "nth" and a.args[0] is b.args[0] and a.args[0].op == "attr" and a.args[0].args[1] == "index" and a.args[1] != b.args[1]:
        return FALSE      # the labels of the rows of a table are distinct
    h = TYPE_HOOK["eq"]
    if h:
        r = h(a, b)
        if r is not None:
            return r
    for x, y in ((a, b), (b, a)):
        if x.op == "call" and x.args[0] == "abs" and len(x.args[1]) == 1 and y.op == "const" and y.args[0] == "inf":
            v = x.args[1][0]
            return bor(mk_eq(v, y), mk_eq(v, const(-float("inf")))) if y.args[1] == "inf" else FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        r = TRUE
        for x, y in zip(a.args[0], b.args[0]):
            r = band(r, mk_eq(x, y))
        return r
    if a.op == "tuple" and b.op == "const" or b.op == "tuple" and a.op == "const":
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op in ("cls", "ext", "fn", "enumv") and y.op in ("const", "cls", "ext", "fn", "enumv", "new", "seq", "dict", "tuple"):
            return FALSE
        if x.op in ("new", "seq", "dict") and y.op == "const":
            return FALSE
    if a.op == "seq" and b.op == "seq":
        sa, sb = a.args[0], b.args[0]
        if all(s.op == "elem" for s in sa) and all(s.op == "elem" for s in sb):
            if len(sa) != len(sb):
                return FALSE
            r = TRUE
            for x, y in zip(sa, sb):
                r = band(r, mk_eq(x.args[0], y.args[0]))
            return r
        if not sa:
            return bnot(seq_nonempty(b))
        if not sb:
            return bnot(seq_nonempty(a))
    if a.op == "poly" or b.op == "poly" or (is_num(b) and a.op == "len") or (is_num(a) and b.op == "len"):
        p = mk_add(a, mk_neg(b))
        return mk_eq0(p)
    if b.id < a.id:
        a, b = b, a
    # a constant goes second
    if a.op in ("const", "enumv", "cls"):
        a, b = b, a
    return atom(mk("eq", a, b))


def lead(p):
    """sign-normalisation: returns (sign, p') with p' canonical up to sign"""
    d = poly_dict(p)
    if not d:
        return 1, p
    monos = sorted((m for m in d if m), key=lambda m: tuple((a.id, e) for a, e in m))
    if not monos:
        return 1, p
    c = d[monos[0]]
    return (1, p) if c > 0 else (-1, mk_neg(p))


def _scale(p):
    """divide by the absolute value of the leading coefficient"""
    d = poly_dict(p)
    monos = sorted((m for m in d if m), key=lambda m: tuple((a.id, e) for a, e in m))
    if not monos:
        return p
    c = abs(d[monos[0]])
    if c == 1:
        return p
    return poly_from({m: Fraction(v) / c for m, v in d.items()})


def is_int(t):
    if is_num(t):
        return isinstance(cval(t), int)
    if t.op in ("len", "idx"):
        return True
    h = TYPE_HOOK["is_int"]
    return bool(h and h(t))


def poly_is_int(p):
    d = poly_dict(p)
    for m, c in d.items():
        if not (isinstance(c, int) or (isinstance(c, Fraction) and c.denominator == 1)):
            return False
        for a, e in m:
            if e < 0 or not is_int(a):
                return False
    return True


def _single_len(p):
    """p = len(x) + c  -> (len term, c)"""
    d = poly_dict(p)
    ms = [m for m in d if m]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0].op == "len" and d[ms[0]] == 1:
        return ms[0][0][0], d.get((), 0)
    return None


def mk_eq0(p):
    if is_num(p):
        return TRUE if cval(p) == 0 else FALSE
    if is_const(p):
        return FALSE
    if p.op == "ite":
        return push_ite(mk_eq0, p)
    s, q = lead(p)
    q = _scale(q)
    sl = _single_len(q)
    if sl:
        L, c = sl
        if c > 0:
            return FALSE
        if c == 0:
            return bnot(mk_gt0(L))
    # x - c == 0 with a plain atom: eq(x, c)
    d = poly_dict(q)
    ms = [m for m in d if m]
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and d[ms[0]] == 1 and ms[0][0][0].op != "len":
        return _eq_atom(ms[0][0][0], const(-d.get((), 0)))
    if len(ms) == 2 and not d.get((), 0) and all(len(m) == 1 and m[0][1] == 1 for m in ms) and sorted(
        d[m] for m in ms
    ) == [-1, 1]:
        return _eq_atom(ms[0][0][0], ms[1][0][0])
    return atom(mk("eq0", q))


def _eq_atom(a, b):
    if a.op == "ite" or b.op == "ite":
        return mk_eq(a, b)
    if b.id < a.id:
        a, b = b, a
    if a.op in ("const", "enumv", "cls"):
        a, b = b, a
    return atom(mk("eq", a, b))


def mk_gt0(p):
    """p > 0"""
    if is_num(p):
        return TRUE if cval(p) > 0 else FALSE
    if p.op == "const" and p.args[0] == "inf":
        return TRUE if p.args[1] == "inf" else FALSE
    if p.op == "ite":
        return push_ite(mk_gt0, p)
    s, q = lead(p)
    q = _scale(q)
    isint = poly_is_int(q)
    if s > 0:
        sl = _single_len(q)
        if sl and sl[1] > 0:
            return TRUE
        if sl and sl[1] == 0:
            return truth_len(sl[0])
        return atom(mk("gt0", q))
    # -q > 0  <=> q < 0
    if isint:
        # not (q >= 0) = not (q + 1 > 0)
        return bnot(mk_gt0(mk_add(q, ONE)))
    return bnot(atom(mk("ge0", q)))


def truth_len(L):
    """len(x) > 0"""
    x = L.args[0]
    if x.op in ("seq", "dict", "set"):
        return seq_nonempty(x)
    h = TYPE_HOOK["truth"]
    if h:
        r = h(x)
        if r is not None and r is not TRUE:
            return r
    return atom(mk("truth", x))


def mk_gt(a, b):
    """a > b"""
    for x, y in ((a, b),):
        if x.op == "const" and x.args[0] == "inf" and y.op == "const" and y.args[0] in ("inf", "num"):
            return TRUE if x.args[1] == "inf" and y.args[1] != "inf" else FALSE
        if y.op == "const" and y.args[0] == "inf" and x.op == "const" and x.args[0] == "num":
            return TRUE if y.args[1] == "-inf" else FALSE
    if a.op in ("seq", "tuple", "dict") or b.op in ("seq", "tuple", "dict"):
        return atom(mk("batom", "gt", a, b))
    return mk_gt0(mk_add(a, mk_neg(b)))


def mk_len(x):
    if x.op == "ite":
        return push_ite(mk_len, x)
    if x.op == "tuple":
        return const(len(x.args[0]))
    if x.op == "const" and x.args[0] == "str":
        return const(len(x.args[1]))
    if x.op in ("seq", "set") or (x.op == "dict"):
        if all(s.op in ("elem",) for s in x.args[0]) and x.op == "seq":
            return const(len(x.args[0]))
        if x.op == "dict" and all(s.op == "ent" and s.args[0].op in ("const", "enumv", "cls") for s in x.args[0]):
            return const(len(x.args[0]))
        if x.op == "dict" and len(x.args[0]) <= 4 and all(s.op == "ent" for s in x.args[0]):
            n = ZERO
            for i, s in enumerate(x.args[0]):
                dup = FALSE
                for q in x.args[0][:i]:
                    dup = bor(dup, mk_eq(q.args[0], s.args[0]))
                n = push_ite(lambda a: push_ite(lambda b: mk_add(a, b), mk_ite(dup, ZERO, ONE)), n)
            return n
        if x.op == "seq":
            return sum_seq(x, lambda e: ONE, lambda src: mk_len(src))
    if x.op == "items":
        return mk_len(x.args[0])
    if x.op == "enum":
        return mk_len(x.args[0])
    if x.op == "range":
        n = x.args[0]
        if n.op == "len":
            return n
        return mk_ite(mk_gt(n, ZERO), n, ZERO)
    if x.op == "call" and x.args[0] in ("sorted", "reversed"):
        return mk_len(x.args[1][0])
    return mk("len", x)


# --------------------------------------------------------------------------
# binders


def close_binder(op, src, v, *rest):
    """build a binder term, renaming the fresh variable v to canonical bv(h)"""
    h = 0
    for s in subterms(rest):
        if s.h > h:
            h = s.h
    b = mk("bv", h + 1)
    m = _Map({v: b})
    memo = {}
    rest2 = tuple(_subst_arg(r, m, memo) for r in rest)
    h2 = 0
    for s in subterms(rest2):
        if s.h > h2:
            h2 = s.h
    if h2 != h:
        b2 = mk("bv", h2 + 1)
        m = _Map({b: b2})
        rest2 = tuple(_subst_arg(r, m, {}) for r in rest2)
    return mk(op, src, *rest2)


def mk_range(n):
    if n.op == "ite":
        return push_ite(mk_range, n)
    if is_num(n) and isinstance(cval(n), int) and cval(n) <= 12:
        return mk("seq", tuple(elem(const(i)) for i in range(cval(n))))
    return mk("range", n)


def reclose(op, src, v, *rest):
    if op == "for":
        r = mk_for(src, v, list(rest[0]), "any")
        if len(r) == 1:
            return r[0]
        return mk("cond", TRUE, tuple(r))
    if op == "any":
        return mk_any(src, v, rest[0])
    if op == "bigsum":
        return mk_bigsum(src, v, rest[0])
    if op == "fold" and src.op == "seq" and len(src.args[0]) <= 6 and all(x.op == "elem" for x in src.args[0]):
        ups, cur = rest
        h = max([u.h for u in ups] + [0])
        for x in src.args[0]:
            m = {mk("acc", j, h): c for j, c in enumerate(cur)}
            m[v] = x.args[0]
            cur = tuple(subst(u, m) for u in ups)
        return cur[0]
    return close_binder(op, src, v, *rest)


def mk_items(c):
    if c.op == "dict" and len(c.args[0]) <= 1 and all(s.op == "ent" for s in c.args[0]):
        return mk_seq([elem(mk("tuple", (s.args[0], s.args[1]))) for s in c.args[0]], "seq")
    if c.op == "dict" and 1 < len(c.args[0]) <= 6:
        es = entries_apart(c.args[0])
        if es is not None:
            out = []
            for g, k, x in es:
                e = elem(mk("tuple", (k, x)))
                out.append(e if g is TRUE else mk_cond(g, (e,)))
            return mk_seq(out, "seq")
        if len(c.args[0]) <= 3 and all(x.op == "ent" for x in c.args[0]):
            return inserted(c.args[0])
    return mk("items", c)


def inserted(ents):
    """the entries of a table into which these were put one after the other: a key met again keeps its place"""
    def ins(done, todo):
        if not todo:
            return mk_seq([elem(mk("tuple", x)) for x in done], "seq")
        k, v = todo[0]

        def at(i):
            if i == len(done):
                return ins(done + [(k, v)], todo[1:])
            e = mk_eq(done[i][0], k)
            hit = ins(done[:i] + [(done[i][0], v)] + done[i + 1:], todo[1:]) if e is not FALSE else None
            return at(i + 1) if hit is None else hit if e is TRUE else mk_ite(e, hit, at(i + 1))
        return at(0)
    return ins([], [(x.args[0], x.args[1]) for x in ents])


def entries_apart(segs):
    """(condition, key, value) of every entry when no two entries present together have one key"""
    out = []
    for s in segs:
        g, e = (s.args[0], s.args[1]) if s.op == "cond" else (TRUE, (s,))
        if len(e) != 1 or e[0].op != "ent":
            return None
        k, x = e[0].args
        for g2, k2, _ in out:
            if band(band(g, g2), mk_eq(k, k2)) is not FALSE:
                return None
        out.append((g, k, x))
    return out


def open_binder(t, v=None):
    """returns (fresh var, body args...)"""
    src = t.args[0]
    rest = t.args[1:]
    h = 0
    for s in subterms(rest):
        if s.h > h:
            h = s.h
    b = mk("bv", h + 1)
    if v is None:
        v = elem_var(src)
    m = _Map({b: v})
    memo = {}
    out = tuple(_subst_arg(r, m, memo) for r in rest)
    return (v,) + out


ELEM_TYPE_HOOK = [None]


def elem_var(src):
    typ = ELEM_TYPE_HOOK[0](src) if ELEM_TYPE_HOOK[0] else None
    v = fvar(typ)
    FV_SRC[v] = src
    return v


def mk_any(src, v, c):
    """exists v in src: c(v)   (boolean term)"""
    if c is FALSE:
        return FALSE
    if src.op == "call" and src.args[0] in ("sorted", "reversed"):
        w = elem_var(src.args[1][0])
        return mk_any(src.args[1][0], w, subst(c, {v: w}))
    if src.op == "seq":
        r = FALSE
        for sg in src.args[0]:
            r = bor(r, _any_seg(sg, v, c))
        return r
    if src.op == "tuple":
        r = FALSE
        for e in src.args[0]:
            r = bor(r, subst(c, {v: e}))
        return r
    if src.op == "ite":
        return mk_ite(atom(src.args[0]), mk_any(src.args[1], v, c), mk_any(src.args[2], v, c))
    if c is TRUE:
        return truth_source(src)
    if v not in c.fv:
        return band(c, truth_source(src))
    # x in xs
    if c.op == "ite" and c.args[1] is TRUE and c.args[2] is FALSE and c.args[0].op == "eq":
        a, b = c.args[0].args
        if a is v and v not in b.fv:
            return mk_in(b, src)
        if b is v and v not in a.fv:
            return mk_in(a, src)
    if src.op == "items":
        k0 = mk_nth(v, 0)
        for x in _cond_atoms(c):
            if x.op == "eq" and k0 in x.args:
                K = x.args[0] if x.args[1] is k0 else x.args[1]
                if v in K.fv:
                    continue
                if subst(c, {x: FALSE}) is FALSE:
                    c1 = subst(subst(c, {x: TRUE}), {v: mk("tuple", (K, mk_getitem(src.args[0], K)))})
                    return band(mk_in(K, src.args[0]), c1)
        D = src.args[0]
        if D.op == "dict" and len(D.args[0]) == 1 and D.args[0][0].op == "for" and not _uses_other(c, v, k0):
            # keys of {f(b): g(b) for b in X}
            w, segs = open_binder(D.args[0][0])
            if len(segs) == 1 and segs[0].op == "ent":
                return mk_any(D.args[0][0].args[0], w, subst(c, {k0: segs[0].args[0]}))
        if c.op == "ite" and c.args[1] is TRUE and c.args[2] is FALSE and c.args[0].op == "in" and c.args[0].args[0] is k0:
            E = c.args[0].args[1]
            if v not in E.fv and E.id < D.id and E.op in ("sym", "attr", "fv", "getitem", "nth") and ISDICT_HOOK[0] is not None and ISDICT_HOOK[0](E):
                w = elem_var(mk("items", E))
                return mk_any(mk("items", E), w, mk_in(mk_nth(w, 0), D))
    # exists v in S, exists w in X: k(v) == t(w)   is   exists w in X: t(w) in S
    if c.op == "ite" and c.args[1] is TRUE and c.args[2] is FALSE and c.args[0].op == "any":
        inner = c.args[0]
        X = inner.args[0]
        if v not in X.fv:
            w, c2 = open_binder(inner)
            if c2.op == "ite" and c2.args[1] is TRUE and c2.args[2] is FALSE and c2.args[0].op == "eq":
                a, b = c2.args[0].args
                k = mk_nth(v, 0) if src.op == "items" else v
                for p, q in ((a, b), (b, a)):
                    if p is k and v not in q.fv:
                        return mk_any(X, w, mk_in(q, src.args[0] if src.op == "items" else src))
    # pull out v-free conjuncts / disjuncts is not needed: splitting does it
    return atom(close_binder("any", src, v, c))


ISDICT_HOOK = [None]


def _uses_other(c, v, k0):
    """does c mention v other than through k0"""
    return v in subst(c, {k0: const(0)}).fv


def _cond_atoms(c):
    out, seen, stack = [], set(), [c]
    while stack:
        t = stack.pop()
        if t.op != "ite" or t in seen:
            continue
        seen.add(t)
        out.append(t.args[0])
        stack.extend(t.args[1:])
    return out


def _any_seg(s, v, c):
    if s.op == "elem":
        return subst(c, {v: s.args[0]})
    if s.op == "splice":
        return mk_any(s.args[0], v, c)
    if s.op == "cond":
        r = FALSE
        for x in s.args[1]:
            r = bor(r, _any_seg(x, v, c))
        return band(s.args[0], r)
    if s.op == "for":
        w, segs = open_binder(s)
        r = FALSE
        for x in segs:
            r = bor(r, _any_seg(x, v, c))
        return mk_any(s.args[0], w, r)
    return atom(mk("truth", opaque("anyseg")))


def mk_in(x, c):
    if x.op == "ite":
        return push_ite(lambda y: mk_in(y, c), x)
    if c.op == "ite":
        return push_ite(lambda d: mk_in(x, d), c)
    if c.op == "items":
        return atom(mk("in", x, c))
    if c.op == "tuple":
        r = FALSE
        for e in c.args[0]:
            r = bor(r, mk_eq(x, e))
        return r
    if c.op == "keys":
        return mk_in(x, c.args[0])
    if c.op == "dict":
        r = dict_lookup(c.args[0], x)
        if r is not None:
            return r[0]
        if any(s.op == "del" for s in c.args[0]):
            return atom(mk("in", x, c))
    if c.op in ("seq", "set", "dict"):
        r = FALSE
        for s in c.args[0]:
            r = bor(r, seg_in(x, s))
        return r
    if c.op == "const" and c.args[0] == "str" and x.op == "const" and x.args[0] == "str":
        return TRUE if x.args[1] in c.args[1] else FALSE
    if c.op == "call" and c.args[0] in ("sorted", "reversed"):
        return mk_in(x, c.args[1][0])
    # key of an iterated dict is in that dict
    if x.op == "nth" and x.args[1] == 0:
        b = x.args[0]
        if b.op == "fv" and FV_SRC.get(b) is not None:
            s = FV_SRC[b]
            if s.op == "items" and s.args[0] is c:
                return TRUE
    if x.op == "fv" and FV_SRC.get(x) is c:
        return TRUE
    return atom(mk("in", x, c))


FV_SRC = {}


def seg_in(x, s):
    if s.op == "elem":
        return mk_eq(x, s.args[0])
    if s.op == "ent":
        return mk_eq(x, s.args[0])
    if s.op == "splice":
        return mk_in(x, s.args[0])
    if s.op == "cond":
        r = FALSE
        for y in s.args[1]:
            r = bor(r, seg_in(x, y))
        return band(s.args[0], r)
    if s.op == "for":
        v, segs = open_binder(s)
        r = FALSE
        for y in segs:
            r = bor(r, seg_in(x, y))
        return mk_any(s.args[0], v, r)
    return atom(mk("in", x, mk("seq", (s,))))


# --------------------------------------------------------------------------
# polynomials: mk("poly", ((mono, coef), ...)); mono = ((atom, exp), ...)


def poly_dict(t):
    if is_num(t):
        v = cval(t)
        return {(): v} if v != 0 else {}
    if t.op == "poly":
        return {m: c for m, c in t.args[0]}
    return {((t, 1),): 1}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def poly_from(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        ((m, c),) = d.items()
        if not m:
            return const(c if isinstance(c, int) else Fraction(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = []
    for m in sorted(d, key=_mono_key):
        c = d[m]
        if isinstance(c, Fraction) and c.denominator == 1:
            c = c.numerator
        items.append((m, c))
    return mk("poly", tuple(items))


def numish(t):
    return not (t.op == "const" and t.args[0] in ("str", "NoneType", "bytes", "ellipsis"))


def mk_add(a, b):
    if a.op == "const" and a.args[0] == "bool":
        a = const(int(a.args[1]))
    if b.op == "const" and b.args[0] == "bool":
        b = const(int(b.args[1]))
    da, db = dict(poly_dict(a)), poly_dict(b)
    if len(da) + len(db) > 400:
        raise Limit("poly")
    for m, c in db.items():
        da[m] = da.get(m, 0) + c
    return poly_from(da)


def mk_neg(a):
    if a.op == "const" and a.args[0] == "inf":
        return mk("const", "inf", "-inf" if a.args[1] == "inf" else "inf")
    return poly_from({m: -c for m, c in poly_dict(a).items()})


def mk_sub(a, b):
    return mk_add(a, mk_neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda p: p[0].id))


def mk_mul(a, b):
    if a.op == "const" and a.args[0] == "bool":
        a = const(int(a.args[1]))
    if b.op == "const" and b.args[0] == "bool":
        b = const(int(b.args[1]))
    da, db = poly_dict(a), poly_dict(b)
    if len(da) * len(db) > 400:
        raise Limit("poly")
    res = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mono_mul(m1, m2)
            res[m] = res.get(m, 0) + c1 * c2
    return poly_from(res)


def mk_inv(a):
    if is_num(a):
        if cval(a) == 0:
            return mk("inv0")
        return const(Fraction(1) / Fraction(cval(a)))
    if a.op == "poly" and len(a.args[0]) == 1:
        m, c = a.args[0][0]
        return poly_from({tuple((x, -e) for x, e in m): Fraction(1) / Fraction(c)})
    if a.op == "poly":
        s, q = lead(a)
        return poly_from({((q, -1),): s})
    return poly_from({((a, -1),): 1})


def mk_div(a, b):
    return mk_mul(a, mk_inv(b))


def mk_bigsum(src, v, body):
    """sum over v in src of body"""
    if body is ZERO:
        return ZERO
    if src.op == "seq":
        def sub(val):
            return subst(body, {v: val})
        return sum_seq(src, sub, None)
    if v not in body.fv:
        return mk_mul(body, mk_len(src))
    # v-free factors are pulled out, monomial by monomial
    outs = ZERO
    for m, c in poly_dict(body).items():
        free = tuple((a, e) for a, e in m if v not in a.fv)
        dep = tuple((a, e) for a, e in m if v in a.fv)
        if not dep:
            outs = mk_add(outs, mk_mul(poly_from({m: c}), mk_len(src)))
        else:
            b = close_binder("bigsum", src, v, poly_from({dep: 1}))
            outs = mk_add(outs, mk_mul(poly_from({free: c}), b))
    return outs


def sum_seq(t, f, lenf):
    """sum of f(e) for e in seq t"""
    acc = ZERO
    for s in t.args[0]:
        acc = mk_add(acc, _sum_seg(s, f, lenf))
    return acc


def _sum_seg(s, f, lenf):
    if s.op == "elem":
        return f(s.args[0])
    if s.op == "splice":
        x = s.args[0]
        if lenf is not None:
            return lenf(x)
        v = elem_var(x)
        FV_SRC[v] = x
        return mk_bigsum(x, v, f(v))
    if s.op == "cond":
        acc = ZERO
        for y in s.args[1]:
            acc = mk_add(acc, _sum_seg(y, f, lenf))
        return mk_ite(s.args[0], acc, ZERO)
    if s.op == "for":
        v, segs = open_binder(s)
        acc = ZERO
        for y in segs:
            acc = mk_add(acc, _sum_seg(y, f, lenf))
        return mk_bigsum(s.args[0], v, acc)
    return opaque("sumseg")


def rebuild_poly(items):
    acc = ZERO
    for m, c in items:
        t = const(c)
        for a, e in m:
            if e > 0:
                for _ in range(e):
                    t = mk_mul(t, a)
            else:
                for _ in range(-e):
                    t = mk_div(t, a)
        acc = mk_add(acc, t)
    return acc


# --------------------------------------------------------------------------
# sequences / dicts / sets


def elem(v):
    return mk("elem", v)


def ent(k, v):
    return mk("ent", k, v)


def splice(x):
    return mk("splice", x)


def mk_seq(segs, kind="seq"):
    segs = norm_segs(segs, kind)
    if kind == "dict":
        segs = norm_dict(segs)
    if kind in ("seq", "dict") and len(segs) == 1 and segs[0].op == "splice":
        x = segs[0].args[0]
        if kind == "dict" or x.op not in ("items", "range", "set", "enum", "zip", "keys"):
            return x
    return mk(kind, tuple(segs))


def norm_segs(segs, kind="seq"):
    out = []
    for s in segs:
        if s.op == "splice":
            x = s.args[0]
            if x.op == kind or (x.op == "seq" and kind == "set"):
                out.extend(x.args[0])
                continue
            if x.op == "tuple" and kind in ("seq", "set"):
                out.extend(elem(e) for e in x.args[0])
                continue
            if x.op == "ite" and kind in ("seq", "set", "dict"):
                c = atom(x.args[0])
                out.extend(norm_segs([mk_cond(c, (splice(x.args[1]),))], kind))
                out.extend(norm_segs([mk_cond(bnot(c), (splice(x.args[2]),))], kind))
                continue
            if x is NONE and kind == "seq":
                out.append(s)
                continue
            out.append(s)
        elif s.op == "cond":
            c, inner = s.args
            inner = norm_segs(inner, kind)
            if c is FALSE or not inner:
                continue
            if c is TRUE:
                out.extend(inner)
                continue
            # flatten nested conds
            for i in inner:
                if i.op == "cond":
                    cc = band(c, i.args[0])
                    if cc is not FALSE:
                        out.append(mk("cond", cc, i.args[1]))
                else:
                    out.append(mk("cond", c, (i,)))
        elif s.op == "for":
            v, inner = open_binder(s)
            out.extend(mk_for(s.args[0], v, inner, kind))
        else:
            out.append(s)
    # merge  cond(c,X) cond(!c,X)  is left to splitting
    return out


def mk_cond(c, segs):
    return mk("cond", c, tuple(segs))


def mk_for(src, v, segs, kind="seq"):
    """returns list of segments for: for v in src: segs"""
    segs = norm_segs(segs, kind)
    if not segs:
        return []
    if src.op == "seq":
        out = []
        for s in src.args[0]:
            out.extend(_for_over_seg(s, v, segs, kind))
        return norm_segs(out, kind)
    if src.op == "tuple":
        out = []
        for e in src.args[0]:
            out.extend(subst_segs(segs, {v: e}))
        return norm_segs(out, kind)
    if src.op == "ite":
        c = atom(src.args[0])
        return norm_segs(
            [mk_cond(c, tuple(mk_for(src.args[1], v, segs, kind))),
             mk_cond(bnot(c), tuple(mk_for(src.args[2], v, segs, kind)))], kind)
    if kind != "seq" and len(segs) > 1 and all(s.op != "ent" for s in segs):
        pass
    # identity map
    if len(segs) == 1 and kind == "seq" and segs[0].op == "elem" and segs[0].args[0] is v:
        return norm_segs([splice(src)], kind)
    if len(segs) == 1 and kind == "set" and segs[0].op == "elem" and segs[0].args[0] is v:
        return norm_segs([splice(src)], kind)
    if kind == "dict" and len(segs) == 1 and segs[0].op == "ent" and src.op == "items":
        k, val = segs[0].args
        if k is mk_nth(v, 0) and val is mk_nth(v, 1):
            return [splice(src.args[0])]
    if kind in ("dict", "set") and src.op == "items":
        r = _fuse_rekeyed(src.args[0], v, segs, kind)
        if r is not None:
            return r
    # v-free condition is hoisted
    out = []
    if all(s.op == "cond" and v not in s.args[0].fv for s in segs) and len(segs) == 1:
        c, inner = segs[0].args
        return norm_segs([mk_cond(c, tuple(mk_for(src, v, inner, kind)))], kind)
    return [close_binder("for", src, v, tuple(segs))]


def _fuse_rekeyed(D, v, segs, kind):
    """{k: g(k, x) for k, x in {f(w): h(w) for w in S}.items() if P(k)} is {f(w): g(f(w), h(w)) for w in S if P(f(w))}:
    the last entry of a key wins in both, and P sees the key alone"""
    if D.op != "dict" or len(D.args[0]) != 1 or D.args[0][0].op != "for":
        return None
    w, body = open_binder(D.args[0][0])
    e = body[0] if len(body) == 1 else None
    c = TRUE
    if e is not None and e.op == "cond" and len(e.args[1]) == 1:
        c, e = e.args[0], e.args[1][0]
    if e is None or e.op != "ent":
        return None
    k0 = mk_nth(v, 0)
    probe = fvar(None)

    def key_only(t):
        return v not in subst(t, {k0: probe}).fv

    def fits(x):
        if x.op == "cond":
            return key_only(x.args[0]) and all(fits(y) for y in x.args[1])
        if kind == "set":
            return x.op == "elem" and key_only(x.args[0])
        return x.op == "ent" and x.args[0] is k0

    if not all(fits(x) for x in segs) or kind == "dict" and len(segs) != 1:
        return None
    inner = subst_segs(segs, {v: mk("tuple", (e.args[0], e.args[1]))})
    return mk_for(D.args[0][0].args[0], w, [mk_cond(c, tuple(inner))] if c is not TRUE else inner, kind)


def _for_over_seg(s, v, segs, kind):
    if s.op == "elem":
        return subst_segs(segs, {v: s.args[0]})
    if s.op == "splice":
        return mk_for(s.args[0], v, segs, kind)
    if s.op == "cond":
        inner = []
        for x in s.args[1]:
            inner.extend(_for_over_seg(x, v, segs, kind))
        return [mk_cond(s.args[0], tuple(inner))]
    if s.op == "for":
        w, body = open_binder(s)
        inner = []
        for x in body:
            inner.extend(_for_over_seg(x, v, segs, kind))
        return mk_for(s.args[0], w, inner, kind)
    return [mk("for", opaque("seg"), tuple(segs))]


def subst_segs(segs, m):
    memo = {}
    m = _Map(m)
    return [_subst(s, m, memo) for s in segs]


def norm_dict(segs):
    """dict normalisation: later constant-key entries override earlier ones;
    map-values and filter idioms over the dict's own items."""
    out = []
    for s in segs:
        if s.op == "ent":
            k = s.args[0]
            done = False
            for i, p in enumerate(out):
                if p.op == "ent" and p.args[0] is k and all(_keys_disjoint(q, k) for q in out[i + 1:]):
                    out[i] = s
                    done = True
                    break
            if done:
                continue
            out.append(s)
        elif s.op == "del":
            k = s.args[0]
            if out and out[-1].op == "ent" and out[-1].args[0] is k:
                out.pop()
                # still delete in what precedes
                if out and not all(_keys_disjoint(q, k) for q in out):
                    out.append(s)
                continue
            if all(_keys_disjoint(q, k) for q in out):
                continue
            out.append(s)
        elif s.op == "for" and s.args[0].op == "items" and out and len(out) == 1:
            D = s.args[0].args[0]
            base = mk_seq_raw(out)
            if base is D:
                v, inner = open_binder(s)
                k0 = mk_nth(v, 0)
                v0 = mk_nth(v, 1)
                r = _rewrite_items(inner, k0, v0)
                if r is not None:
                    out = list(mk_for(s.args[0], v, r, "dict"))
                    continue
            out.append(s)
        elif s.op == "cond" and len(s.args[1]) == 1 and s.args[1][0].op == "ent" and out:
            # cond(in(k, base), ent(k, ..)) etc. left as is
            out.append(s)
        else:
            out.append(s)
    return out


def mk_seq_raw(out):
    if len(out) == 1 and out[0].op == "splice":
        return out[0].args[0]
    return mk("dict", tuple(out))


def _keys_disjoint(seg, k):
    if seg.op == "ent":
        return mk_eq(seg.args[0], k) is FALSE
    return False


def _rewrite_items(inner, k0, v0):
    """segments applied to base while iterating base.items(): per-key updates.
    Returns the segments of the equivalent comprehension or None."""
    res_val = v0
    present = TRUE
    for s in inner:
        c = TRUE
        ss = (s,)
        if s.op == "cond":
            c, ss = s.args
        for x in ss:
            if x.op == "ent" and x.args[0] is k0:
                res_val = mk_ite(c, x.args[1], res_val)
                present = mk_ite(c, TRUE, present)
            elif x.op == "del" and x.args[0] is k0:
                present = mk_ite(c, FALSE, present)
            else:
                return None
    if present is TRUE:
        return [ent(k0, res_val)]
    return [mk_cond(present, (ent(k0, res_val),))]


def mk_nth(b, i):
    if b.op == "tuple" and isinstance(i, int) and -len(b.args[0]) <= i < len(b.args[0]):
        return b.args[0][i]
    if b.op == "ite":
        return push_ite(lambda x: mk_nth(x, i), b)
    if b.op == "seq" and isinstance(i, int) and all(s.op == "elem" for s in b.args[0]) and -len(b.args[0]) <= i < len(
        b.args[0]
    ):
        return b.args[0][i].args[0]
    if b.op == "seq" and i == 0 and b.args[0] and b.args[0][0].op == "elem":
        return b.args[0][0].args[0]
    return mk("nth", b, i)


# --------------------------------------------------------------------------
# records


def mk_new(cls, fields):
    """fields: tuple of (name, term)"""
    return mk("new", cls, tuple(fields))


def new_field(t, name):
    for n, v in t.args[1]:
        if n == name:
            return v
    return None


def mk_attr(o, name):
    if o.op == "ite":
        return push_ite(lambda x: mk_attr(x, name), o)
    if o.op == "new":
        r = new_field(o, name)
        if r is not None:
            return r
    return mk("attr", o, name)


def join_segs(segs):
    """the pieces of a text made of the elements of a sequence, in order"""
    out = []

    def put(x):
        if is_const(x) and x.args[0] == "str" and out and out[-1].op == "elem" and is_const(out[-1].args[0]) and out[-1].args[0].args[0] == "str":
            out[-1] = elem(const(out[-1].args[0].args[1] + x.args[1]))
        elif not (is_const(x) and x.args[0] == "str" and x.args[1] == ""):
            out.append(elem(x))

    for sg in segs:
        if sg.op == "elem":
            x = sg.args[0]
            if x.op == "ite":
                c = atom(x.args[0])
                a, b = join_segs([elem(x.args[1])]), join_segs([elem(x.args[2])])
                if a:
                    out.append(mk_cond(c, tuple(a)))
                if b:
                    out.append(mk_cond(bnot(c), tuple(b)))
            elif x.op == "cat":
                for y in x.args[0]:
                    for z in join_segs([elem(y)]):
                        put(z.args[0]) if z.op == "elem" else out.append(z)
            elif x.op == "call" and x.args[0] == "str.join" and x.args[1][0] is const("") and x.args[1][1].op == "seq":
                for z in x.args[1][1].args[0]:
                    put(z.args[0]) if z.op == "elem" else out.append(z)
            else:
                put(x)
        elif sg.op == "cond":
            r = join_segs(sg.args[1])
            if r:
                out.append(mk_cond(sg.args[0], tuple(r)))
        elif sg.op == "for":
            v, body = open_binder(sg)
            r = join_segs(body)
            if r:
                out.extend(mk_for(sg.args[0], v, r))
        else:
            out.append(sg)
    return out


def mk_join(segs):
    parts = []
    for sg in join_segs(segs):
        parts.append(sg.args[0] if sg.op == "elem" else mk("call", "str.join", (const(""), mk_seq([sg], "seq"))))
    return mk_cat(parts)


def rebuild_call(name, args, *rest):
    if name == "str.join" and len(args) == 2 and args[0] is const("") and args[1].op == "seq" and not rest:
        segs = args[1].args[0]
        if len(segs) != 1 or segs[0].op == "elem":
            return mk_join(segs)
    return mk("call", name, args, *rest)


def mk_cat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            ps = p.args[0]
        else:
            ps = (p,)
        for q in ps:
            if out and is_const(q) and is_const(out[-1]) and q.args[0] == "str" and out[-1].args[0] == "str":
                out[-1] = const(out[-1].args[1] + q.args[1])
            elif is_const(q) and q.args[0] == "str" and q.args[1] == "":
                continue
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and (is_const(out[0]) and out[0].args[0] == "str"):
        return out[0]
    return mk("cat", tuple(out))


def mk_str(t):
    if t.op == "const" and t.args[0] == "str":
        return t
    if t.op == "const" and t.args[0] == "num" and isinstance(t.args[1], int):
        return const(str(t.args[1]))
    if t.op == "cat":
        return t
    if t.op == "ite":
        return push_ite(mk_str, t)
    return t


MISSING = mk("missing")


class _NoLookup(Exception):
    pass


def dict_lookup(segs, k):
    """(k is a key, value under k) for a dict given by its building segments;
    None when some segment's keys cannot be inverted"""
    try:
        return _lookup(segs, k, FALSE, MISSING)
    except _NoLookup:
        return None


def _lookup(segs, k, p, val):
    for s in segs:
        if s.op == "ent":
            e = mk_eq(s.args[0], k)
            p, val = bor(e, p), mk_ite(e, s.args[1], val)
        elif s.op == "del":
            e = mk_eq(s.args[0], k)
            p, val = band(p, bnot(e)), mk_ite(e, MISSING, val)
        elif s.op == "cond":
            p2, v2 = _lookup(s.args[1], k, p, val)
            p, val = mk_ite(s.args[0], p2, p), mk_ite(s.args[0], v2, val)
        elif s.op == "splice":
            D = s.args[0]
            e = mk_in(k, D)
            p, val = bor(e, p), mk_ite(e, mk_getitem(D, k) if e is not FALSE else val, val)
        elif s.op == "for":
            src = s.args[0]
            v, inner = open_binder(s)
            key = _for_key(inner)
            if src.op == "items" and key is mk_nth(v, 0):
                e = mk_in(k, src.args[0])
                if e is FALSE:
                    continue
                el = mk("tuple", (k, mk_getitem(src.args[0], k)))
            elif key is v and src.op not in ("items", "zip", "enum", "range"):
                e = mk_in(k, src)
                el = k
            else:
                raise _NoLookup
            p2, v2 = _lookup(subst_segs(inner, {v: el}), k, p, val)
            p, val = mk_ite(e, p2, p), mk_ite(e, v2, val)
        else:
            raise _NoLookup
    return p, val


def _for_key(segs):
    key = None
    for s in segs:
        if s.op == "cond":
            x = _for_key(s.args[1])
        elif s.op in ("ent", "del"):
            x = s.args[0]
        else:
            return None
        if key is None:
            key = x
        elif x is not key:
            return None
    return key


def mk_getitem(d, k):
    """d[k]"""
    if k.op == "ite":
        return push_ite(lambda x: mk_getitem(d, x), k)
    if d.op == "ite":
        return push_ite(lambda x: mk_getitem(x, k), d)
    if is_num(k) and isinstance(cval(k), int):
        if d.op in ("tuple", "seq"):
            r = mk_nth(d, cval(k))
            if r.op != "nth":
                return r
        if d.op in ("fv", "sym", "attr", "call", "nth", "seq", "getitem", "mcall") :
            return mk("nth", d, cval(k))
    if k.op == "idx":
        if FV_SRC.get(k.args[0]) is d or (k.args[0].op == "fv" and FV_SRC.get(k.args[0]) is d):
            return k.args[0]
    if k.op == "nth" and k.args[1] == 0 and k.args[0].op == "fv":
        s = FV_SRC.get(k.args[0])
        if s is not None and s.op == "items" and s.args[0] is d:
            return mk("nth", k.args[0], 1)
    if d.op == "dict":
        r = dict_lookup(d.args[0], k)
        if r is not None:
            return r[1]
    return mk("getitem", d, k)


REBUILD = {}


def _rb_seqkind(kind):
    def f(segs):
        return mk_seq(list(segs), kind)
    return f


def _rb_cond(c, segs):
    return mk("cond", c, segs)


REBUILD.update(
    ite=rebuild_ite,
    poly=rebuild_poly,
    seq=_rb_seqkind("seq"),
    dict=_rb_seqkind("dict"),
    set=_rb_seqkind("set"),
    cond=_rb_cond,
    attr=mk_attr,
    getitem=mk_getitem,
    nth=mk_nth,
    len=mk_len,
    items=mk_items,
    range=mk_range,
    cat=lambda parts: mk_cat(parts),
    call=rebuild_call,
    eq=mk_eq,
    gt0=mk_gt0,
    eq0=mk_eq0,
    ge0=lambda p: bnot(mk_gt0(mk_neg(p))),
    truth=truth,
    **{"in": mk_in},
)


# --------------------------------------------------------------------------
# printing


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if depth < 0:
        return "…"
    d = depth - 1
    o = t.op
    a = t.args
    if o == "const":
        return repr(a[1]) if a[0] != "num" else str(a[1])
    if o == "sym":
        return a[0]
    if o in ("fv",):
        return f"v{a[0]}"
    if o == "bv":
        return f"b{a[0]}"
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "new":
        return a[0].rsplit(".", 1)[-1] + "(" + ", ".join(f"{n}={show(v, d)}" for n, v in a[1]) + ")"
    if o == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return "not " + show(a[0], d)
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o == "poly":
        parts = []
        for m, c in a[0]:
            ms = "*".join(show(x, d) + (f"^{e}" if e != 1 else "") for x, e in m)
            if not m:
                parts.append(str(c))
            elif c == 1:
                parts.append(ms)
            elif c == -1:
                parts.append("-" + ms)
            else:
                parts.append(f"{c}*{ms}")
        return "(" + " + ".join(parts) + ")"
    if o in ("seq", "dict", "set", "tuple"):
        br = {"seq": "[]", "dict": "{}", "set": "{}", "tuple": "()"}[o]
        return br[0] + ", ".join(show(x, d) for x in a[0]) + br[1]
    if o == "elem":
        return show(a[0], d)
    if o == "ent":
        return f"{show(a[0], d)}: {show(a[1], d)}"
    if o == "splice":
        return "*" + show(a[0], d)
    if o == "cond":
        return f"<{', '.join(show(x, d) for x in a[1])} if {show(a[0], d)}>"
    if o == "for":
        return f"<{', '.join(show(x, d) for x in a[1])} for b in {show(a[0], d)}>"
    if o in ("bigsum", "any"):
        return f"{o}({show(a[1], d)} for b in {show(a[0], d)})"
    if o == "kind":
        return f"{show(a[0], d)} is-a {str(a[1]).rsplit('.', 1)[-1]}"
    if o == "eq":
        return f"{show(a[0], d)} == {show(a[1], d)}"
    if o == "gt0":
        return f"{show(a[0], d)} > 0"
    if o == "ge0":
        return f"{show(a[0], d)} >= 0"
    if o == "in":
        return f"{show(a[0], d)} in {show(a[1], d)}"
    if o == "cls" or o == "fn" or o == "ext" or o == "mod":
        return str(a[0])

    def sa(x):
        if isinstance(x, T):
            return show(x, d)
        if isinstance(x, tuple):
            return "(" + ", ".join(sa(y) for y in x) + ")"
        return str(x)

    return f"{o}(" + ", ".join(sa(x) for x in a) + ")"
