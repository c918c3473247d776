"""Post-normalisation of value graphs: expression trees by what they denote,
and peeled loops (first element treated apart) folded back."""
from .terms import *  # noqa
from . import terms as tm

E = "andromede.expression.expression."
NODES = {E + n: n for n in ("AdditionNode", "NegationNode", "MultiplicationNode", "DivisionNode", "LiteralNode")}


def rewrite(t, f, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in tm.BINDERS:
        o = open_binder(t)
        v = o[0]
        src = _rw(t.args[0], f, memo)
        rest = tuple(_rw(x, f, memo) for x in o[1:])
        if src is t.args[0] and all(x is y or x == y for x, y in zip(rest, o[1:])):
            r = t
        else:
            if src is not t.args[0]:
                tm.FV_SRC[v] = src
            r = tm.reclose(t.op, src, v, *rest)
    elif t.op in ("const", "sym", "fv", "bv", "lc", "ref", "cls", "fn", "enumv", "ext"):
        r = t
    else:
        na = tuple(_rw(x, f, memo) for x in t.args)
        if all(x is y or (not isinstance(x, T) and x == y) for x, y in zip(na, t.args)):
            r = t
        else:
            r = tm.rebuild(t.op, na)
    r = f(r)
    memo[t] = r
    return r


def _rw(a, f, memo):
    if isinstance(a, T):
        return rewrite(a, f, memo)
    if isinstance(a, tuple):
        return tuple(_rw(x, f, memo) for x in a)
    return a


def denote_node(t):
    if t.op == "ite":
        return t
    if t.op == "new":
        n = NODES.get(t.args[0])
        if n == "AdditionNode":
            ops = new_field(t, "operands")
            if ops is None:
                return t
            if ops.op == "seq":
                return sum_seq(ops, lambda e: e, None)
            if ops.op == "tuple":
                r = ZERO
                for e in ops.args[0]:
                    r = mk_add(r, e)
                return r
            v = elem_var(ops)
            return mk_bigsum(ops, v, v)
        if n == "NegationNode":
            return mk_neg(new_field(t, "operand"))
        if n == "MultiplicationNode":
            return mk_mul(new_field(t, "left"), new_field(t, "right"))
        if n == "DivisionNode":
            return mk_div(new_field(t, "left"), new_field(t, "right"))
        if n == "LiteralNode":
            return new_field(t, "value")
    return t


def peel_node(t):
    """f(xs[0]) + sum_{v in xs[1:]} f(v)  ->  sum_{v in xs} f(v)"""
    if t.op != "poly":
        return t
    d = dict(tm.poly_dict(t))
    for m, c in list(d.items()):
        bs = [x for x, e in m if x.op == "bigsum" and e == 1 and x.args[0].op == "slice"]
        if len(bs) != 1:
            continue
        s = bs[0].args[0]
        if s.args[1] is not ONE or s.args[2] is not NONE:
            continue
        src = s.args[0]
        v = elem_var(src)
        _, body = open_binder(bs[0], v)
        rest = tuple((x, e) for x, e in m if x is not bs[0])
        firstv = mk_mul(poly_from({rest: c}), subst(body, {v: mk_nth(src, 0)}))
        left = mk_sub(poly_from(d), firstv)
        ld = tm.poly_dict(left)
        # the first-element term must really be there
        if len(ld) < len(d):
            nd = dict(ld)
            nd.pop(m, None)
            return peel_node(mk_add(poly_from(nd), mk_mul(poly_from({rest: c}), mk_bigsum(src, v, body))))
    return t


def peel_sources(t, out, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == "slice" and t.args[1] is ONE and t.args[2] is NONE and t.args[3] is NONE:
        out.add(t)
    for s in tm.subterms(t.args):
        peel_sources(s, out, seen)


def unroll_any(t, slices):
    """exists v in xs: c(v)  ->  xs nonempty and (c(xs[0]) or exists v in xs[1:]: c(v))
    for the xs whose tail the other side iterates"""
    by = {s.args[0]: s for s in slices}

    def f(x):
        if x.op == "any" and x.args[0] in by:
            src = x.args[0]
            v = elem_var(src)
            _, body = open_binder(x, v)
            return band(tm.truth_source(src),
                        bor(subst(body, {v: mk_nth(src, 0)}), mk_any(by[src], v, body)))
        return x
    return rewrite(t, f, {})


def normalise(t, algebra=True):
    def f(x):
        if algebra:
            x = denote_node(x)
        return peel_node(x)
    return rewrite(t, f, {})
