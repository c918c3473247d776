from typing import Any, Dict, List, Optional
from andromede.simulation.linear_expression import LinearExpression, Term, TermKey, EPS, is_zero, is_close_abs

OPTIONS = {"*": {"algebra": False, "denote": False, "max_splits": 20000}}


def coef(e: LinearExpression, k: TermKey):
    if k in e.terms:
        return e.terms[k].coefficient
    return 0


def clean(e: LinearExpression, k: TermKey):
    """operands hold no zero coefficient, and a key identifies its term"""
    if k in e.terms:
        t = e.terms[k]
        return (abs(t.coefficient) >= EPS and t.component_id == k.component_id and t.variable_name == k.variable_name
                and t.time_index == k.time_index and t.scenario_index == k.scenario_index)
    return True


def small(x: float):
    return abs(x) < EPS


def observe(r: LinearExpression, k: TermKey):
    if k in r.terms:
        t = r.terms[k]
        return (t.coefficient, t.component_id, t.variable_name, t.time_index, t.scenario_index, r.constant)
    return (0, k.component_id, k.variable_name, k.time_index, k.scenario_index, r.constant)


def expect(c: float, k: TermKey, constant: float):
    return (0 if small(c) else c, k.component_id, k.variable_name, k.time_index, k.scenario_index, constant)


def impl_add(a: LinearExpression, b: LinearExpression, k: TermKey):
    if not clean(a, k) or not clean(b, k):
        return None
    return observe(a + b, k)


def ref_add(a: LinearExpression, b: LinearExpression, k: TermKey):
    if not clean(a, k) or not clean(b, k):
        return None
    return expect(coef(a, k) + coef(b, k), k, a.constant + b.constant)


def impl_sub(a: LinearExpression, b: LinearExpression, k: TermKey):
    if not clean(a, k) or not clean(b, k):
        return None
    return observe(a - b, k)


def ref_sub(a: LinearExpression, b: LinearExpression, k: TermKey):
    if not clean(a, k) or not clean(b, k):
        return None
    return expect(coef(a, k) - coef(b, k), k, a.constant - b.constant)


def impl_neg(a: LinearExpression, k: TermKey):
    if not clean(a, k):
        return None
    return observe(-a, k)


def ref_neg(a: LinearExpression, k: TermKey):
    if not clean(a, k):
        return None
    return expect(-coef(a, k), k, -a.constant)


def impl_iadd(a: LinearExpression, b: LinearExpression, k: TermKey):
    if not clean(a, k) or not clean(b, k):
        return None
    r = LinearExpression(a.terms, a.constant)
    r += b
    return observe(r, k)


def ref_iadd(a: LinearExpression, b: LinearExpression, k: TermKey):
    if not clean(a, k) or not clean(b, k):
        return None
    return expect(coef(a, k) + coef(b, k), k, a.constant + b.constant)


def impl_isub(a: LinearExpression, b: LinearExpression, k: TermKey):
    if not clean(a, k) or not clean(b, k):
        return None
    r = LinearExpression(a.terms, a.constant)
    r -= b
    return observe(r, k)


def ref_isub(a: LinearExpression, b: LinearExpression, k: TermKey):
    if not clean(a, k) or not clean(b, k):
        return None
    return expect(coef(a, k) - coef(b, k), k, a.constant - b.constant)


def impl_constant_times(c: float, b: LinearExpression, k: TermKey):
    if not clean(b, k) or small(c) or small(c - 1):
        return None
    return observe(LinearExpression([], c) * b, k)


def ref_constant_times(c: float, b: LinearExpression, k: TermKey):
    if not clean(b, k) or small(c) or small(c - 1):
        return None
    return (c * coef(b, k), k.component_id, k.variable_name, k.time_index, k.scenario_index, c * b.constant)


def impl_times_constant(c: float, b: LinearExpression, k: TermKey):
    if not clean(b, k) or small(c) or small(c - 1) or k not in b.terms:
        return None
    return observe(b * LinearExpression([], c), k)


def ref_times_constant(c: float, b: LinearExpression, k: TermKey):
    if not clean(b, k) or small(c) or small(c - 1) or k not in b.terms:
        return None
    return (c * coef(b, k), k.component_id, k.variable_name, k.time_index, k.scenario_index, c * b.constant)


def impl_times_one(b: LinearExpression, k: TermKey):
    if not clean(b, k) or small(b.constant) or small(b.constant - 1):
        return None
    return (observe(LinearExpression([], 1) * b, k), observe(b * LinearExpression([], 1), k))


def ref_times_one(b: LinearExpression, k: TermKey):
    if not clean(b, k) or small(b.constant) or small(b.constant - 1):
        return None
    r = (coef(b, k), k.component_id, k.variable_name, k.time_index, k.scenario_index, b.constant)
    return (r, r)


def impl_times_zero(b: LinearExpression, k: TermKey):
    if not clean(b, k):
        return None
    return (observe(LinearExpression([], 0) * b, k), observe(b * LinearExpression([], 0), k))


def ref_times_zero(b: LinearExpression, k: TermKey):
    if not clean(b, k):
        return None
    r = (0, k.component_id, k.variable_name, k.time_index, k.scenario_index, 0)
    return (r, r)


def impl_not_bilinear(a: LinearExpression, b: LinearExpression, k: TermKey, j: TermKey):
    if k in a.terms and j in b.terms and clean(a, k) and clean(b, j):
        return a * b
    return None


def ref_not_bilinear(a: LinearExpression, b: LinearExpression, k: TermKey, j: TermKey):
    if k in a.terms and j in b.terms and clean(a, k) and clean(b, j):
        raise ValueError("quadratic")
    return None


def impl_divide(c: float, b: LinearExpression, k: TermKey):
    if not clean(b, k) or small(c) or small(c - 1):
        return None
    return observe(b / LinearExpression([], c), k)


def ref_divide(c: float, b: LinearExpression, k: TermKey):
    if not clean(b, k) or small(c) or small(c - 1):
        return None
    return (coef(b, k) / c, k.component_id, k.variable_name, k.time_index, k.scenario_index, b.constant / c)


def impl_divide_one(b: LinearExpression, k: TermKey):
    if not clean(b, k):
        return None
    return observe(b / LinearExpression([], 1), k)


def ref_divide_one(b: LinearExpression, k: TermKey):
    if not clean(b, k):
        return None
    return (coef(b, k), k.component_id, k.variable_name, k.time_index, k.scenario_index, b.constant)


def impl_divide_invalid(a: LinearExpression, b: LinearExpression):
    if b.terms or small(b.constant):
        return a / b
    return None


def ref_divide_invalid(a: LinearExpression, b: LinearExpression):
    if b.terms or small(b.constant):
        raise ValueError("not a constant, or zero")
    return None


def impl_from_dict(terms: Dict[TermKey, Term], c: float, k: TermKey):
    e = LinearExpression(terms, c)
    if k in e.terms:
        return (e.terms[k], e.constant)
    return (None, e.constant)


def ref_from_dict(terms: Dict[TermKey, Term], c: float, k: TermKey):
    if k in terms and not small(terms[k].coefficient):
        return (terms[k], c)
    return (None, c)


def impl_from_list(t: Term, u: Term, c: float):
    if small(t.coefficient) or t.variable_name == u.variable_name:
        return None
    e = LinearExpression([t, u], c)
    k = TermKey(u.component_id, u.variable_name, u.time_index, u.scenario_index)
    j = TermKey(t.component_id, t.variable_name, t.time_index, t.scenario_index)
    return (e.terms[j], k in e.terms, len(e.terms), e.constant)


def ref_from_list(t: Term, u: Term, c: float):
    if small(t.coefficient) or t.variable_name == u.variable_name:
        return None
    return (t, not small(u.coefficient), 1 if small(u.coefficient) else 2, c)


def impl_default(x: int):
    e = LinearExpression()
    return (e.terms, e.constant, e.is_zero())


def ref_default(x: int):
    return ({}, 0, True)


def impl_is_zero(e: LinearExpression):
    return e.is_zero()


def ref_is_zero(e: LinearExpression):
    return not e.terms and small(e.constant)


def impl_eq(a: LinearExpression, b: LinearExpression):
    return a == b


def ref_eq(a: LinearExpression, b: LinearExpression):
    return small(a.constant - b.constant) and a.terms == b.terms


def touch(r: LinearExpression, k: TermKey, t: Term):
    """whatever is done to a result"""
    r.constant = r.constant + 1
    r.terms[k] = t


def impl_own_sum(a: LinearExpression, b: LinearExpression, k: TermKey, t: Term):
    touch(a + b, k, t)
    return (a.constant, b.constant, observe(a, k), observe(b, k))


def ref_own_sum(a: LinearExpression, b: LinearExpression, k: TermKey, t: Term):
    return (a.constant, b.constant, observe(a, k), observe(b, k))


def impl_own_difference(a: LinearExpression, b: LinearExpression, k: TermKey, t: Term):
    touch(a - b, k, t)
    return (a.constant, b.constant, observe(a, k), observe(b, k))


def ref_own_difference(a: LinearExpression, b: LinearExpression, k: TermKey, t: Term):
    return (a.constant, b.constant, observe(a, k), observe(b, k))


def impl_own_opposite(a: LinearExpression, k: TermKey, t: Term):
    touch(-a, k, t)
    return (a.constant, observe(a, k))


def ref_own_opposite(a: LinearExpression, k: TermKey, t: Term):
    return (a.constant, observe(a, k))


def impl_own_product(c: float, b: LinearExpression, k: TermKey, t: Term):
    touch(LinearExpression(None, c) * b, k, t)
    touch(b * LinearExpression(None, c), k, t)
    return (b.constant, observe(b, k))


def ref_own_product(c: float, b: LinearExpression, k: TermKey, t: Term):
    return (b.constant, observe(b, k))


def impl_own_quotient(a: LinearExpression, b: LinearExpression, k: TermKey, t: Term):
    touch(a / b, k, t)
    return (a.constant, b.constant, observe(a, k), observe(b, k))


def ref_own_quotient(a: LinearExpression, b: LinearExpression, k: TermKey, t: Term):
    if b.terms or small(b.constant):
        raise ValueError("")
    return (a.constant, b.constant, observe(a, k), observe(b, k))


def impl_own_terms(terms: Dict[TermKey, Term], c: float, k: TermKey, t: Term):
    touch(LinearExpression(terms, c), k, t)
    return terms


def ref_own_terms(terms: Dict[TermKey, Term], c: float, k: TermKey, t: Term):
    return terms


def impl_negligible(x: float, t: Term):
    return (is_zero(x), t.is_zero())


def ref_negligible(x: float, t: Term):
    """what counts as zero is far below any coefficient a model may carry"""
    return (abs(x) < 10 ** (-16), abs(t.coefficient) < 10 ** (-16))
