from typing import List, Optional
from andromede.expression.expression import *
from andromede.expression.expression import sum_expressions, is_unbounded, is_non_negative

OPTIONS = {"*": {"algebra": False, "denote": True}}


def impl_add(a: ExpressionNode, b: ExpressionNode):
    return a + b


def ref_add(a: ExpressionNode, b: ExpressionNode):
    return AdditionNode([a, b])


def impl_add_num(a: ExpressionNode, k: float):
    return a + k


def ref_add_num(a: ExpressionNode, k: float):
    return AdditionNode([a, LiteralNode(k)])


def impl_add_int(a: ExpressionNode, k: int):
    return a + k


def ref_add_int(a: ExpressionNode, k: int):
    return AdditionNode([a, LiteralNode(k)])


def impl_radd(a: ExpressionNode, k: float):
    return k + a


def ref_radd(a: ExpressionNode, k: float):
    return AdditionNode([LiteralNode(k), a])


def impl_sub(a: ExpressionNode, b: ExpressionNode):
    return a - b


def ref_sub(a: ExpressionNode, b: ExpressionNode):
    return AdditionNode([a, NegationNode(b)])


def impl_sub_num(a: ExpressionNode, k: float):
    return a - k


def ref_sub_num(a: ExpressionNode, k: float):
    return AdditionNode([a, NegationNode(LiteralNode(k))])


def impl_rsub(a: ExpressionNode, k: float):
    return k - a


def ref_rsub(a: ExpressionNode, k: float):
    return AdditionNode([LiteralNode(k), NegationNode(a)])


def impl_neg(a: ExpressionNode):
    return -a


def ref_neg(a: ExpressionNode):
    return NegationNode(a)


def impl_mul(a: ExpressionNode, b: ExpressionNode):
    return a * b


def ref_mul(a: ExpressionNode, b: ExpressionNode):
    return MultiplicationNode(a, b)


def impl_mul_num(a: ExpressionNode, k: float):
    return a * k


def ref_mul_num(a: ExpressionNode, k: float):
    return MultiplicationNode(a, LiteralNode(k))


def impl_rmul(a: ExpressionNode, k: float):
    return k * a


def ref_rmul(a: ExpressionNode, k: float):
    return MultiplicationNode(LiteralNode(k), a)


def impl_div(a: ExpressionNode, b: ExpressionNode):
    return a / b


def ref_div(a: ExpressionNode, b: ExpressionNode):
    return DivisionNode(a, b)


def impl_div_num(a: ExpressionNode, k: float):
    return a / k


def ref_div_num(a: ExpressionNode, k: float):
    return DivisionNode(a, LiteralNode(k))


def impl_rdiv(a: ExpressionNode, k: float):
    return k / a


def ref_rdiv(a: ExpressionNode, k: float):
    return DivisionNode(LiteralNode(k), a)


def impl_le(a: ExpressionNode, b: ExpressionNode):
    return a <= b


def ref_le(a: ExpressionNode, b: ExpressionNode):
    return ComparisonNode(a, b, Comparator.LESS_THAN)


def impl_ge(a: ExpressionNode, b: ExpressionNode):
    return a >= b


def ref_ge(a: ExpressionNode, b: ExpressionNode):
    return ComparisonNode(a, b, Comparator.GREATER_THAN)


def impl_eq(a: ExpressionNode, b: ExpressionNode):
    return a == b


def ref_eq(a: ExpressionNode, b: ExpressionNode):
    return ComparisonNode(a, b, Comparator.EQUAL)


def impl_le_num(a: ExpressionNode, k: float):
    return a <= k


def ref_le_num(a: ExpressionNode, k: float):
    return ComparisonNode(a, LiteralNode(k), Comparator.LESS_THAN)


def impl_ge_num(a: ExpressionNode, k: float):
    return a >= k


def ref_ge_num(a: ExpressionNode, k: float):
    return ComparisonNode(a, LiteralNode(k), Comparator.GREATER_THAN)


def impl_eq_num(a: ExpressionNode, k: float):
    return a == k


def ref_eq_num(a: ExpressionNode, k: float):
    return ComparisonNode(a, LiteralNode(k), Comparator.EQUAL)


def impl_shift(a: ExpressionNode, b: ExpressionNode):
    return a.shift(b)


def ref_shift(a: ExpressionNode, b: ExpressionNode):
    return TimeShiftNode(a, b)


def impl_shift_num(a: ExpressionNode, k: int):
    return a.shift(k)


def ref_shift_num(a: ExpressionNode, k: int):
    return TimeShiftNode(a, LiteralNode(k))


def impl_eval(a: ExpressionNode, b: ExpressionNode):
    return a.eval(b)


def ref_eval(a: ExpressionNode, b: ExpressionNode):
    return TimeEvalNode(a, b)


def impl_eval_num(a: ExpressionNode, k: int):
    return a.eval(k)


def ref_eval_num(a: ExpressionNode, k: int):
    return TimeEvalNode(a, LiteralNode(k))


def impl_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode):
    return a.time_sum(b, c)


def ref_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode):
    return TimeSumNode(a, b, c)


def impl_time_sum_num(a: ExpressionNode, b: int, c: int):
    return a.time_sum(b, c)


def ref_time_sum_num(a: ExpressionNode, b: int, c: int):
    return TimeSumNode(a, LiteralNode(b), LiteralNode(c))


def impl_all_time_sum(a: ExpressionNode):
    return a.time_sum()


def ref_all_time_sum(a: ExpressionNode):
    return AllTimeSumNode(a)


def impl_time_sum_missing(a: ExpressionNode, b: ExpressionNode):
    return a.time_sum(b)


def ref_time_sum_missing(a: ExpressionNode, b: ExpressionNode):
    raise ValueError("both bounds")


def impl_time_sum_missing2(a: ExpressionNode, b: ExpressionNode):
    return a.time_sum(None, b)


def ref_time_sum_missing2(a: ExpressionNode, b: ExpressionNode):
    raise ValueError("both bounds")


def impl_expec(a: ExpressionNode):
    return a.expec()


def ref_expec(a: ExpressionNode):
    return ScenarioOperatorNode(a, "Expectation")


def impl_variance(a: ExpressionNode):
    return a.variance()


def ref_variance(a: ExpressionNode):
    return ScenarioOperatorNode(a, "Variance")


def impl_sum_connections(a: ExpressionNode):
    return a.sum_connections()


def ref_sum_connections(a: ExpressionNode):
    if not isinstance(a, PortFieldNode):
        raise ValueError("port fields only")
    return PortFieldAggregatorNode(a, "PortSum")


def impl_sum(es: List[ExpressionNode]):
    return sum_expressions(es)


def ref_sum(es: List[ExpressionNode]):
    return AdditionNode([e for e in es])


def impl_unbounded(v: float):
    return is_unbounded(LiteralNode(v))


def ref_unbounded(v: float):
    return abs(v) == float("inf")


def impl_nonneg(v: float):
    return is_non_negative(LiteralNode(v))


def ref_nonneg(v: float):
    return v >= 0


def impl_wrap_bad(a: ExpressionNode, s: str):
    return a + s


def ref_wrap_bad(a: ExpressionNode, s: str):
    raise TypeError("not an expression")


def impl_add_sums(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, d: ExpressionNode):
    return AdditionNode([a, b]) + AdditionNode([c, d])


def ref_add_sums(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, d: ExpressionNode):
    return AdditionNode([a, b, c, d])


def impl_sub_sums(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, d: ExpressionNode):
    return AdditionNode([a, b]) - AdditionNode([c, d])


def ref_sub_sums(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, d: ExpressionNode):
    return AdditionNode([a, b, NegationNode(c), NegationNode(d)])


def impl_rsub_sums(a: ExpressionNode, b: ExpressionNode, k: float):
    return k - AdditionNode([a, b])


def ref_rsub_sums(a: ExpressionNode, b: ExpressionNode, k: float):
    return AdditionNode([LiteralNode(k), NegationNode(a), NegationNode(b)])


def impl_literal(v: float):
    return literal(v)


def ref_literal(v: float):
    return LiteralNode(v)


def impl_var(n: str):
    return var(n)


def ref_var(n: str):
    return VariableNode(n)


def impl_param(n: str):
    return param(n)


def ref_param(n: str):
    return ParameterNode(n)


def impl_comp_var(c: str, n: str):
    return comp_var(c, n)


def ref_comp_var(c: str, n: str):
    return ComponentVariableNode(component_id=c, name=n)


def impl_comp_param(c: str, n: str):
    return comp_param(c, n)


def ref_comp_param(c: str, n: str):
    return ComponentParameterNode(component_id=c, name=n)


def impl_port_field(p: str, f: str):
    return port_field(p, f)


def ref_port_field(p: str, f: str):
    return PortFieldNode(port_name=p, field_name=f)
