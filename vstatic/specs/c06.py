from typing import Dict, List, Optional
from andromede.expression.expression import *
from andromede.expression.degree import compute_degree, is_constant, is_linear


def impl_literal(v: float):
    return compute_degree(LiteralNode(v))


def ref_literal(v: float):
    return 0


def impl_negation(a: ExpressionNode):
    return compute_degree(NegationNode(a))


def ref_negation(a: ExpressionNode):
    return compute_degree(a)


def impl_addition(ops: List[ExpressionNode]):
    return compute_degree(AdditionNode(ops))


def ref_addition(ops: List[ExpressionNode]):
    return max([compute_degree(o) for o in ops])


def impl_multiplication(a: ExpressionNode, b: ExpressionNode):
    return compute_degree(MultiplicationNode(a, b))


def ref_multiplication(a: ExpressionNode, b: ExpressionNode):
    return compute_degree(a) + compute_degree(b)


def impl_division(a: ExpressionNode, b: ExpressionNode):
    return compute_degree(DivisionNode(a, b))


def ref_division(a: ExpressionNode, b: ExpressionNode):
    if compute_degree(b) != 0:
        raise ValueError('no')
    return compute_degree(a)


def impl_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator):
    return compute_degree(ComparisonNode(a, b, c))


def ref_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator):
    return max(compute_degree(a), compute_degree(b))


def impl_variable(n: str):
    return compute_degree(VariableNode(n))


def ref_variable(n: str):
    return 1


def impl_parameter(n: str):
    return compute_degree(ParameterNode(n))


def ref_parameter(n: str):
    return 0


def impl_comp_variable(i: str, n: str):
    return compute_degree(ComponentVariableNode(i, n))


def ref_comp_variable(i: str, n: str):
    return 1


def impl_comp_parameter(i: str, n: str):
    return compute_degree(ComponentParameterNode(i, n))


def ref_comp_parameter(i: str, n: str):
    return 0


def impl_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex):
    return compute_degree(ProblemVariableNode(i, n, t, s))


def ref_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex):
    return 1


def impl_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex):
    return compute_degree(ProblemParameterNode(i, n, t, s))


def ref_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex):
    return 0


def impl_time_shift(a: ExpressionNode, b: ExpressionNode):
    return compute_degree(TimeShiftNode(a, b))


def ref_time_shift(a: ExpressionNode, b: ExpressionNode):
    return compute_degree(a)


def impl_time_eval(a: ExpressionNode, b: ExpressionNode):
    return compute_degree(TimeEvalNode(a, b))


def ref_time_eval(a: ExpressionNode, b: ExpressionNode):
    return compute_degree(a)


def impl_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode):
    return compute_degree(TimeSumNode(a, b, c))


def ref_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode):
    return compute_degree(a)


def impl_all_time_sum(a: ExpressionNode):
    return compute_degree(AllTimeSumNode(a))


def ref_all_time_sum(a: ExpressionNode):
    return compute_degree(a)


def impl_expectation(a: ExpressionNode):
    return compute_degree(ScenarioOperatorNode(a, 'Expectation'))


def ref_expectation(a: ExpressionNode):
    return compute_degree(a)


def impl_variance(a: ExpressionNode):
    return compute_degree(ScenarioOperatorNode(a, 'Variance'))


def ref_variance(a: ExpressionNode):
    return 2 * compute_degree(a)


def impl_port_field(p: str, f: str):
    return compute_degree(PortFieldNode(p, f))


def ref_port_field(p: str, f: str):
    return 1


def impl_port_field_aggregator(a: ExpressionNode):
    return compute_degree(PortFieldAggregatorNode(a, 'PortSum'))


def ref_port_field_aggregator(a: ExpressionNode):
    return compute_degree(a)


def impl_is_constant(a: ExpressionNode):
    return is_constant(a)


def ref_is_constant(a: ExpressionNode):
    return compute_degree(a) == 0


def impl_is_linear(a: ExpressionNode):
    return is_linear(a)


def ref_is_linear(a: ExpressionNode):
    return compute_degree(a) <= 1
