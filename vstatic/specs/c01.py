from typing import List
from andromede.expression.expression import *
from andromede.expression.expression import ScenarioIndex, TimeIndex
from andromede.expression.visitor import ExpressionVisitor, visit

OPTIONS = {"*": {"algebra": False}}


def impl_literal(x: float, v: ExpressionVisitor):
    return visit(LiteralNode(x), v)


def ref_literal(x: float, v: ExpressionVisitor):
    return v.literal(LiteralNode(x))


def impl_negation(a: ExpressionNode, v: ExpressionVisitor):
    return visit(NegationNode(a), v)


def ref_negation(a: ExpressionNode, v: ExpressionVisitor):
    return v.negation(NegationNode(a))


def impl_addition(ops: List[ExpressionNode], v: ExpressionVisitor):
    return visit(AdditionNode(ops), v)


def ref_addition(ops: List[ExpressionNode], v: ExpressionVisitor):
    return v.addition(AdditionNode(ops))


def impl_multiplication(a: ExpressionNode, b: ExpressionNode, v: ExpressionVisitor):
    return visit(MultiplicationNode(a, b), v)


def ref_multiplication(a: ExpressionNode, b: ExpressionNode, v: ExpressionVisitor):
    return v.multiplication(MultiplicationNode(a, b))


def impl_division(a: ExpressionNode, b: ExpressionNode, v: ExpressionVisitor):
    return visit(DivisionNode(a, b), v)


def ref_division(a: ExpressionNode, b: ExpressionNode, v: ExpressionVisitor):
    return v.division(DivisionNode(a, b))


def impl_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, v: ExpressionVisitor):
    return visit(ComparisonNode(a, b, c), v)


def ref_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, v: ExpressionVisitor):
    return v.comparison(ComparisonNode(a, b, c))


def impl_variable(n: str, v: ExpressionVisitor):
    return visit(VariableNode(n), v)


def ref_variable(n: str, v: ExpressionVisitor):
    return v.variable(VariableNode(n))


def impl_parameter(n: str, v: ExpressionVisitor):
    return visit(ParameterNode(n), v)


def ref_parameter(n: str, v: ExpressionVisitor):
    return v.parameter(ParameterNode(n))


def impl_comp_parameter(c: str, n: str, v: ExpressionVisitor):
    return visit(ComponentParameterNode(c, n), v)


def ref_comp_parameter(c: str, n: str, v: ExpressionVisitor):
    return v.comp_parameter(ComponentParameterNode(c, n))


def impl_comp_variable(c: str, n: str, v: ExpressionVisitor):
    return visit(ComponentVariableNode(c, n), v)


def ref_comp_variable(c: str, n: str, v: ExpressionVisitor):
    return v.comp_variable(ComponentVariableNode(c, n))


def impl_pb_parameter(c: str, n: str, t: TimeIndex, s: ScenarioIndex, v: ExpressionVisitor):
    return visit(ProblemParameterNode(c, n, t, s), v)


def ref_pb_parameter(c: str, n: str, t: TimeIndex, s: ScenarioIndex, v: ExpressionVisitor):
    return v.pb_parameter(ProblemParameterNode(c, n, t, s))


def impl_pb_variable(c: str, n: str, t: TimeIndex, s: ScenarioIndex, v: ExpressionVisitor):
    return visit(ProblemVariableNode(c, n, t, s), v)


def ref_pb_variable(c: str, n: str, t: TimeIndex, s: ScenarioIndex, v: ExpressionVisitor):
    return v.pb_variable(ProblemVariableNode(c, n, t, s))


def impl_time_shift(a: ExpressionNode, b: ExpressionNode, v: ExpressionVisitor):
    return visit(TimeShiftNode(a, b), v)


def ref_time_shift(a: ExpressionNode, b: ExpressionNode, v: ExpressionVisitor):
    return v.time_shift(TimeShiftNode(a, b))


def impl_time_eval(a: ExpressionNode, b: ExpressionNode, v: ExpressionVisitor):
    return visit(TimeEvalNode(a, b), v)


def ref_time_eval(a: ExpressionNode, b: ExpressionNode, v: ExpressionVisitor):
    return v.time_eval(TimeEvalNode(a, b))


def impl_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, v: ExpressionVisitor):
    return visit(TimeSumNode(a, b, c), v)


def ref_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, v: ExpressionVisitor):
    return v.time_sum(TimeSumNode(a, b, c))


def impl_all_time_sum(a: ExpressionNode, v: ExpressionVisitor):
    return visit(AllTimeSumNode(a), v)


def ref_all_time_sum(a: ExpressionNode, v: ExpressionVisitor):
    return v.all_time_sum(AllTimeSumNode(a))


def impl_scenario_operator(a: ExpressionNode, n: str, v: ExpressionVisitor):
    return visit(ScenarioOperatorNode(a, n), v)


def ref_scenario_operator(a: ExpressionNode, n: str, v: ExpressionVisitor):
    return v.scenario_operator(ScenarioOperatorNode(a, n))


def impl_port_field(p: str, f: str, v: ExpressionVisitor):
    return visit(PortFieldNode(p, f), v)


def ref_port_field(p: str, f: str, v: ExpressionVisitor):
    return v.port_field(PortFieldNode(p, f))


def impl_port_field_aggregator(a: ExpressionNode, n: str, v: ExpressionVisitor):
    return visit(PortFieldAggregatorNode(a, n), v)


def ref_port_field_aggregator(a: ExpressionNode, n: str, v: ExpressionVisitor):
    return v.port_field_aggregator(PortFieldAggregatorNode(a, n))


def impl_unknown_bare(v: ExpressionVisitor):
    return visit(ExpressionNode(), v)


def ref_unknown_bare(v: ExpressionVisitor):
    raise ValueError("")


def impl_unknown_unary(a: ExpressionNode, v: ExpressionVisitor):
    return visit(UnaryOperatorNode(a), v)


def ref_unknown_unary(a: ExpressionNode, v: ExpressionVisitor):
    raise ValueError("")


def impl_unknown_binary(a: ExpressionNode, b: ExpressionNode, v: ExpressionVisitor):
    return visit(BinaryOperatorNode(a, b), v)


def ref_unknown_binary(a: ExpressionNode, b: ExpressionNode, v: ExpressionVisitor):
    raise ValueError("")
