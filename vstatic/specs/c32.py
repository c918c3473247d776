from andromede.simulation.linear_expression import LinearExpression, Term, _str_for_coeff
from typing import Dict, List, Optional
from andromede.expression.expression import *
from andromede.expression.print import print_expr


def impl_literal(v: float):
    return print_expr(LiteralNode(v))


def ref_literal(v: float):
    return str(v)


def impl_negation(a: ExpressionNode):
    return print_expr(NegationNode(a))


def ref_negation(a: ExpressionNode):
    return f"-({print_expr(a)})"


def impl_multiplication(a: ExpressionNode, b: ExpressionNode):
    return print_expr(MultiplicationNode(a, b))


def ref_multiplication(a: ExpressionNode, b: ExpressionNode):
    return f"({print_expr(a)} * {print_expr(b)})"


def impl_division(a: ExpressionNode, b: ExpressionNode):
    return print_expr(DivisionNode(a, b))


def ref_division(a: ExpressionNode, b: ExpressionNode):
    return f"({print_expr(a)} / {print_expr(b)})"


def impl_variable(n: str):
    return print_expr(VariableNode(n))


def ref_variable(n: str):
    return n


def impl_parameter(n: str):
    return print_expr(ParameterNode(n))


def ref_parameter(n: str):
    return n


def impl_comp_variable(i: str, n: str):
    return print_expr(ComponentVariableNode(i, n))


def ref_comp_variable(i: str, n: str):
    return f"{i}.{n}"


def impl_comp_parameter(i: str, n: str):
    return print_expr(ComponentParameterNode(i, n))


def ref_comp_parameter(i: str, n: str):
    return f"{i}.{n}"


def impl_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex):
    return print_expr(ProblemVariableNode(i, n, t, s))


def ref_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex):
    return f"{i}.{n}"


def impl_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex):
    return print_expr(ProblemParameterNode(i, n, t, s))


def ref_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex):
    return f"{i}.{n}"


def impl_time_shift(a: ExpressionNode, b: ExpressionNode):
    return print_expr(TimeShiftNode(a, b))


def ref_time_shift(a: ExpressionNode, b: ExpressionNode):
    return f"({print_expr(a)}.shift({print_expr(b)}))"


def impl_time_eval(a: ExpressionNode, b: ExpressionNode):
    return print_expr(TimeEvalNode(a, b))


def ref_time_eval(a: ExpressionNode, b: ExpressionNode):
    return f"({print_expr(a)}.eval({print_expr(b)}))"


def impl_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode):
    return print_expr(TimeSumNode(a, b, c))


def ref_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode):
    return f"({print_expr(a)}.time_sum({print_expr(b)}, {print_expr(c)}))"


def impl_all_time_sum(a: ExpressionNode):
    return print_expr(AllTimeSumNode(a))


def ref_all_time_sum(a: ExpressionNode):
    return f"({print_expr(a)}.time_sum())"


def impl_expectation(a: ExpressionNode):
    return print_expr(ScenarioOperatorNode(a, 'Expectation'))


def ref_expectation(a: ExpressionNode):
    return f"({print_expr(a)}.Expectation)"


def impl_variance(a: ExpressionNode):
    return print_expr(ScenarioOperatorNode(a, 'Variance'))


def ref_variance(a: ExpressionNode):
    return f"({print_expr(a)}.Variance)"


def impl_port_field(p: str, f: str):
    return print_expr(PortFieldNode(p, f))


def ref_port_field(p: str, f: str):
    return f"{p}.{f}"


def impl_port_field_aggregator(a: ExpressionNode):
    return print_expr(PortFieldAggregatorNode(a, 'PortSum'))


def ref_port_field_aggregator(a: ExpressionNode):
    return f"({print_expr(a)}.PortSum)"


def impl_cmp_le(a: ExpressionNode, b: ExpressionNode):
    return print_expr(ComparisonNode(a, b, Comparator.LESS_THAN))


def ref_cmp_le(a: ExpressionNode, b: ExpressionNode):
    return f"{print_expr(a)} <= {print_expr(b)}"


def impl_cmp_ge(a: ExpressionNode, b: ExpressionNode):
    return print_expr(ComparisonNode(a, b, Comparator.GREATER_THAN))


def ref_cmp_ge(a: ExpressionNode, b: ExpressionNode):
    return f"{print_expr(a)} >= {print_expr(b)}"


def impl_cmp_eq(a: ExpressionNode, b: ExpressionNode):
    return print_expr(ComparisonNode(a, b, Comparator.EQUAL))


def ref_cmp_eq(a: ExpressionNode, b: ExpressionNode):
    return f"{print_expr(a)} == {print_expr(b)}"


def impl_add_plus(a: ExpressionNode, b: VariableNode):
    return print_expr(AdditionNode([a, b]))


def ref_add_plus(a: ExpressionNode, b: VariableNode):
    return f"({print_expr(a)} + {print_expr(b)})"


def impl_add_three(a: ExpressionNode, b: VariableNode, c: ParameterNode):
    return print_expr(AdditionNode([a, b, c]))


def ref_add_three(a: ExpressionNode, b: VariableNode, c: ParameterNode):
    return f"({print_expr(a)} + {print_expr(b)} + {print_expr(c)})"


def impl_add_minus(a: ExpressionNode, b: VariableNode):
    return print_expr(AdditionNode([a, NegationNode(b)]))


def ref_add_minus(a: ExpressionNode, b: VariableNode):
    return f"({print_expr(a)} - {print_expr(b)})"


def impl_term(k: float, c: str, n: str, t: Optional[int], s: Optional[int]):
    return repr(Term(k, c, n, t, s))


def ref_term(k: float, c: str, n: str, t: Optional[int], s: Optional[int]):
    return f"{_str_for_coeff(k)}{c}.{n}[{t},{s}]"


def impl_coefficient(k: float):
    return _str_for_coeff(k)


def ref_coefficient(k: float):
    if abs(k - 1) < 10 ** (-16):
        return "+"
    if abs(k - (-1)) < 10 ** (-16):
        return "-"
    return "{:+g}".format(k)


def impl_linear(a: Term, b: Term, k: float):
    return repr(LinearExpression([a, b], k))


def ref_linear(a: Term, b: Term, k: float):
    e = LinearExpression([a, b], k)
    if len(e.terms) == 0 and abs(k) < 10 ** (-16):
        return "0"
    r = ""
    for t in e.terms.values():
        r += repr(t)
    if not abs(k) < 10 ** (-16):
        r += "{:+g}".format(k)
    return r
