from typing import Dict, List, Optional
from andromede.expression.expression import *
from andromede.expression.evaluate import *
from andromede.expression.evaluate import evaluate, ValueProvider, EvaluationContext


def impl_literal(v: float, vp: ValueProvider):
    return evaluate(LiteralNode(v), vp)


def ref_literal(v: float, vp: ValueProvider):
    return v


def impl_negation(a: ExpressionNode, vp: ValueProvider):
    return evaluate(NegationNode(a), vp)


def ref_negation(a: ExpressionNode, vp: ValueProvider):
    return -evaluate(a, vp)


def impl_addition(ops: List[ExpressionNode], vp: ValueProvider):
    return evaluate(AdditionNode(ops), vp)


def ref_addition(ops: List[ExpressionNode], vp: ValueProvider):
    return sum([evaluate(o, vp) for o in ops])


def impl_multiplication(a: ExpressionNode, b: ExpressionNode, vp: ValueProvider):
    return evaluate(MultiplicationNode(a, b), vp)


def ref_multiplication(a: ExpressionNode, b: ExpressionNode, vp: ValueProvider):
    return evaluate(a, vp) * evaluate(b, vp)


def impl_division(a: ExpressionNode, b: ExpressionNode, vp: ValueProvider):
    return evaluate(DivisionNode(a, b), vp)


def ref_division(a: ExpressionNode, b: ExpressionNode, vp: ValueProvider):
    return evaluate(a, vp) / evaluate(b, vp)


def impl_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, vp: ValueProvider):
    return evaluate(ComparisonNode(a, b, c), vp)


def ref_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, vp: ValueProvider):
    raise ValueError('no')


def impl_variable(n: str, vp: ValueProvider):
    return evaluate(VariableNode(n), vp)


def ref_variable(n: str, vp: ValueProvider):
    return vp.get_variable_value(n)


def impl_parameter(n: str, vp: ValueProvider):
    return evaluate(ParameterNode(n), vp)


def ref_parameter(n: str, vp: ValueProvider):
    return vp.get_parameter_value(n)


def impl_comp_variable(i: str, n: str, vp: ValueProvider):
    return evaluate(ComponentVariableNode(i, n), vp)


def ref_comp_variable(i: str, n: str, vp: ValueProvider):
    return vp.get_component_variable_value(i, n)


def impl_comp_parameter(i: str, n: str, vp: ValueProvider):
    return evaluate(ComponentParameterNode(i, n), vp)


def ref_comp_parameter(i: str, n: str, vp: ValueProvider):
    return vp.get_component_parameter_value(i, n)


def impl_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex, vp: ValueProvider):
    return evaluate(ProblemVariableNode(i, n, t, s), vp)


def ref_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex, vp: ValueProvider):
    raise ValueError('no')


def impl_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex, vp: ValueProvider):
    return evaluate(ProblemParameterNode(i, n, t, s), vp)


def ref_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex, vp: ValueProvider):
    raise ValueError('no')


def impl_time_shift(a: ExpressionNode, b: ExpressionNode, vp: ValueProvider):
    return evaluate(TimeShiftNode(a, b), vp)


def ref_time_shift(a: ExpressionNode, b: ExpressionNode, vp: ValueProvider):
    raise ValueError('no')


def impl_time_eval(a: ExpressionNode, b: ExpressionNode, vp: ValueProvider):
    return evaluate(TimeEvalNode(a, b), vp)


def ref_time_eval(a: ExpressionNode, b: ExpressionNode, vp: ValueProvider):
    raise ValueError('no')


def impl_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, vp: ValueProvider):
    return evaluate(TimeSumNode(a, b, c), vp)


def ref_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, vp: ValueProvider):
    raise ValueError('no')


def impl_all_time_sum(a: ExpressionNode, vp: ValueProvider):
    return evaluate(AllTimeSumNode(a), vp)


def ref_all_time_sum(a: ExpressionNode, vp: ValueProvider):
    raise ValueError('no')


def impl_expectation(a: ExpressionNode, vp: ValueProvider):
    return evaluate(ScenarioOperatorNode(a, 'Expectation'), vp)


def ref_expectation(a: ExpressionNode, vp: ValueProvider):
    raise ValueError('no')


def impl_variance(a: ExpressionNode, vp: ValueProvider):
    return evaluate(ScenarioOperatorNode(a, 'Variance'), vp)


def ref_variance(a: ExpressionNode, vp: ValueProvider):
    raise ValueError('no')


def impl_port_field(p: str, f: str, vp: ValueProvider):
    return evaluate(PortFieldNode(p, f), vp)


def ref_port_field(p: str, f: str, vp: ValueProvider):
    raise ValueError('no')


def impl_port_field_aggregator(a: ExpressionNode, vp: ValueProvider):
    return evaluate(PortFieldAggregatorNode(a, 'PortSum'), vp)


def ref_port_field_aggregator(a: ExpressionNode, vp: ValueProvider):
    raise ValueError('no')


def impl_ctx_variable(vs: Dict[str, float], ps: Dict[str, float], n: str):
    return evaluate(VariableNode(n), EvaluationContext(vs, ps))


def ref_ctx_variable(vs: Dict[str, float], ps: Dict[str, float], n: str):
    return vs[n]


def impl_ctx_parameter(vs: Dict[str, float], ps: Dict[str, float], n: str):
    return evaluate(ParameterNode(n), EvaluationContext(vs, ps))


def ref_ctx_parameter(vs: Dict[str, float], ps: Dict[str, float], n: str):
    return ps[n]


def impl_ctx_component_variable(vs: Dict[str, float], ps: Dict[str, float], c: str, n: str):
    return EvaluationContext(vs, ps).get_component_variable_value(c, n)


def ref_ctx_component_variable(vs: Dict[str, float], ps: Dict[str, float], c: str, n: str):
    raise NotImplementedError()


def impl_ctx_component_parameter(vs: Dict[str, float], ps: Dict[str, float], c: str, n: str):
    return EvaluationContext(vs, ps).get_component_parameter_value(c, n)


def ref_ctx_component_parameter(vs: Dict[str, float], ps: Dict[str, float], c: str, n: str):
    raise NotImplementedError()
