from typing import Dict, List, Optional
from andromede.expression.expression import *
from andromede.expression.copy import copy_expression
from andromede.expression.context_adder import add_component_context
from andromede.expression.evaluate_parameters import resolve_parameters, ParameterValueProvider
from andromede.expression.port_resolver import resolve_port, PortFieldKey, PortFieldId
from andromede.expression.operators_expansion import apply_timeshift, apply_timestep, apply_scenario
from andromede.expression.expression import sum_expressions


def ctx(e: ExpressionNode, cid: str):
    return add_component_context(cid, e)


def impl_copy_literal(v: float):
    return copy_expression(LiteralNode(v))


def ref_copy_literal(v: float):
    return LiteralNode(v)


def impl_copy_negation(a: ExpressionNode):
    return copy_expression(NegationNode(a))


def ref_copy_negation(a: ExpressionNode):
    return NegationNode(copy_expression(a))


def impl_copy_addition(ops: List[ExpressionNode]):
    return copy_expression(AdditionNode(ops))


def ref_copy_addition(ops: List[ExpressionNode]):
    return AdditionNode([copy_expression(o) for o in ops])


def impl_copy_multiplication(a: ExpressionNode, b: ExpressionNode):
    return copy_expression(MultiplicationNode(a, b))


def ref_copy_multiplication(a: ExpressionNode, b: ExpressionNode):
    return MultiplicationNode(copy_expression(a), copy_expression(b))


def impl_copy_division(a: ExpressionNode, b: ExpressionNode):
    return copy_expression(DivisionNode(a, b))


def ref_copy_division(a: ExpressionNode, b: ExpressionNode):
    return DivisionNode(copy_expression(a), copy_expression(b))


def impl_copy_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator):
    return copy_expression(ComparisonNode(a, b, c))


def ref_copy_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator):
    return ComparisonNode(copy_expression(a), copy_expression(b), c)


def impl_copy_variable(n: str):
    return copy_expression(VariableNode(n))


def ref_copy_variable(n: str):
    return VariableNode(n)


def impl_copy_parameter(n: str):
    return copy_expression(ParameterNode(n))


def ref_copy_parameter(n: str):
    return ParameterNode(n)


def impl_copy_comp_variable(i: str, n: str):
    return copy_expression(ComponentVariableNode(i, n))


def ref_copy_comp_variable(i: str, n: str):
    return ComponentVariableNode(i, n)


def impl_copy_comp_parameter(i: str, n: str):
    return copy_expression(ComponentParameterNode(i, n))


def ref_copy_comp_parameter(i: str, n: str):
    return ComponentParameterNode(i, n)


def impl_copy_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex):
    return copy_expression(ProblemVariableNode(i, n, t, s))


def ref_copy_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex):
    return ProblemVariableNode(i, n, t, s)


def impl_copy_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex):
    return copy_expression(ProblemParameterNode(i, n, t, s))


def ref_copy_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex):
    return ProblemParameterNode(i, n, t, s)


def impl_copy_time_shift(a: ExpressionNode, b: ExpressionNode):
    return copy_expression(TimeShiftNode(a, b))


def ref_copy_time_shift(a: ExpressionNode, b: ExpressionNode):
    return TimeShiftNode(copy_expression(a), copy_expression(b))


def impl_copy_time_eval(a: ExpressionNode, b: ExpressionNode):
    return copy_expression(TimeEvalNode(a, b))


def ref_copy_time_eval(a: ExpressionNode, b: ExpressionNode):
    return TimeEvalNode(copy_expression(a), copy_expression(b))


def impl_copy_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode):
    return copy_expression(TimeSumNode(a, b, c))


def ref_copy_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode):
    return TimeSumNode(copy_expression(a), copy_expression(b), copy_expression(c))


def impl_copy_all_time_sum(a: ExpressionNode):
    return copy_expression(AllTimeSumNode(a))


def ref_copy_all_time_sum(a: ExpressionNode):
    return AllTimeSumNode(copy_expression(a))


def impl_copy_scenario_operator(a: ExpressionNode):
    return copy_expression(ScenarioOperatorNode(a, 'Expectation'))


def ref_copy_scenario_operator(a: ExpressionNode):
    return ScenarioOperatorNode(copy_expression(a), 'Expectation')


def impl_copy_scenario_operator_var(a: ExpressionNode):
    return copy_expression(ScenarioOperatorNode(a, 'Variance'))


def ref_copy_scenario_operator_var(a: ExpressionNode):
    return ScenarioOperatorNode(copy_expression(a), 'Variance')


def impl_copy_port_field(p: str, f: str):
    return copy_expression(PortFieldNode(p, f))


def ref_copy_port_field(p: str, f: str):
    return PortFieldNode(p, f)


def impl_copy_port_field_aggregator(a: ExpressionNode):
    return copy_expression(PortFieldAggregatorNode(a, 'PortSum'))


def ref_copy_port_field_aggregator(a: ExpressionNode):
    return PortFieldAggregatorNode(copy_expression(a), 'PortSum')


def impl_ctx_literal(v: float, cid: str):
    return add_component_context(cid, LiteralNode(v))


def ref_ctx_literal(v: float, cid: str):
    return LiteralNode(v)


def impl_ctx_negation(a: ExpressionNode, cid: str):
    return add_component_context(cid, NegationNode(a))


def ref_ctx_negation(a: ExpressionNode, cid: str):
    return NegationNode(ctx(a, cid))


def impl_ctx_addition(ops: List[ExpressionNode], cid: str):
    return add_component_context(cid, AdditionNode(ops))


def ref_ctx_addition(ops: List[ExpressionNode], cid: str):
    return AdditionNode([ctx(o, cid) for o in ops])


def impl_ctx_multiplication(a: ExpressionNode, b: ExpressionNode, cid: str):
    return add_component_context(cid, MultiplicationNode(a, b))


def ref_ctx_multiplication(a: ExpressionNode, b: ExpressionNode, cid: str):
    return MultiplicationNode(ctx(a, cid), ctx(b, cid))


def impl_ctx_division(a: ExpressionNode, b: ExpressionNode, cid: str):
    return add_component_context(cid, DivisionNode(a, b))


def ref_ctx_division(a: ExpressionNode, b: ExpressionNode, cid: str):
    return DivisionNode(ctx(a, cid), ctx(b, cid))


def impl_ctx_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, cid: str):
    return add_component_context(cid, ComparisonNode(a, b, c))


def ref_ctx_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, cid: str):
    return ComparisonNode(ctx(a, cid), ctx(b, cid), c)


def impl_ctx_variable(n: str, cid: str):
    return add_component_context(cid, VariableNode(n))


def ref_ctx_variable(n: str, cid: str):
    return ComponentVariableNode(cid, n)


def impl_ctx_parameter(n: str, cid: str):
    return add_component_context(cid, ParameterNode(n))


def ref_ctx_parameter(n: str, cid: str):
    return ComponentParameterNode(cid, n)


def impl_ctx_comp_variable(i: str, n: str, cid: str):
    return add_component_context(cid, ComponentVariableNode(i, n))


def ref_ctx_comp_variable(i: str, n: str, cid: str):
    raise ValueError('no')


def impl_ctx_comp_parameter(i: str, n: str, cid: str):
    return add_component_context(cid, ComponentParameterNode(i, n))


def ref_ctx_comp_parameter(i: str, n: str, cid: str):
    raise ValueError('no')


def impl_ctx_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex, cid: str):
    return add_component_context(cid, ProblemVariableNode(i, n, t, s))


def ref_ctx_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex, cid: str):
    raise ValueError('no')


def impl_ctx_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex, cid: str):
    return add_component_context(cid, ProblemParameterNode(i, n, t, s))


def ref_ctx_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex, cid: str):
    raise ValueError('no')


def impl_ctx_time_shift(a: ExpressionNode, b: ExpressionNode, cid: str):
    return add_component_context(cid, TimeShiftNode(a, b))


def ref_ctx_time_shift(a: ExpressionNode, b: ExpressionNode, cid: str):
    return TimeShiftNode(ctx(a, cid), ctx(b, cid))


def impl_ctx_time_eval(a: ExpressionNode, b: ExpressionNode, cid: str):
    return add_component_context(cid, TimeEvalNode(a, b))


def ref_ctx_time_eval(a: ExpressionNode, b: ExpressionNode, cid: str):
    return TimeEvalNode(ctx(a, cid), ctx(b, cid))


def impl_ctx_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, cid: str):
    return add_component_context(cid, TimeSumNode(a, b, c))


def ref_ctx_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, cid: str):
    return TimeSumNode(ctx(a, cid), ctx(b, cid), ctx(c, cid))


def impl_ctx_all_time_sum(a: ExpressionNode, cid: str):
    return add_component_context(cid, AllTimeSumNode(a))


def ref_ctx_all_time_sum(a: ExpressionNode, cid: str):
    return AllTimeSumNode(ctx(a, cid))


def impl_ctx_scenario_operator(a: ExpressionNode, cid: str):
    return add_component_context(cid, ScenarioOperatorNode(a, 'Expectation'))


def ref_ctx_scenario_operator(a: ExpressionNode, cid: str):
    return ScenarioOperatorNode(ctx(a, cid), 'Expectation')


def impl_ctx_scenario_operator_var(a: ExpressionNode, cid: str):
    return add_component_context(cid, ScenarioOperatorNode(a, 'Variance'))


def ref_ctx_scenario_operator_var(a: ExpressionNode, cid: str):
    return ScenarioOperatorNode(ctx(a, cid), 'Variance')


def impl_ctx_port_field(p: str, f: str, cid: str):
    return add_component_context(cid, PortFieldNode(p, f))


def ref_ctx_port_field(p: str, f: str, cid: str):
    return PortFieldNode(p, f)


def impl_ctx_port_field_aggregator(a: ExpressionNode, cid: str):
    return add_component_context(cid, PortFieldAggregatorNode(a, 'PortSum'))


def ref_ctx_port_field_aggregator(a: ExpressionNode, cid: str):
    return PortFieldAggregatorNode(ctx(a, cid), 'PortSum')


def impl_par_literal(v: float, prov: ParameterValueProvider):
    return resolve_parameters(LiteralNode(v), prov)


def ref_par_literal(v: float, prov: ParameterValueProvider):
    return LiteralNode(v)


def impl_par_negation(a: ExpressionNode, prov: ParameterValueProvider):
    return resolve_parameters(NegationNode(a), prov)


def ref_par_negation(a: ExpressionNode, prov: ParameterValueProvider):
    return NegationNode(resolve_parameters(a, prov))


def impl_par_addition(ops: List[ExpressionNode], prov: ParameterValueProvider):
    return resolve_parameters(AdditionNode(ops), prov)


def ref_par_addition(ops: List[ExpressionNode], prov: ParameterValueProvider):
    return AdditionNode([resolve_parameters(o, prov) for o in ops])


def impl_par_multiplication(a: ExpressionNode, b: ExpressionNode, prov: ParameterValueProvider):
    return resolve_parameters(MultiplicationNode(a, b), prov)


def ref_par_multiplication(a: ExpressionNode, b: ExpressionNode, prov: ParameterValueProvider):
    return MultiplicationNode(resolve_parameters(a, prov), resolve_parameters(b, prov))


def impl_par_division(a: ExpressionNode, b: ExpressionNode, prov: ParameterValueProvider):
    return resolve_parameters(DivisionNode(a, b), prov)


def ref_par_division(a: ExpressionNode, b: ExpressionNode, prov: ParameterValueProvider):
    return DivisionNode(resolve_parameters(a, prov), resolve_parameters(b, prov))


def impl_par_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, prov: ParameterValueProvider):
    return resolve_parameters(ComparisonNode(a, b, c), prov)


def ref_par_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, prov: ParameterValueProvider):
    return ComparisonNode(resolve_parameters(a, prov), resolve_parameters(b, prov), c)


def impl_par_variable(n: str, prov: ParameterValueProvider):
    return resolve_parameters(VariableNode(n), prov)


def ref_par_variable(n: str, prov: ParameterValueProvider):
    return VariableNode(n)


def impl_par_parameter(n: str, prov: ParameterValueProvider):
    return resolve_parameters(ParameterNode(n), prov)


def ref_par_parameter(n: str, prov: ParameterValueProvider):
    return LiteralNode(prov.get_parameter_value(n))


def impl_par_comp_variable(i: str, n: str, prov: ParameterValueProvider):
    return resolve_parameters(ComponentVariableNode(i, n), prov)


def ref_par_comp_variable(i: str, n: str, prov: ParameterValueProvider):
    return ComponentVariableNode(i, n)


def impl_par_comp_parameter(i: str, n: str, prov: ParameterValueProvider):
    return resolve_parameters(ComponentParameterNode(i, n), prov)


def ref_par_comp_parameter(i: str, n: str, prov: ParameterValueProvider):
    return LiteralNode(prov.get_component_parameter_value(i, n))


def impl_par_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex, prov: ParameterValueProvider):
    return resolve_parameters(ProblemVariableNode(i, n, t, s), prov)


def ref_par_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex, prov: ParameterValueProvider):
    return ProblemVariableNode(i, n, t, s)


def impl_par_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex, prov: ParameterValueProvider):
    return resolve_parameters(ProblemParameterNode(i, n, t, s), prov)


def ref_par_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex, prov: ParameterValueProvider):
    return ProblemParameterNode(i, n, t, s)


def impl_par_time_shift(a: ExpressionNode, b: ExpressionNode, prov: ParameterValueProvider):
    return resolve_parameters(TimeShiftNode(a, b), prov)


def ref_par_time_shift(a: ExpressionNode, b: ExpressionNode, prov: ParameterValueProvider):
    return TimeShiftNode(resolve_parameters(a, prov), resolve_parameters(b, prov))


def impl_par_time_eval(a: ExpressionNode, b: ExpressionNode, prov: ParameterValueProvider):
    return resolve_parameters(TimeEvalNode(a, b), prov)


def ref_par_time_eval(a: ExpressionNode, b: ExpressionNode, prov: ParameterValueProvider):
    return TimeEvalNode(resolve_parameters(a, prov), resolve_parameters(b, prov))


def impl_par_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, prov: ParameterValueProvider):
    return resolve_parameters(TimeSumNode(a, b, c), prov)


def ref_par_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, prov: ParameterValueProvider):
    return TimeSumNode(resolve_parameters(a, prov), resolve_parameters(b, prov), resolve_parameters(c, prov))


def impl_par_all_time_sum(a: ExpressionNode, prov: ParameterValueProvider):
    return resolve_parameters(AllTimeSumNode(a), prov)


def ref_par_all_time_sum(a: ExpressionNode, prov: ParameterValueProvider):
    return AllTimeSumNode(resolve_parameters(a, prov))


def impl_par_scenario_operator(a: ExpressionNode, prov: ParameterValueProvider):
    return resolve_parameters(ScenarioOperatorNode(a, 'Expectation'), prov)


def ref_par_scenario_operator(a: ExpressionNode, prov: ParameterValueProvider):
    return ScenarioOperatorNode(resolve_parameters(a, prov), 'Expectation')


def impl_par_scenario_operator_var(a: ExpressionNode, prov: ParameterValueProvider):
    return resolve_parameters(ScenarioOperatorNode(a, 'Variance'), prov)


def ref_par_scenario_operator_var(a: ExpressionNode, prov: ParameterValueProvider):
    return ScenarioOperatorNode(resolve_parameters(a, prov), 'Variance')


def impl_par_port_field(p: str, f: str, prov: ParameterValueProvider):
    return resolve_parameters(PortFieldNode(p, f), prov)


def ref_par_port_field(p: str, f: str, prov: ParameterValueProvider):
    return PortFieldNode(p, f)


def impl_par_port_field_aggregator(a: ExpressionNode, prov: ParameterValueProvider):
    return resolve_parameters(PortFieldAggregatorNode(a, 'PortSum'), prov)


def ref_par_port_field_aggregator(a: ExpressionNode, prov: ParameterValueProvider):
    return PortFieldAggregatorNode(resolve_parameters(a, prov), 'PortSum')


def impl_port_literal(v: float, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(LiteralNode(v), cid, exprs)


def ref_port_literal(v: float, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return LiteralNode(v)


def impl_port_negation(a: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(NegationNode(a), cid, exprs)


def ref_port_negation(a: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return NegationNode(resolve_port(a, cid, exprs))


def impl_port_addition(ops: List[ExpressionNode], cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(AdditionNode(ops), cid, exprs)


def ref_port_addition(ops: List[ExpressionNode], cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return AdditionNode([resolve_port(o, cid, exprs) for o in ops])


def impl_port_multiplication(a: ExpressionNode, b: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(MultiplicationNode(a, b), cid, exprs)


def ref_port_multiplication(a: ExpressionNode, b: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return MultiplicationNode(resolve_port(a, cid, exprs), resolve_port(b, cid, exprs))


def impl_port_division(a: ExpressionNode, b: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(DivisionNode(a, b), cid, exprs)


def ref_port_division(a: ExpressionNode, b: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return DivisionNode(resolve_port(a, cid, exprs), resolve_port(b, cid, exprs))


def impl_port_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(ComparisonNode(a, b, c), cid, exprs)


def ref_port_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return ComparisonNode(resolve_port(a, cid, exprs), resolve_port(b, cid, exprs), c)


def impl_port_variable(n: str, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(VariableNode(n), cid, exprs)


def ref_port_variable(n: str, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return VariableNode(n)


def impl_port_parameter(n: str, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(ParameterNode(n), cid, exprs)


def ref_port_parameter(n: str, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return ParameterNode(n)


def impl_port_comp_variable(i: str, n: str, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(ComponentVariableNode(i, n), cid, exprs)


def ref_port_comp_variable(i: str, n: str, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return ComponentVariableNode(i, n)


def impl_port_comp_parameter(i: str, n: str, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(ComponentParameterNode(i, n), cid, exprs)


def ref_port_comp_parameter(i: str, n: str, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return ComponentParameterNode(i, n)


def impl_port_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(ProblemVariableNode(i, n, t, s), cid, exprs)


def ref_port_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return ProblemVariableNode(i, n, t, s)


def impl_port_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(ProblemParameterNode(i, n, t, s), cid, exprs)


def ref_port_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return ProblemParameterNode(i, n, t, s)


def impl_port_time_shift(a: ExpressionNode, b: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(TimeShiftNode(a, b), cid, exprs)


def ref_port_time_shift(a: ExpressionNode, b: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return TimeShiftNode(resolve_port(a, cid, exprs), resolve_port(b, cid, exprs))


def impl_port_time_eval(a: ExpressionNode, b: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(TimeEvalNode(a, b), cid, exprs)


def ref_port_time_eval(a: ExpressionNode, b: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return TimeEvalNode(resolve_port(a, cid, exprs), resolve_port(b, cid, exprs))


def impl_port_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(TimeSumNode(a, b, c), cid, exprs)


def ref_port_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return TimeSumNode(resolve_port(a, cid, exprs), resolve_port(b, cid, exprs), resolve_port(c, cid, exprs))


def impl_port_all_time_sum(a: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(AllTimeSumNode(a), cid, exprs)


def ref_port_all_time_sum(a: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return AllTimeSumNode(resolve_port(a, cid, exprs))


def impl_port_scenario_operator(a: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(ScenarioOperatorNode(a, 'Expectation'), cid, exprs)


def ref_port_scenario_operator(a: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return ScenarioOperatorNode(resolve_port(a, cid, exprs), 'Expectation')


def impl_port_scenario_operator_var(a: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return resolve_port(ScenarioOperatorNode(a, 'Variance'), cid, exprs)


def ref_port_scenario_operator_var(a: ExpressionNode, cid: str, exprs: Dict[PortFieldKey, List[ExpressionNode]]):
    return ScenarioOperatorNode(resolve_port(a, cid, exprs), 'Variance')


def impl_shift_literal(v: float, k: int):
    return apply_timeshift(LiteralNode(v), k)


def ref_shift_literal(v: float, k: int):
    return LiteralNode(v)


def impl_shift_negation(a: ExpressionNode, k: int):
    return apply_timeshift(NegationNode(a), k)


def ref_shift_negation(a: ExpressionNode, k: int):
    return NegationNode(apply_timeshift(a, k))


def impl_shift_addition(ops: List[ExpressionNode], k: int):
    return apply_timeshift(AdditionNode(ops), k)


def ref_shift_addition(ops: List[ExpressionNode], k: int):
    return AdditionNode([apply_timeshift(o, k) for o in ops])


def impl_shift_multiplication(a: ExpressionNode, b: ExpressionNode, k: int):
    return apply_timeshift(MultiplicationNode(a, b), k)


def ref_shift_multiplication(a: ExpressionNode, b: ExpressionNode, k: int):
    return MultiplicationNode(apply_timeshift(a, k), apply_timeshift(b, k))


def impl_shift_division(a: ExpressionNode, b: ExpressionNode, k: int):
    return apply_timeshift(DivisionNode(a, b), k)


def ref_shift_division(a: ExpressionNode, b: ExpressionNode, k: int):
    return DivisionNode(apply_timeshift(a, k), apply_timeshift(b, k))


def impl_shift_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, k: int):
    return apply_timeshift(ComparisonNode(a, b, c), k)


def ref_shift_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, k: int):
    return ComparisonNode(apply_timeshift(a, k), apply_timeshift(b, k), c)


def impl_shift_variable(n: str, k: int):
    return apply_timeshift(VariableNode(n), k)


def ref_shift_variable(n: str, k: int):
    return VariableNode(n)


def impl_shift_parameter(n: str, k: int):
    return apply_timeshift(ParameterNode(n), k)


def ref_shift_parameter(n: str, k: int):
    return ParameterNode(n)


def impl_shift_comp_variable(i: str, n: str, k: int):
    return apply_timeshift(ComponentVariableNode(i, n), k)


def ref_shift_comp_variable(i: str, n: str, k: int):
    return ComponentVariableNode(i, n)


def impl_shift_comp_parameter(i: str, n: str, k: int):
    return apply_timeshift(ComponentParameterNode(i, n), k)


def ref_shift_comp_parameter(i: str, n: str, k: int):
    return ComponentParameterNode(i, n)


def impl_shift_time_shift(a: ExpressionNode, b: ExpressionNode, k: int):
    return apply_timeshift(TimeShiftNode(a, b), k)


def ref_shift_time_shift(a: ExpressionNode, b: ExpressionNode, k: int):
    return TimeShiftNode(apply_timeshift(a, k), apply_timeshift(b, k))


def impl_shift_time_eval(a: ExpressionNode, b: ExpressionNode, k: int):
    return apply_timeshift(TimeEvalNode(a, b), k)


def ref_shift_time_eval(a: ExpressionNode, b: ExpressionNode, k: int):
    return TimeEvalNode(apply_timeshift(a, k), apply_timeshift(b, k))


def impl_shift_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, k: int):
    return apply_timeshift(TimeSumNode(a, b, c), k)


def ref_shift_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, k: int):
    return TimeSumNode(apply_timeshift(a, k), apply_timeshift(b, k), apply_timeshift(c, k))


def impl_shift_all_time_sum(a: ExpressionNode, k: int):
    return apply_timeshift(AllTimeSumNode(a), k)


def ref_shift_all_time_sum(a: ExpressionNode, k: int):
    return AllTimeSumNode(apply_timeshift(a, k))


def impl_shift_scenario_operator(a: ExpressionNode, k: int):
    return apply_timeshift(ScenarioOperatorNode(a, 'Expectation'), k)


def ref_shift_scenario_operator(a: ExpressionNode, k: int):
    return ScenarioOperatorNode(apply_timeshift(a, k), 'Expectation')


def impl_shift_scenario_operator_var(a: ExpressionNode, k: int):
    return apply_timeshift(ScenarioOperatorNode(a, 'Variance'), k)


def ref_shift_scenario_operator_var(a: ExpressionNode, k: int):
    return ScenarioOperatorNode(apply_timeshift(a, k), 'Variance')


def impl_shift_port_field(p: str, f: str, k: int):
    return apply_timeshift(PortFieldNode(p, f), k)


def ref_shift_port_field(p: str, f: str, k: int):
    return PortFieldNode(p, f)


def impl_shift_port_field_aggregator(a: ExpressionNode, k: int):
    return apply_timeshift(PortFieldAggregatorNode(a, 'PortSum'), k)


def ref_shift_port_field_aggregator(a: ExpressionNode, k: int):
    return PortFieldAggregatorNode(apply_timeshift(a, k), 'PortSum')


def impl_step_literal(v: float, k: int, ex: bool):
    return apply_timestep(LiteralNode(v), k, ex)


def ref_step_literal(v: float, k: int, ex: bool):
    return LiteralNode(v)


def impl_step_negation(a: ExpressionNode, k: int, ex: bool):
    return apply_timestep(NegationNode(a), k, ex)


def ref_step_negation(a: ExpressionNode, k: int, ex: bool):
    return NegationNode(apply_timestep(a, k, ex))


def impl_step_addition(ops: List[ExpressionNode], k: int, ex: bool):
    return apply_timestep(AdditionNode(ops), k, ex)


def ref_step_addition(ops: List[ExpressionNode], k: int, ex: bool):
    return AdditionNode([apply_timestep(o, k, ex) for o in ops])


def impl_step_multiplication(a: ExpressionNode, b: ExpressionNode, k: int, ex: bool):
    return apply_timestep(MultiplicationNode(a, b), k, ex)


def ref_step_multiplication(a: ExpressionNode, b: ExpressionNode, k: int, ex: bool):
    return MultiplicationNode(apply_timestep(a, k, ex), apply_timestep(b, k, ex))


def impl_step_division(a: ExpressionNode, b: ExpressionNode, k: int, ex: bool):
    return apply_timestep(DivisionNode(a, b), k, ex)


def ref_step_division(a: ExpressionNode, b: ExpressionNode, k: int, ex: bool):
    return DivisionNode(apply_timestep(a, k, ex), apply_timestep(b, k, ex))


def impl_step_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, k: int, ex: bool):
    return apply_timestep(ComparisonNode(a, b, c), k, ex)


def ref_step_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, k: int, ex: bool):
    return ComparisonNode(apply_timestep(a, k, ex), apply_timestep(b, k, ex), c)


def impl_step_variable(n: str, k: int, ex: bool):
    return apply_timestep(VariableNode(n), k, ex)


def ref_step_variable(n: str, k: int, ex: bool):
    return VariableNode(n)


def impl_step_parameter(n: str, k: int, ex: bool):
    return apply_timestep(ParameterNode(n), k, ex)


def ref_step_parameter(n: str, k: int, ex: bool):
    return ParameterNode(n)


def impl_step_comp_variable(i: str, n: str, k: int, ex: bool):
    return apply_timestep(ComponentVariableNode(i, n), k, ex)


def ref_step_comp_variable(i: str, n: str, k: int, ex: bool):
    return ComponentVariableNode(i, n)


def impl_step_comp_parameter(i: str, n: str, k: int, ex: bool):
    return apply_timestep(ComponentParameterNode(i, n), k, ex)


def ref_step_comp_parameter(i: str, n: str, k: int, ex: bool):
    return ComponentParameterNode(i, n)


def impl_step_time_shift(a: ExpressionNode, b: ExpressionNode, k: int, ex: bool):
    return apply_timestep(TimeShiftNode(a, b), k, ex)


def ref_step_time_shift(a: ExpressionNode, b: ExpressionNode, k: int, ex: bool):
    return TimeShiftNode(apply_timestep(a, k, ex), apply_timestep(b, k, ex))


def impl_step_time_eval(a: ExpressionNode, b: ExpressionNode, k: int, ex: bool):
    return apply_timestep(TimeEvalNode(a, b), k, ex)


def ref_step_time_eval(a: ExpressionNode, b: ExpressionNode, k: int, ex: bool):
    return TimeEvalNode(apply_timestep(a, k, ex), apply_timestep(b, k, ex))


def impl_step_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, k: int, ex: bool):
    return apply_timestep(TimeSumNode(a, b, c), k, ex)


def ref_step_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, k: int, ex: bool):
    return TimeSumNode(apply_timestep(a, k, ex), apply_timestep(b, k, ex), apply_timestep(c, k, ex))


def impl_step_all_time_sum(a: ExpressionNode, k: int, ex: bool):
    return apply_timestep(AllTimeSumNode(a), k, ex)


def ref_step_all_time_sum(a: ExpressionNode, k: int, ex: bool):
    return AllTimeSumNode(apply_timestep(a, k, ex))


def impl_step_scenario_operator(a: ExpressionNode, k: int, ex: bool):
    return apply_timestep(ScenarioOperatorNode(a, 'Expectation'), k, ex)


def ref_step_scenario_operator(a: ExpressionNode, k: int, ex: bool):
    return ScenarioOperatorNode(apply_timestep(a, k, ex), 'Expectation')


def impl_step_scenario_operator_var(a: ExpressionNode, k: int, ex: bool):
    return apply_timestep(ScenarioOperatorNode(a, 'Variance'), k, ex)


def ref_step_scenario_operator_var(a: ExpressionNode, k: int, ex: bool):
    return ScenarioOperatorNode(apply_timestep(a, k, ex), 'Variance')


def impl_step_port_field(p: str, f: str, k: int, ex: bool):
    return apply_timestep(PortFieldNode(p, f), k, ex)


def ref_step_port_field(p: str, f: str, k: int, ex: bool):
    return PortFieldNode(p, f)


def impl_step_port_field_aggregator(a: ExpressionNode, k: int, ex: bool):
    return apply_timestep(PortFieldAggregatorNode(a, 'PortSum'), k, ex)


def ref_step_port_field_aggregator(a: ExpressionNode, k: int, ex: bool):
    return PortFieldAggregatorNode(apply_timestep(a, k, ex), 'PortSum')


def impl_scen_literal(v: float, k: int):
    return apply_scenario(LiteralNode(v), k)


def ref_scen_literal(v: float, k: int):
    return LiteralNode(v)


def impl_scen_negation(a: ExpressionNode, k: int):
    return apply_scenario(NegationNode(a), k)


def ref_scen_negation(a: ExpressionNode, k: int):
    return NegationNode(apply_scenario(a, k))


def impl_scen_addition(ops: List[ExpressionNode], k: int):
    return apply_scenario(AdditionNode(ops), k)


def ref_scen_addition(ops: List[ExpressionNode], k: int):
    return AdditionNode([apply_scenario(o, k) for o in ops])


def impl_scen_multiplication(a: ExpressionNode, b: ExpressionNode, k: int):
    return apply_scenario(MultiplicationNode(a, b), k)


def ref_scen_multiplication(a: ExpressionNode, b: ExpressionNode, k: int):
    return MultiplicationNode(apply_scenario(a, k), apply_scenario(b, k))


def impl_scen_division(a: ExpressionNode, b: ExpressionNode, k: int):
    return apply_scenario(DivisionNode(a, b), k)


def ref_scen_division(a: ExpressionNode, b: ExpressionNode, k: int):
    return DivisionNode(apply_scenario(a, k), apply_scenario(b, k))


def impl_scen_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, k: int):
    return apply_scenario(ComparisonNode(a, b, c), k)


def ref_scen_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, k: int):
    return ComparisonNode(apply_scenario(a, k), apply_scenario(b, k), c)


def impl_scen_variable(n: str, k: int):
    return apply_scenario(VariableNode(n), k)


def ref_scen_variable(n: str, k: int):
    return VariableNode(n)


def impl_scen_parameter(n: str, k: int):
    return apply_scenario(ParameterNode(n), k)


def ref_scen_parameter(n: str, k: int):
    return ParameterNode(n)


def impl_scen_comp_variable(i: str, n: str, k: int):
    return apply_scenario(ComponentVariableNode(i, n), k)


def ref_scen_comp_variable(i: str, n: str, k: int):
    return ComponentVariableNode(i, n)


def impl_scen_comp_parameter(i: str, n: str, k: int):
    return apply_scenario(ComponentParameterNode(i, n), k)


def ref_scen_comp_parameter(i: str, n: str, k: int):
    return ComponentParameterNode(i, n)


def impl_scen_time_shift(a: ExpressionNode, b: ExpressionNode, k: int):
    return apply_scenario(TimeShiftNode(a, b), k)


def ref_scen_time_shift(a: ExpressionNode, b: ExpressionNode, k: int):
    return TimeShiftNode(apply_scenario(a, k), apply_scenario(b, k))


def impl_scen_time_eval(a: ExpressionNode, b: ExpressionNode, k: int):
    return apply_scenario(TimeEvalNode(a, b), k)


def ref_scen_time_eval(a: ExpressionNode, b: ExpressionNode, k: int):
    return TimeEvalNode(apply_scenario(a, k), apply_scenario(b, k))


def impl_scen_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, k: int):
    return apply_scenario(TimeSumNode(a, b, c), k)


def ref_scen_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, k: int):
    return TimeSumNode(apply_scenario(a, k), apply_scenario(b, k), apply_scenario(c, k))


def impl_scen_all_time_sum(a: ExpressionNode, k: int):
    return apply_scenario(AllTimeSumNode(a), k)


def ref_scen_all_time_sum(a: ExpressionNode, k: int):
    return AllTimeSumNode(apply_scenario(a, k))


def impl_scen_scenario_operator(a: ExpressionNode, k: int):
    return apply_scenario(ScenarioOperatorNode(a, 'Expectation'), k)


def ref_scen_scenario_operator(a: ExpressionNode, k: int):
    return ScenarioOperatorNode(apply_scenario(a, k), 'Expectation')


def impl_scen_scenario_operator_var(a: ExpressionNode, k: int):
    return apply_scenario(ScenarioOperatorNode(a, 'Variance'), k)


def ref_scen_scenario_operator_var(a: ExpressionNode, k: int):
    return ScenarioOperatorNode(apply_scenario(a, k), 'Variance')


def impl_scen_port_field(p: str, f: str, k: int):
    return apply_scenario(PortFieldNode(p, f), k)


def ref_scen_port_field(p: str, f: str, k: int):
    return PortFieldNode(p, f)


def impl_scen_port_field_aggregator(a: ExpressionNode, k: int):
    return apply_scenario(PortFieldAggregatorNode(a, 'PortSum'), k)


def ref_scen_port_field_aggregator(a: ExpressionNode, k: int):
    return PortFieldAggregatorNode(apply_scenario(a, k), 'PortSum')
