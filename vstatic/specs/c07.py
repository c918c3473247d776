from typing import Dict, List, Optional
from andromede.expression.expression import *
from andromede.expression.indexing import compute_indexation, IndexingStructureProvider
from andromede.expression.indexing_structure import IndexingStructure


def impl_literal(v: float, prov: IndexingStructureProvider):
    return compute_indexation(LiteralNode(v), prov)


def ref_literal(v: float, prov: IndexingStructureProvider):
    return IndexingStructure(False, False)


def impl_negation(a: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(NegationNode(a), prov)


def ref_negation(a: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(a, prov)


def impl_addition(ops: List[ExpressionNode], prov: IndexingStructureProvider):
    return compute_indexation(AdditionNode(ops), prov)


def ref_addition(ops: List[ExpressionNode], prov: IndexingStructureProvider):
    return IndexingStructure(any([compute_indexation(o, prov).time for o in ops]), any([compute_indexation(o, prov).scenario for o in ops]))


def impl_multiplication(a: ExpressionNode, b: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(MultiplicationNode(a, b), prov)


def ref_multiplication(a: ExpressionNode, b: ExpressionNode, prov: IndexingStructureProvider):
    return IndexingStructure(compute_indexation(a, prov).time or compute_indexation(b, prov).time, compute_indexation(a, prov).scenario or compute_indexation(b, prov).scenario)


def impl_division(a: ExpressionNode, b: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(DivisionNode(a, b), prov)


def ref_division(a: ExpressionNode, b: ExpressionNode, prov: IndexingStructureProvider):
    return IndexingStructure(compute_indexation(a, prov).time or compute_indexation(b, prov).time, compute_indexation(a, prov).scenario or compute_indexation(b, prov).scenario)


def impl_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, prov: IndexingStructureProvider):
    return compute_indexation(ComparisonNode(a, b, c), prov)


def ref_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, prov: IndexingStructureProvider):
    return IndexingStructure(compute_indexation(a, prov).time or compute_indexation(b, prov).time, compute_indexation(a, prov).scenario or compute_indexation(b, prov).scenario)


def impl_variable(n: str, prov: IndexingStructureProvider):
    return compute_indexation(VariableNode(n), prov)


def ref_variable(n: str, prov: IndexingStructureProvider):
    return prov.get_variable_structure(n)


def impl_parameter(n: str, prov: IndexingStructureProvider):
    return compute_indexation(ParameterNode(n), prov)


def ref_parameter(n: str, prov: IndexingStructureProvider):
    return prov.get_parameter_structure(n)


def impl_comp_variable(i: str, n: str, prov: IndexingStructureProvider):
    return compute_indexation(ComponentVariableNode(i, n), prov)


def ref_comp_variable(i: str, n: str, prov: IndexingStructureProvider):
    return prov.get_component_variable_structure(i, n)


def impl_comp_parameter(i: str, n: str, prov: IndexingStructureProvider):
    return compute_indexation(ComponentParameterNode(i, n), prov)


def ref_comp_parameter(i: str, n: str, prov: IndexingStructureProvider):
    return prov.get_component_parameter_structure(i, n)


def impl_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex, prov: IndexingStructureProvider):
    return compute_indexation(ProblemVariableNode(i, n, t, s), prov)


def ref_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex, prov: IndexingStructureProvider):
    raise ValueError('no')


def impl_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex, prov: IndexingStructureProvider):
    return compute_indexation(ProblemParameterNode(i, n, t, s), prov)


def ref_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex, prov: IndexingStructureProvider):
    raise ValueError('no')


def impl_time_shift(a: ExpressionNode, b: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(TimeShiftNode(a, b), prov)


def ref_time_shift(a: ExpressionNode, b: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(a, prov)


def impl_time_eval(a: ExpressionNode, b: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(TimeEvalNode(a, b), prov)


def ref_time_eval(a: ExpressionNode, b: ExpressionNode, prov: IndexingStructureProvider):
    return IndexingStructure(False, compute_indexation(a, prov).scenario)


def impl_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(TimeSumNode(a, b, c), prov)


def ref_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(a, prov)


def impl_all_time_sum(a: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(AllTimeSumNode(a), prov)


def ref_all_time_sum(a: ExpressionNode, prov: IndexingStructureProvider):
    return IndexingStructure(False, compute_indexation(a, prov).scenario)


def impl_expectation(a: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(ScenarioOperatorNode(a, 'Expectation'), prov)


def ref_expectation(a: ExpressionNode, prov: IndexingStructureProvider):
    return IndexingStructure(compute_indexation(a, prov).time, False)


def impl_variance(a: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(ScenarioOperatorNode(a, 'Variance'), prov)


def ref_variance(a: ExpressionNode, prov: IndexingStructureProvider):
    return IndexingStructure(compute_indexation(a, prov).time, False)


def impl_port_field(p: str, f: str, prov: IndexingStructureProvider):
    return compute_indexation(PortFieldNode(p, f), prov)


def ref_port_field(p: str, f: str, prov: IndexingStructureProvider):
    raise ValueError('no')


def impl_port_field_aggregator(a: ExpressionNode, prov: IndexingStructureProvider):
    return compute_indexation(PortFieldAggregatorNode(a, 'PortSum'), prov)


def ref_port_field_aggregator(a: ExpressionNode, prov: IndexingStructureProvider):
    raise ValueError('no')


def impl_or(x: IndexingStructure, y: IndexingStructure):
    return x | y


def ref_or(x: IndexingStructure, y: IndexingStructure):
    return IndexingStructure(x.time or y.time, x.scenario or y.scenario)


def impl_predicates(x: IndexingStructure):
    return (x.is_time_varying(), x.is_scenario_varying(), x.is_time_scenario_varying(), x.is_constant())


def ref_predicates(x: IndexingStructure):
    return (x.time, x.scenario, x.time and x.scenario, not (x.time or x.scenario))
