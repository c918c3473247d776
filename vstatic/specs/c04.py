from typing import Dict, List, Optional
import math
from andromede.expression.expression import *
from andromede.expression.equality import expressions_equal, expressions_equal_if_present


def impl_LiteralNode(value: float, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(LiteralNode(value), r, at, rt)


def ref_LiteralNode(value: float, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, LiteralNode) and math.isclose(value, r.value, abs_tol=at, rel_tol=rt)


def impl_NegationNode(operand: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(NegationNode(operand), r, at, rt)


def ref_NegationNode(operand: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, NegationNode) and expressions_equal(operand, r.operand, at, rt)


def impl_MultiplicationNode(left: ExpressionNode, right: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(MultiplicationNode(left, right), r, at, rt)


def ref_MultiplicationNode(left: ExpressionNode, right: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, MultiplicationNode) and expressions_equal(left, r.left, at, rt) and expressions_equal(right, r.right, at, rt)


def impl_DivisionNode(left: ExpressionNode, right: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(DivisionNode(left, right), r, at, rt)


def ref_DivisionNode(left: ExpressionNode, right: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, DivisionNode) and expressions_equal(left, r.left, at, rt) and expressions_equal(right, r.right, at, rt)


def impl_ComparisonNode(left: ExpressionNode, right: ExpressionNode, comparator: Comparator, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(ComparisonNode(left, right, comparator), r, at, rt)


def ref_ComparisonNode(left: ExpressionNode, right: ExpressionNode, comparator: Comparator, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, ComparisonNode) and expressions_equal(left, r.left, at, rt) and expressions_equal(right, r.right, at, rt) and comparator == r.comparator


def impl_VariableNode(name: str, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(VariableNode(name), r, at, rt)


def ref_VariableNode(name: str, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, VariableNode) and name == r.name


def impl_ParameterNode(name: str, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(ParameterNode(name), r, at, rt)


def ref_ParameterNode(name: str, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, ParameterNode) and name == r.name


def impl_ComponentVariableNode(component_id: str, name: str, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(ComponentVariableNode(component_id, name), r, at, rt)


def ref_ComponentVariableNode(component_id: str, name: str, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, ComponentVariableNode) and component_id == r.component_id and name == r.name


def impl_ComponentParameterNode(component_id: str, name: str, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(ComponentParameterNode(component_id, name), r, at, rt)


def ref_ComponentParameterNode(component_id: str, name: str, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, ComponentParameterNode) and component_id == r.component_id and name == r.name


def impl_ProblemVariableNode(component_id: str, name: str, time_index: TimeIndex, scenario_index: ScenarioIndex, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(ProblemVariableNode(component_id, name, time_index, scenario_index), r, at, rt)


def ref_ProblemVariableNode(component_id: str, name: str, time_index: TimeIndex, scenario_index: ScenarioIndex, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, ProblemVariableNode) and component_id == r.component_id and name == r.name and time_index == r.time_index and scenario_index == r.scenario_index


def impl_ProblemParameterNode(component_id: str, name: str, time_index: TimeIndex, scenario_index: ScenarioIndex, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(ProblemParameterNode(component_id, name, time_index, scenario_index), r, at, rt)


def ref_ProblemParameterNode(component_id: str, name: str, time_index: TimeIndex, scenario_index: ScenarioIndex, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, ProblemParameterNode) and component_id == r.component_id and name == r.name and time_index == r.time_index and scenario_index == r.scenario_index


def impl_TimeShiftNode(operand: ExpressionNode, time_shift: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(TimeShiftNode(operand, time_shift), r, at, rt)


def ref_TimeShiftNode(operand: ExpressionNode, time_shift: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, TimeShiftNode) and expressions_equal(operand, r.operand, at, rt) and expressions_equal(time_shift, r.time_shift, at, rt)


def impl_TimeEvalNode(operand: ExpressionNode, eval_time: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(TimeEvalNode(operand, eval_time), r, at, rt)


def ref_TimeEvalNode(operand: ExpressionNode, eval_time: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, TimeEvalNode) and expressions_equal(operand, r.operand, at, rt) and expressions_equal(eval_time, r.eval_time, at, rt)


def impl_TimeSumNode(operand: ExpressionNode, from_time: ExpressionNode, to_time: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(TimeSumNode(operand, from_time, to_time), r, at, rt)


def ref_TimeSumNode(operand: ExpressionNode, from_time: ExpressionNode, to_time: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, TimeSumNode) and expressions_equal(operand, r.operand, at, rt) and expressions_equal(from_time, r.from_time, at, rt) and expressions_equal(to_time, r.to_time, at, rt)


def impl_AllTimeSumNode(operand: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(AllTimeSumNode(operand), r, at, rt)


def ref_AllTimeSumNode(operand: ExpressionNode, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, AllTimeSumNode) and expressions_equal(operand, r.operand, at, rt)


def impl_ScenarioOperatorNode(operand: ExpressionNode, name: str, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(ScenarioOperatorNode(operand, name), r, at, rt)


def ref_ScenarioOperatorNode(operand: ExpressionNode, name: str, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, ScenarioOperatorNode) and expressions_equal(operand, r.operand, at, rt) and name == r.name


def impl_PortFieldNode(port_name: str, field_name: str, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(PortFieldNode(port_name, field_name), r, at, rt)


def ref_PortFieldNode(port_name: str, field_name: str, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, PortFieldNode) and port_name == r.port_name and field_name == r.field_name


def impl_PortFieldAggregatorNode(operand: ExpressionNode, aggregator: str, r: ExpressionNode, at: float, rt: float):
    return expressions_equal(PortFieldAggregatorNode(operand, aggregator), r, at, rt)


def ref_PortFieldAggregatorNode(operand: ExpressionNode, aggregator: str, r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return isinstance(r, PortFieldAggregatorNode) and expressions_equal(operand, r.operand, at, rt) and aggregator == r.aggregator


def impl_AdditionNode(ops: List[ExpressionNode], r: ExpressionNode, at: float, rt: float):
    return expressions_equal(AdditionNode(ops), r, at, rt)


def ref_AdditionNode(ops: List[ExpressionNode], r: ExpressionNode, at: float, rt: float):
    if at < 0 or rt < 0:
        raise ValueError("tolerance")
    return (
        isinstance(r, AdditionNode)
        and len(ops) == len(r.operands)
        and all(expressions_equal(x, y, at, rt) for x, y in zip(ops, r.operands))
    )


def impl_if_present(a: Optional[ExpressionNode], b: Optional[ExpressionNode]):
    return expressions_equal_if_present(a, b)


def ref_if_present(a: Optional[ExpressionNode], b: Optional[ExpressionNode]):
    if a is None:
        return b is None
    if b is None:
        return False
    return expressions_equal(a, b)
