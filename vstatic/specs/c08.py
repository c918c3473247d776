from typing import Dict, List, Optional
from andromede.expression.expression import *
from andromede.expression.operators_expansion import *
from andromede.expression.operators_expansion import expand_operators, apply_timeshift, apply_timestep, apply_scenario, ProblemDimensions, ExpressionEvaluator
from andromede.expression.indexing import IndexingStructureProvider
from andromede.expression.indexing_structure import IndexingStructure


def impl_literal(v: float, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(LiteralNode(v), dim, ev, sp)


def ref_literal(v: float, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return LiteralNode(v)


def impl_negation(a: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(NegationNode(a), dim, ev, sp)


def ref_negation(a: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return NegationNode(expand_operators(a, dim, ev, sp))


def impl_addition(ops: List[ExpressionNode], dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(AdditionNode(ops), dim, ev, sp)


def ref_addition(ops: List[ExpressionNode], dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return AdditionNode([expand_operators(o, dim, ev, sp) for o in ops])


def impl_multiplication(a: ExpressionNode, b: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(MultiplicationNode(a, b), dim, ev, sp)


def ref_multiplication(a: ExpressionNode, b: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return MultiplicationNode(expand_operators(a, dim, ev, sp), expand_operators(b, dim, ev, sp))


def impl_division(a: ExpressionNode, b: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(DivisionNode(a, b), dim, ev, sp)


def ref_division(a: ExpressionNode, b: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return DivisionNode(expand_operators(a, dim, ev, sp), expand_operators(b, dim, ev, sp))


def impl_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(ComparisonNode(a, b, c), dim, ev, sp)


def ref_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return ComparisonNode(expand_operators(a, dim, ev, sp), expand_operators(b, dim, ev, sp), c)


def impl_variable(n: str, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(VariableNode(n), dim, ev, sp)


def ref_variable(n: str, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return VariableNode(n)


def impl_parameter(n: str, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(ParameterNode(n), dim, ev, sp)


def ref_parameter(n: str, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return ParameterNode(n)


def impl_comp_variable(i: str, n: str, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(ComponentVariableNode(i, n), dim, ev, sp)


def ref_comp_variable(i: str, n: str, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    
    st = sp.get_component_variable_structure(i, n)
    ti = TimeShift(0) if st.time else NoTimeIndex()
    si = CurrentScenarioIndex() if st.scenario else NoScenarioIndex()
    return ProblemVariableNode(i, n, ti, si)


def impl_comp_parameter(i: str, n: str, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(ComponentParameterNode(i, n), dim, ev, sp)


def ref_comp_parameter(i: str, n: str, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    
    st = sp.get_component_parameter_structure(i, n)
    ti = TimeShift(0) if st.time else NoTimeIndex()
    si = CurrentScenarioIndex() if st.scenario else NoScenarioIndex()
    return ProblemParameterNode(i, n, ti, si)


def impl_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(ProblemVariableNode(i, n, t, s), dim, ev, sp)


def ref_pb_variable(i: str, n: str, t: TimeIndex, s: ScenarioIndex, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    raise ValueError('no')


def impl_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(ProblemParameterNode(i, n, t, s), dim, ev, sp)


def ref_pb_parameter(i: str, n: str, t: TimeIndex, s: ScenarioIndex, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    raise ValueError('no')


def impl_time_shift(a: ExpressionNode, b: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(TimeShiftNode(a, b), dim, ev, sp)


def ref_time_shift(a: ExpressionNode, b: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return apply_timeshift(expand_operators(a, dim, ev, sp), ev(b))


def impl_time_eval(a: ExpressionNode, b: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(TimeEvalNode(a, b), dim, ev, sp)


def ref_time_eval(a: ExpressionNode, b: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return apply_timestep(expand_operators(a, dim, ev, sp), ev(b), False)


def impl_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(TimeSumNode(a, b, c), dim, ev, sp)


def ref_time_sum(a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return AdditionNode([apply_timeshift(expand_operators(a, dim, ev, sp), t) for t in range(ev(b), ev(c) + 1)])


def impl_all_time_sum(a: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(AllTimeSumNode(a), dim, ev, sp)


def ref_all_time_sum(a: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return AdditionNode([apply_timestep(expand_operators(a, dim, ev, sp), t, True) for t in range(dim.timesteps_count)])


def impl_expectation(a: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(ScenarioOperatorNode(a, 'Expectation'), dim, ev, sp)


def ref_expectation(a: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return DivisionNode(AdditionNode([apply_scenario(expand_operators(a, dim, ev, sp), t) for t in range(dim.scenarios_count)]), LiteralNode(dim.scenarios_count))


def impl_variance(a: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    return expand_operators(ScenarioOperatorNode(a, 'Variance'), dim, ev, sp)


def ref_variance(a: ExpressionNode, dim: ProblemDimensions, ev: ExpressionEvaluator, sp: IndexingStructureProvider):
    raise ValueError('no')


def impl_shift_var(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int):
    return apply_timeshift(ProblemVariableNode(i, n, t, s), k)


def ref_shift_var(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int):
    if isinstance(t, TimeShift):
        return ProblemVariableNode(i, n, TimeShift(t.timeshift + k), s)
    if isinstance(t, TimeStep):
        return ProblemVariableNode(i, n, TimeStep(t.timestep + k), s)
    if isinstance(t, NoTimeIndex):
        return ProblemVariableNode(i, n, t, s)
    raise ValueError("unknown index")


def impl_step_var(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int, ex: bool):
    return apply_timestep(ProblemVariableNode(i, n, t, s), k, ex)


def ref_step_var(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int, ex: bool):
    if isinstance(t, TimeShift):
        return ProblemVariableNode(i, n, TimeStep(t.timeshift + k), s)
    if isinstance(t, TimeStep):
        if not ex:
            raise ValueError("already fixed")
        return ProblemVariableNode(i, n, t, s)
    if isinstance(t, NoTimeIndex):
        return ProblemVariableNode(i, n, t, s)
    raise ValueError("unknown index")


def impl_step_default_var(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int):
    return apply_timestep(ProblemVariableNode(i, n, t, s), k)


def ref_step_default_var(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int):
    return apply_timestep(ProblemVariableNode(i, n, t, s), k, False)


def impl_scenario_var(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int):
    return apply_scenario(ProblemVariableNode(i, n, t, s), k)


def ref_scenario_var(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int):
    if isinstance(s, NoScenarioIndex):
        return ProblemVariableNode(i, n, t, s)
    return ProblemVariableNode(i, n, t, OneScenarioIndex(k))


def impl_shift_par(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int):
    return apply_timeshift(ProblemParameterNode(i, n, t, s), k)


def ref_shift_par(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int):
    if isinstance(t, TimeShift):
        return ProblemParameterNode(i, n, TimeShift(t.timeshift + k), s)
    if isinstance(t, TimeStep):
        return ProblemParameterNode(i, n, TimeStep(t.timestep + k), s)
    if isinstance(t, NoTimeIndex):
        return ProblemParameterNode(i, n, t, s)
    raise ValueError("unknown index")


def impl_step_par(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int, ex: bool):
    return apply_timestep(ProblemParameterNode(i, n, t, s), k, ex)


def ref_step_par(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int, ex: bool):
    if isinstance(t, TimeShift):
        return ProblemParameterNode(i, n, TimeStep(t.timeshift + k), s)
    if isinstance(t, TimeStep):
        if not ex:
            raise ValueError("already fixed")
        return ProblemParameterNode(i, n, t, s)
    if isinstance(t, NoTimeIndex):
        return ProblemParameterNode(i, n, t, s)
    raise ValueError("unknown index")


def impl_step_default_par(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int):
    return apply_timestep(ProblemParameterNode(i, n, t, s), k)


def ref_step_default_par(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int):
    return apply_timestep(ProblemParameterNode(i, n, t, s), k, False)


def impl_scenario_par(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int):
    return apply_scenario(ProblemParameterNode(i, n, t, s), k)


def ref_scenario_par(i: str, n: str, t: TimeIndex, s: ScenarioIndex, k: int):
    if isinstance(s, NoScenarioIndex):
        return ProblemParameterNode(i, n, t, s)
    return ProblemParameterNode(i, n, t, OneScenarioIndex(k))


def reading(n: LiteralNode):
    return n.value


def impl_time_sum_next(a: ExpressionNode, k: int, dim: ProblemDimensions, sp: IndexingStructureProvider):
    # over two consecutive steps, wherever they are
    return expand_operators(TimeSumNode(a, LiteralNode(k), LiteralNode(k + 1)), dim, reading, sp)


def ref_time_sum_next(a: ExpressionNode, k: int, dim: ProblemDimensions, sp: IndexingStructureProvider):
    x = expand_operators(a, dim, reading, sp)
    return AdditionNode([apply_timeshift(x, k), apply_timeshift(x, k + 1)])


def impl_time_sum_one(a: ExpressionNode, k: int, dim: ProblemDimensions, sp: IndexingStructureProvider):
    return expand_operators(TimeSumNode(a, LiteralNode(k), LiteralNode(k)), dim, reading, sp)


def ref_time_sum_one(a: ExpressionNode, k: int, dim: ProblemDimensions, sp: IndexingStructureProvider):
    return apply_timeshift(expand_operators(a, dim, reading, sp), k)


def impl_time_sum_none(a: ExpressionNode, k: int, dim: ProblemDimensions, sp: IndexingStructureProvider):
    return expand_operators(TimeSumNode(a, LiteralNode(k), LiteralNode(k - 1)), dim, reading, sp)


def ref_time_sum_none(a: ExpressionNode, k: int, dim: ProblemDimensions, sp: IndexingStructureProvider):
    return LiteralNode(0)
