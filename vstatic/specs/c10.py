from typing import Any, Dict, List, Optional
from andromede.expression.expression import *
from andromede.expression.visitor import visit
from andromede.simulation.linearize import LinearExpressionBuilder, LinearExpressionData, MutableTerm, ParameterGetter, linearize_expression
from andromede.simulation.linear_expression import LinearExpression, Term, TermKey

OPTIONS = {"*": {"algebra": False, "denote": False, "ignore_heap": True}}


def scaled(d: LinearExpressionData, f: float):
    return LinearExpressionData(
        [MutableTerm(m.coefficient * f, m.component_id, m.variable_name, m.time_index, m.scenario_index) for m in d.terms],
        d.constant * f,
    )


def impl_literal(v: float, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(LiteralNode(v), LinearExpressionBuilder(t, s, vp))


def ref_literal(v: float, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return LinearExpressionData([], v)


def impl_negation(a: ExpressionNode, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(NegationNode(a), LinearExpressionBuilder(t, s, vp))


def ref_negation(a: ExpressionNode, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return scaled(visit(a, LinearExpressionBuilder(t, s, vp)), -1)


def impl_addition(ops: List[ExpressionNode], t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(AdditionNode(ops), LinearExpressionBuilder(t, s, vp))


def ref_addition(ops: List[ExpressionNode], t: Optional[int], s: Optional[int], vp: ParameterGetter):
    b = LinearExpressionBuilder(t, s, vp)
    ds = [visit(o, b) for o in ops]
    return LinearExpressionData([m for d in ds for m in d.terms], sum([d.constant for d in ds]))


def impl_multiplication(a: ExpressionNode, c: ExpressionNode, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(MultiplicationNode(a, c), LinearExpressionBuilder(t, s, vp))


def ref_multiplication(a: ExpressionNode, c: ExpressionNode, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    b = LinearExpressionBuilder(t, s, vp)
    x = visit(a, b)
    y = visit(c, b)
    if x.terms and y.terms:
        raise ValueError("not linear")
    if x.terms:
        return scaled(x, y.constant)
    return scaled(y, x.constant)


def impl_division(a: ExpressionNode, c: ExpressionNode, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(DivisionNode(a, c), LinearExpressionBuilder(t, s, vp))


def ref_division(a: ExpressionNode, c: ExpressionNode, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    b = LinearExpressionBuilder(t, s, vp)
    x = visit(a, b)
    y = visit(c, b)
    if y.terms:
        raise ValueError("not linear")
    return scaled(x, 1 / y.constant)


def step(i: TimeIndex, t: Optional[int]):
    if isinstance(i, TimeShift):
        if t is None:
            raise ValueError("no timestep")
        return t + i.timeshift
    if isinstance(i, TimeStep):
        return i.timestep
    return None


def scen(i: ScenarioIndex, s: Optional[int]):
    if isinstance(i, OneScenarioIndex):
        return i.scenario
    if isinstance(i, CurrentScenarioIndex):
        return s
    return None


def impl_pb_variable(c: str, n: str, ti: TimeIndex, si: ScenarioIndex, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(ProblemVariableNode(c, n, ti, si), LinearExpressionBuilder(t, s, vp))


def ref_pb_variable(c: str, n: str, ti: TimeIndex, si: ScenarioIndex, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return LinearExpressionData([MutableTerm(1, c, n, step(ti, t), scen(si, s))], 0)


def impl_pb_parameter(c: str, n: str, ti: TimeIndex, si: ScenarioIndex, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(ProblemParameterNode(c, n, ti, si), LinearExpressionBuilder(t, s, vp))


def ref_pb_parameter(c: str, n: str, ti: TimeIndex, si: ScenarioIndex, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return LinearExpressionData([], vp.get_parameter_value(c, n, step(ti, t), scen(si, s)))


def impl_build(terms: List[MutableTerm], c: float):
    return LinearExpressionData(terms, c).build()


def ref_build(terms: List[MutableTerm], c: float):
    res: Dict[TermKey, Any] = {}
    for m in terms:
        k = TermKey(m.component_id, m.variable_name, m.time_index, m.scenario_index)
        if k in res:
            res[k].coefficient += m.coefficient
        else:
            res[k] = m
    out: Dict[TermKey, Term] = {}
    for k, v in res.items():
        out[k] = Term(v.coefficient, v.component_id, v.variable_name, v.time_index, v.scenario_index)
    return LinearExpression(out, c)


def impl_linearize(e: ExpressionNode, t: Optional[int], s: Optional[int], vp: Optional[ParameterGetter]):
    return linearize_expression(e, t, s, vp)


def ref_linearize(e: ExpressionNode, t: Optional[int], s: Optional[int], vp: Optional[ParameterGetter]):
    return visit(e, LinearExpressionBuilder(t, s, vp)).build()


def impl_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(ComparisonNode(a, b, c), LinearExpressionBuilder(t, s, vp))


def ref_comparison(a: ExpressionNode, b: ExpressionNode, c: Comparator, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    raise ValueError("not linear")


def impl_variable(n: str, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(VariableNode(n), LinearExpressionBuilder(t, s, vp))


def ref_variable(n: str, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    raise ValueError("unresolved")


def impl_parameter(n: str, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(ParameterNode(n), LinearExpressionBuilder(t, s, vp))


def ref_parameter(n: str, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    raise ValueError("unresolved")


def impl_comp_variable(c: str, n: str, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(ComponentVariableNode(c, n), LinearExpressionBuilder(t, s, vp))


def ref_comp_variable(c: str, n: str, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    raise ValueError("unresolved")


def impl_comp_parameter(c: str, n: str, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(ComponentParameterNode(c, n), LinearExpressionBuilder(t, s, vp))


def ref_comp_parameter(c: str, n: str, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    raise ValueError("unresolved")


def impl_time_operators(k: int, a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    lb = LinearExpressionBuilder(t, s, vp)
    if k == 0:
        return visit(TimeShiftNode(a, b), lb)
    if k == 1:
        return visit(TimeEvalNode(a, b), lb)
    if k == 2:
        return visit(TimeSumNode(a, b, c), lb)
    return visit(AllTimeSumNode(a), lb)


def ref_time_operators(k: int, a: ExpressionNode, b: ExpressionNode, c: ExpressionNode, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    raise ValueError("not expanded")


def impl_scenario_operator(a: ExpressionNode, n: str, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    return visit(ScenarioOperatorNode(a, n), LinearExpressionBuilder(t, s, vp))


def ref_scenario_operator(a: ExpressionNode, n: str, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    raise ValueError("not expanded")


def impl_ports(a: ExpressionNode, n: str, m: str, k: bool, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    lb = LinearExpressionBuilder(t, s, vp)
    if k:
        return visit(PortFieldNode(n, m), lb)
    return visit(PortFieldAggregatorNode(a, n), lb)


def ref_ports(a: ExpressionNode, n: str, m: str, k: bool, t: Optional[int], s: Optional[int], vp: ParameterGetter):
    raise ValueError("not resolved")
