from typing import Any, Dict, Iterable, List, Optional
from andromede.expression.expression import *
from andromede.expression.degree import is_constant, is_linear
from andromede.expression.equality import expressions_equal, expressions_equal_if_present
from andromede.expression.indexing import compute_indexation
from andromede.expression.indexing_structure import IndexingStructure
from andromede.expression.scenario_operator import Expectation
from andromede.expression.visitor import visit
from andromede.model.common import ProblemContext, ValueType
from andromede.model.constraint import Constraint
from andromede.model.model import Model, ModelPort, model, _make_structure_provider, _is_objective_contribution_valid
from andromede.model.parameter import Parameter, float_parameter, int_parameter
from andromede.model.port import PortField, PortFieldDefinition, PortFieldId, PortType, port_field_def, _PortFieldExpressionChecker
from andromede.model.variable import Variable, bool_var, float_variable, int_variable

EXPR = ["andromede.expression.equality.expressions_equal", "andromede.expression.equality.expressions_equal_if_present"]
DEGREE = ["andromede.expression.degree.is_constant", "andromede.expression.degree.is_linear", "andromede.expression.indexing.compute_indexation"]
VALID = ["andromede.model.model._is_objective_contribution_valid", "andromede.model.port._validate_port_field_expression"]

OPTIONS = {"*": {"cut": DEGREE + EXPR + ["andromede.model.model._is_objective_contribution_valid"], "algebra": False, "raising": ["andromede.expression.visitor.visit"]},
           "objective": {"cut": DEGREE}, "operational_objective": {"cut": []}, "investment_objective": {"cut": []}, "expected_objective": {"cut": []},
           "quadratic_objective": {"cut": []}, "quadratic_investment": {"cut": []}}


def impl_comparison(n: str, a: ExpressionNode, b: ExpressionNode, c: Comparator, x: ProblemContext):
    k = Constraint(n, ComparisonNode(a, b, c), context=x)
    return (k.name, k.expression, k.lower_bound, k.upper_bound, k.context)


def ref_comparison(n: str, a: ExpressionNode, b: ExpressionNode, c: Comparator, x: ProblemContext):
    low = literal(0)
    up = literal(0)
    if c == Comparator.LESS_THAN:
        low = literal(-float("inf"))
    elif c == Comparator.GREATER_THAN:
        up = literal(float("inf"))
    return (n, a - b, low, up, x)


def impl_comparison_with_bounds(n: str, a: ComparisonNode, lo: ExpressionNode, up: ExpressionNode):
    k = Constraint(n, a, lo, up)
    return (k.name, k.context)


def ref_comparison_with_bounds(n: str, a: ComparisonNode, lo: ExpressionNode, up: ExpressionNode):
    for x in (lo, up):
        if not (isinstance(x, LiteralNode) and abs(x.value) == float("inf")):
            raise ValueError("")
    return (n, ProblemContext.OPERATIONAL)


def impl_bounds(n: str, a: AdditionNode, lo: ExpressionNode, up: ExpressionNode, x: ProblemContext):
    k = Constraint(n, a, lo, up, x)
    return (k.name, k.expression, k.lower_bound, k.upper_bound, k.context)


def ref_bounds(n: str, a: AdditionNode, lo: ExpressionNode, up: ExpressionNode, x: ProblemContext):
    if not is_constant(lo) or not is_constant(up):
        raise ValueError("")
    if isinstance(lo, LiteralNode) and abs(lo.value) == float("inf") and lo.value >= 0:
        raise ValueError("")
    if isinstance(up, LiteralNode) and abs(up.value) == float("inf") and not up.value >= 0:
        raise ValueError("")
    return (n, a, lo, up, x)


def impl_default_bounds(n: str, a: AdditionNode):
    k = Constraint(n, a)
    return (k.expression, k.lower_bound, k.upper_bound, k.context)


def ref_default_bounds(n: str, a: AdditionNode):
    lo = literal(-float("inf"))
    up = literal(float("inf"))
    if not is_constant(lo) or not is_constant(up):
        raise ValueError("")
    return (a, lo, up, ProblemContext.OPERATIONAL)


def impl_constraint_eq(a: Constraint, b: Constraint):
    return a == b


def ref_constraint_eq(a: Constraint, b: Constraint):
    return (a.name == b.name and expressions_equal(a.expression, b.expression) and expressions_equal_if_present(a.lower_bound, b.lower_bound)
            and expressions_equal_if_present(a.upper_bound, b.upper_bound))


def impl_constraint_eq_other(a: Constraint, b: Variable, c: str):
    return (a == b, a == c, b == a, b == c)


def ref_constraint_eq_other(a: Constraint, b: Variable, c: str):
    return (False, False, False, False)


def impl_variable_eq(a: Variable, b: Variable):
    return a == b


def ref_variable_eq(a: Variable, b: Variable):
    return (a.name == b.name and a.data_type == b.data_type and expressions_equal_if_present(a.lower_bound, b.lower_bound)
            and expressions_equal_if_present(a.upper_bound, b.upper_bound) and a.structure == b.structure)


def impl_variable(n: str, t: ValueType, lo: Optional[ExpressionNode], up: Optional[ExpressionNode], s: IndexingStructure, c: ProblemContext):
    v = Variable(n, t, lo, up, s, c)
    return (v.name, v.data_type, v.lower_bound, v.upper_bound, v.structure, v.context)


def ref_variable(n: str, t: ValueType, lo: Optional[ExpressionNode], up: Optional[ExpressionNode], s: IndexingStructure, c: ProblemContext):
    if lo is not None and not is_constant(lo):
        raise ValueError("")
    if up is not None and not is_constant(up):
        raise ValueError("")
    return (n, t, lo, up, s, c)


def impl_int_variable(n: str, lo: Optional[ExpressionNode], up: Optional[ExpressionNode], s: IndexingStructure, c: ProblemContext):
    return int_variable(n, lower_bound=lo, upper_bound=up, structure=s, context=c)


def ref_int_variable(n: str, lo: Optional[ExpressionNode], up: Optional[ExpressionNode], s: IndexingStructure, c: ProblemContext):
    return Variable(name=n, data_type=ValueType.INTEGER, lower_bound=lo, upper_bound=up, structure=s, context=c)


def impl_float_variable(n: str, lo: Optional[ExpressionNode], up: Optional[ExpressionNode], s: IndexingStructure, c: ProblemContext):
    return float_variable(n, lower_bound=lo, upper_bound=up, structure=s, context=c)


def ref_float_variable(n: str, lo: Optional[ExpressionNode], up: Optional[ExpressionNode], s: IndexingStructure, c: ProblemContext):
    return Variable(name=n, data_type=ValueType.CONTINUOUS, lower_bound=lo, upper_bound=up, structure=s, context=c)


def impl_bool_variable(n: str, s: IndexingStructure, c: ProblemContext):
    return bool_var(n, structure=s, context=c)


def ref_bool_variable(n: str, s: IndexingStructure, c: ProblemContext):
    return Variable(name=n, data_type=ValueType.BOOLEAN, lower_bound=literal(0), upper_bound=literal(1), structure=s, context=c)


def impl_default_variables(n: str):
    return (int_variable(n), float_variable(n), bool_var(n))


def ref_default_variables(n: str):
    every = IndexingStructure(True, True)
    op = ProblemContext.OPERATIONAL
    return (Variable(n, ValueType.INTEGER, None, None, every, op), Variable(n, ValueType.CONTINUOUS, None, None, every, op),
            Variable(n, ValueType.BOOLEAN, literal(0), literal(1), every, op))


def impl_parameters(n: str, s: IndexingStructure):
    return (int_parameter(n), float_parameter(n), int_parameter(n, structure=s), float_parameter(n, structure=s))


def ref_parameters(n: str, s: IndexingStructure):
    every = IndexingStructure(True, True)
    return (Parameter(n, ValueType.INTEGER, every), Parameter(n, ValueType.CONTINUOUS, every), Parameter(n, ValueType.INTEGER, s),
            Parameter(n, ValueType.CONTINUOUS, s))


def impl_objective(m: Model, e: ExpressionNode):
    return _is_objective_contribution_valid(m, e)


def ref_objective(m: Model, e: ExpressionNode):
    if not is_linear(e):
        raise ValueError("")
    if compute_indexation(e, _make_structure_provider(m)) != IndexingStructure(False, False):
        raise ValueError("")
    return True


def impl_provider(m: Model, n: str):
    p = _make_structure_provider(m)
    return (p.get_parameter_structure(n), p.get_variable_structure(n))


def ref_provider(m: Model, n: str):
    return (m.parameters[n].structure, m.variables[n].structure)


def impl_provider_component_parameter(m: Model, c: str, n: str):
    return _make_structure_provider(m).get_component_parameter_structure(c, n)


def ref_provider_component_parameter(m: Model, c: str, n: str):
    raise NotImplementedError("")


def impl_provider_component_variable(m: Model, c: str, n: str):
    return _make_structure_provider(m).get_component_variable_structure(c, n)


def ref_provider_component_variable(m: Model, c: str, n: str):
    raise NotImplementedError("")


def impl_model_ports(i: str, ps: Dict[str, ModelPort], ds: Dict[PortFieldId, PortFieldDefinition]):
    m = Model(i, ports=ps, port_fields_definitions=ds)
    return (m.id, m.ports, m.port_fields_definitions)


def ref_model_ports(i: str, ps: Dict[str, ModelPort], ds: Dict[PortFieldId, PortFieldDefinition]):
    for d in ds.values():
        if d.port_field.port_name not in ps:
            raise ValueError("")
        if not any(f.name == d.port_field.field_name for f in ps[d.port_field.port_name].port_type.fields):
            raise ValueError("")
    return (i, ps, ds)


def varies(s: IndexingStructure) -> bool:
    return s.time or s.scenario


def impl_operational_objective(i: str, p: Parameter, x: Variable):
    e = MultiplicationNode(ParameterNode("p"), VariableNode("x"))
    return Model(i, parameters={"p": p}, variables={"x": x}, objective_operational_contribution=e).objective_operational_contribution


def ref_operational_objective(i: str, p: Parameter, x: Variable):
    if varies(p.structure) or varies(x.structure):
        raise ValueError("")
    return MultiplicationNode(ParameterNode("p"), VariableNode("x"))


def impl_investment_objective(i: str, p: Parameter, x: Variable):
    e = MultiplicationNode(ParameterNode("p"), VariableNode("x"))
    return Model(i, parameters={"p": p}, variables={"x": x}, objective_investment_contribution=e).objective_investment_contribution


def ref_investment_objective(i: str, p: Parameter, x: Variable):
    if varies(p.structure) or varies(x.structure):
        raise ValueError("")
    return MultiplicationNode(ParameterNode("p"), VariableNode("x"))


def impl_expected_objective(i: str, p: Parameter, x: Variable):
    e = ScenarioOperatorNode(AllTimeSumNode(MultiplicationNode(ParameterNode("p"), VariableNode("x"))), "Expectation")
    m = Model(i, parameters={"p": p}, variables={"x": x}, objective_operational_contribution=e, objective_investment_contribution=VariableNode("x"))
    return (m.objective_operational_contribution, m.objective_investment_contribution)


def ref_expected_objective(i: str, p: Parameter, x: Variable):
    if varies(x.structure):
        raise ValueError("")
    e = ScenarioOperatorNode(AllTimeSumNode(MultiplicationNode(ParameterNode("p"), VariableNode("x"))), "Expectation")
    return (e, VariableNode("x"))


def impl_quadratic_objective(i: str, x: Variable, y: Variable, a: ExpressionNode):
    return Model(i, variables={"x": x, "y": y}, objective_operational_contribution=MultiplicationNode(VariableNode("x"), VariableNode("y"))).id


def ref_quadratic_objective(i: str, x: Variable, y: Variable, a: ExpressionNode):
    raise ValueError("")


def impl_quadratic_investment(i: str, x: Variable, y: Variable, a: ExpressionNode):
    return Model(i, variables={"x": x, "y": y}, objective_investment_contribution=MultiplicationNode(VariableNode("x"), VariableNode("y"))).id


def ref_quadratic_investment(i: str, x: Variable, y: Variable, a: ExpressionNode):
    raise ValueError("")


def impl_model(i: str, cs: List[Constraint], bs: List[Constraint], ps: List[Parameter], vs: List[Variable], o: Optional[ExpressionNode], v: Optional[ExpressionNode],
               d: bool, fs: List[PortFieldDefinition]):
    return model(i, constraints=cs, binding_constraints=bs, parameters=ps, variables=vs, objective_operational_contribution=o,
                 objective_investment_contribution=v, inter_block_dyn=d, port_fields_definitions=fs)


def ref_model(i: str, cs: List[Constraint], bs: List[Constraint], ps: List[Parameter], vs: List[Variable], o: Optional[ExpressionNode], v: Optional[ExpressionNode],
              d: bool, fs: List[PortFieldDefinition]):
    return Model(id=i, constraints={c.name: c for c in cs}, binding_constraints={c.name: c for c in bs}, parameters={p.name: p for p in ps},
                 variables={x.name: x for x in vs}, objective_operational_contribution=o, objective_investment_contribution=v, inter_block_dyn=d,
                 ports={}, port_fields_definitions={f.port_field: f for f in fs})


def impl_model_empty(i: str):
    return model(i)


def ref_model_empty(i: str):
    return Model(id=i, constraints={}, binding_constraints={}, inter_block_dyn=False, parameters={}, variables={}, objective_operational_contribution=None,
                 objective_investment_contribution=None, ports={}, port_fields_definitions={})


def impl_model_two_ports(i: str, p: ModelPort, q: ModelPort, r: ModelPort):
    return model(i, ports=[p, q, r]).ports


def ref_model_two_ports(i: str, p: ModelPort, q: ModelPort, r: ModelPort):
    if p.port_name == q.port_name or p.port_name == r.port_name or q.port_name == r.port_name:
        raise ValueError("")
    return {p.port_name: p, q.port_name: q, r.port_name: r}


def impl_all_constraints(m: Model):
    return list(m.get_all_constraints())


def ref_all_constraints(m: Model):
    return list(m.binding_constraints.values()) + list(m.constraints.values())


def impl_port_field_def(p: str, f: str, e: ExpressionNode):
    d = port_field_def(p, f, e)
    return (d.port_field, d.definition)


def ref_port_field_def(p: str, f: str, e: ExpressionNode):
    visit(e, _PortFieldExpressionChecker())
    return (PortFieldId(port_name=p, field_name=f), e)


def impl_port_negation(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(NegationNode(a), _PortFieldExpressionChecker())


def ref_port_negation(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    visit(a, _PortFieldExpressionChecker())
    return None


def impl_port_multiplication(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(MultiplicationNode(a, b), _PortFieldExpressionChecker())


def ref_port_multiplication(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    visit(a, _PortFieldExpressionChecker())
    visit(b, _PortFieldExpressionChecker())
    return None


def impl_port_division(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(DivisionNode(a, b), _PortFieldExpressionChecker())


def ref_port_division(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    visit(a, _PortFieldExpressionChecker())
    visit(b, _PortFieldExpressionChecker())
    return None


def impl_port_shift(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(TimeShiftNode(a, b), _PortFieldExpressionChecker())


def ref_port_shift(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    visit(a, _PortFieldExpressionChecker())
    return None


def impl_port_eval(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(TimeEvalNode(a, b), _PortFieldExpressionChecker())


def ref_port_eval(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    visit(a, _PortFieldExpressionChecker())
    return None


def impl_port_time_sum(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(TimeSumNode(a, b, b), _PortFieldExpressionChecker())


def ref_port_time_sum(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    visit(a, _PortFieldExpressionChecker())
    return None


def impl_port_all_time_sum(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(AllTimeSumNode(a), _PortFieldExpressionChecker())


def ref_port_all_time_sum(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    visit(a, _PortFieldExpressionChecker())
    return None


def impl_port_scenario(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(ScenarioOperatorNode(a, "Expectation"), _PortFieldExpressionChecker())


def ref_port_scenario(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    visit(a, _PortFieldExpressionChecker())
    return None


def impl_port_literal(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(LiteralNode(x), _PortFieldExpressionChecker())


def ref_port_literal(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return None


def impl_port_variable(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(VariableNode(n), _PortFieldExpressionChecker())


def ref_port_variable(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return None


def impl_port_parameter(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(ParameterNode(n), _PortFieldExpressionChecker())


def ref_port_parameter(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return None


def impl_port_addition(ops: List[ExpressionNode]):
    return visit(AdditionNode(ops), _PortFieldExpressionChecker())


def ref_port_addition(ops: List[ExpressionNode]):
    for o in ops:
        visit(o, _PortFieldExpressionChecker())
    return None


def impl_port_comparison(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(ComparisonNode(a, b, Comparator.EQUAL), _PortFieldExpressionChecker())


def ref_port_comparison(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    raise ValueError("")


def impl_port_component_parameter(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(ComponentParameterNode(n, n), _PortFieldExpressionChecker())


def ref_port_component_parameter(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    raise ValueError("")


def impl_port_component_variable(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(ComponentVariableNode(n, n), _PortFieldExpressionChecker())


def ref_port_component_variable(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    raise ValueError("")


def impl_port_problem_parameter(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(ProblemParameterNode(n, n, NoTimeIndex(), NoScenarioIndex()), _PortFieldExpressionChecker())


def ref_port_problem_parameter(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    raise ValueError("")


def impl_port_problem_variable(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(ProblemVariableNode(n, n, NoTimeIndex(), NoScenarioIndex()), _PortFieldExpressionChecker())


def ref_port_problem_variable(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    raise ValueError("")


def impl_port_port_field(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(PortFieldNode(n, n), _PortFieldExpressionChecker())


def ref_port_port_field(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    raise ValueError("")


def impl_port_aggregator(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    return visit(PortFieldAggregatorNode(a, "PortSum"), _PortFieldExpressionChecker())


def ref_port_aggregator(n: str, x: float, a: ExpressionNode, b: ExpressionNode):
    raise ValueError("")
