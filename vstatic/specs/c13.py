from typing import Any, Dict, List, Optional
import ortools.linear_solver.pywraplp as lp
from andromede.simulation.optimization import (OptimizationProblem, OptimizationContext, _instantiate_model_expression, _compute_expression_value,
    _create_constraint, make_constraint, ConstraintData)
from andromede.simulation.linear_expression import LinearExpression, Term, TermKey
from andromede.model.constraint import Constraint
from andromede.expression.expression import ExpressionNode
from andromede.expression.context_adder import add_component_context
from andromede.expression.port_resolver import resolve_port
from andromede.expression.operators_expansion import expand_operators, ProblemDimensions
from andromede.expression.indexing import compute_indexation
from andromede.simulation.linearize import linearize_expression
from andromede.simulation.strategy import MergedProblemStrategy
from andromede.study.network import Component, Node

CUTS = ["andromede.simulation.linearize.linearize_expression", "andromede.expression.operators_expansion.expand_operators",
        "andromede.expression.indexing.compute_indexation"]

OPTIONS = {
    "*": {"algebra": False, "denote": False, "ignore_value": True, "raises": "ignore"},
    "rows": {"cut": ["andromede.simulation.linearize.linearize_expression", "andromede.expression.operators_expansion.expand_operators",
                     "andromede.expression.indexing.compute_indexation", "andromede.simulation.optimization._compute_expression_value"]},
    "two_rows": {"cut": ["andromede.simulation.linearize.linearize_expression", "andromede.expression.operators_expansion.expand_operators",
                         "andromede.expression.indexing.compute_indexation", "andromede.simulation.optimization._compute_expression_value"]},
    "two_constraints": {"cut": ["andromede.model.constraint.Constraint.__post_init__", "andromede.simulation.optimization._create_constraint"],
                        "no_inline": ["andromede.simulation.optimization._create_constraint"]},
    "constraints": {"cut": ["andromede.model.constraint.Constraint.__post_init__", "andromede.simulation.optimization._create_constraint"],
                    "no_inline": ["andromede.simulation.optimization._create_constraint"]},
    "instantiate": {"ignore_value": False},
    "index": {"ignore_value": False, "cut": ["andromede.expression.indexing.compute_indexation"]},
    "border": {"ignore_value": False, "raises": "equal"},
    "expand": {"ignore_value": False, "cut": ["andromede.expression.operators_expansion.expand_operators"]},
    "linearize": {"ignore_value": False, "cut": ["andromede.simulation.linearize.linearize_expression"]},
    "indexing": {"ignore_value": False, "cut": ["andromede.expression.indexing.compute_indexation"]},
}


def ref_add_row(solver: lp.Solver, ctx: OptimizationContext, name: str, t: int, s: int, lb: float, ub: float, e: LinearExpression):
    row = solver.Constraint(f"{name}_t{t}_s{s}")
    for term in e.terms.values():
        v = ctx.get_component_variable(term.time_index, term.scenario_index, term.component_id, term.variable_name)
        row.SetCoefficient(v, row.GetCoefficient(v) + term.coefficient)
    row.SetBounds(lb - e.constant, ub - e.constant)


def impl_constraints(pb: OptimizationProblem):
    pb._create_constraints()


def ref_constraints(pb: OptimizationProblem):
    ctx = pb.context
    for component in ctx.network.all_components:
        for c in ctx.build_strategy.get_constraints(component.model):
            e = _instantiate_model_expression(c.expression, component.id, ctx)
            lb = _instantiate_model_expression(c.lower_bound, component.id, ctx)
            ub = _instantiate_model_expression(c.upper_bound, component.id, ctx)
            x = Constraint(name=component.id + "_" + c.name, expression=e, lower_bound=lb, upper_bound=ub)
            _create_constraint(pb.solver, ctx, x)


def impl_rows(solver: lp.Solver, ctx: OptimizationContext, x: Constraint):
    _create_constraint(solver, ctx, x)


def ref_rows(solver: lp.Solver, ctx: OptimizationContext, x: Constraint):
    expanded = ctx.expand_operators(x.expression)
    i = ctx.compute_indexing(x.expression)
    j = ctx.compute_indexing(x.lower_bound)
    k = ctx.compute_indexing(x.upper_bound)
    for t in range(ctx.block_length() if (i.time or j.time or k.time) else 1):
        for s in range(ctx.scenarios if (i.scenario or j.scenario or k.scenario) else 1):
            ref_add_row(solver, ctx, x.name, t, s,
                        _compute_expression_value(x.lower_bound, ctx, t, s),
                        _compute_expression_value(x.upper_bound, ctx, t, s),
                        ctx.linearize_expression(expanded, t, s))


def two_rows(ctx: OptimizationContext, a: int, b: int):
    ctx._block.timesteps = [a, b]
    ctx._scenarios = 2


def impl_two_rows(solver: lp.Solver, ctx: OptimizationContext, x: Constraint, a: int, b: int):
    two_rows(ctx, a, b)
    _create_constraint(solver, ctx, x)


def ref_two_rows(solver: lp.Solver, ctx: OptimizationContext, x: Constraint, a: int, b: int):
    two_rows(ctx, a, b)
    ref_rows(solver, ctx, x)


def two_constraints(pb: OptimizationProblem, c: Component, d: Node, x: Constraint, y: Constraint, z: Constraint):
    pb.context._network._nodes = {"d": d}
    pb.context._network._components = {"c": c}
    pb.context._build_strategy = MergedProblemStrategy()
    c.model.constraints = {"x": x, "y": y}
    c.model.binding_constraints = {}
    d.model.constraints = {"x": x}
    d.model.binding_constraints = {"z": z}


def impl_two_constraints(pb: OptimizationProblem, c: Component, d: Node, x: Constraint, y: Constraint, z: Constraint):
    two_constraints(pb, c, d, x, y, z)
    pb._create_constraints()


def ref_two_constraints(pb: OptimizationProblem, c: Component, d: Node, x: Constraint, y: Constraint, z: Constraint):
    two_constraints(pb, c, d, x, y, z)
    ref_constraints(pb)


def impl_instantiate(e: ExpressionNode, c: str, ctx: OptimizationContext):
    return _instantiate_model_expression(e, c, ctx)


def ref_instantiate(e: ExpressionNode, c: str, ctx: OptimizationContext):
    return resolve_port(add_component_context(c, e), c, ctx.connection_fields_expressions)


def impl_expand(ctx: OptimizationContext, e: ExpressionNode):
    return ctx.expand_operators(e)


def ref_expand(ctx: OptimizationContext, e: ExpressionNode):
    return expand_operators(e, ProblemDimensions(len(ctx._block.timesteps), ctx._scenarios), ctx.evaluate_time_bound, ctx._indexing_structure_provider)


def impl_linearize(ctx: OptimizationContext, e: ExpressionNode, t: Optional[int], s: Optional[int]):
    return (ctx.linearize_expression(e, t, s), ctx.linearize_expression(e))


def ref_linearize(ctx: OptimizationContext, e: ExpressionNode, t: Optional[int], s: Optional[int]):
    return (linearize_expression(e, t, s, ctx._parameter_getter), linearize_expression(e, None, None, ctx._parameter_getter))


def impl_indexing(ctx: OptimizationContext, e: ExpressionNode):
    return ctx.compute_indexing(e)


def ref_indexing(ctx: OptimizationContext, e: ExpressionNode):
    return compute_indexation(e, ctx._indexing_structure_provider)


def impl_make(solver: lp.Solver, ctx: OptimizationContext, t: int, s: int, d: ConstraintData):
    make_constraint(solver, ctx, t, s, d)


def ref_make(solver: lp.Solver, ctx: OptimizationContext, t: int, s: int, d: ConstraintData):
    ref_add_row(solver, ctx, d.name, t, s, d.lower_bound, d.upper_bound, d.expression)
