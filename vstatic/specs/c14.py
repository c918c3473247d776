from typing import Any, Dict, List, Optional
import ortools.linear_solver.pywraplp as lp
from andromede.simulation.optimization import OptimizationProblem, OptimizationContext, _instantiate_model_expression, _create_objective
from andromede.simulation.strategy import (MergedProblemStrategy, InvestmentProblemStrategy, OperationalProblemStrategy, UniformRisk, ExpectedValue,
    ModelSelectionStrategy)
from andromede.study.network import Component, Node
from andromede.model.model import Model
from andromede.expression.expression import ExpressionNode, literal

OPTIONS = {
    "*": {"algebra": False, "denote": False, "ignore_value": True},
    "objectives": {"cut": ["andromede.simulation.optimization._create_objective"], "no_inline": ["andromede.simulation.optimization._create_objective"]},
    "two_components": {"cut": ["andromede.simulation.optimization._create_objective"], "no_inline": ["andromede.simulation.optimization._create_objective"]},
    "contribution": {"raises": "ignore", "cut": ["andromede.simulation.linearize.linearize_expression", "andromede.expression.operators_expansion.expand_operators",
                     "andromede.simulation.optimization._instantiate_model_expression"]},
    "merged": {"ignore_value": False},
    "investment": {"ignore_value": False},
    "operational": {"ignore_value": False},
    "risk": {"ignore_value": False},
}


def impl_objectives(pb: OptimizationProblem):
    pb._create_objectives()


def ref_objectives(pb: OptimizationProblem):
    ctx = pb.context
    for component in ctx.network.all_components:
        for o in ctx.build_strategy.get_objectives(component.model):
            if o is not None:
                _create_objective(pb.solver, ctx, component, ctx.risk_strategy(o))


def two_components(pb: OptimizationProblem, c: Component, d: Node):
    pb.context._network._nodes = {"d": d}
    pb.context._network._components = {"c": c}
    pb.context._build_strategy = MergedProblemStrategy()


def impl_two_components(pb: OptimizationProblem, c: Component, d: Node):
    two_components(pb, c, d)
    pb._create_objectives()


def ref_two_components(pb: OptimizationProblem, c: Component, d: Node):
    two_components(pb, c, d)
    ref_objectives(pb)


def impl_contribution(solver: lp.Solver, ctx: OptimizationContext, component: Component, e: ExpressionNode):
    _create_objective(solver, ctx, component, e)


def ref_contribution(solver: lp.Solver, ctx: OptimizationContext, component: Component, e: ExpressionNode):
    x = ctx.linearize_expression(ctx.expand_operators(_instantiate_model_expression(e, component.id, ctx)))
    obj = solver.Objective()
    for term in x.terms.values():
        v = ctx.get_component_variable(term.time_index, term.scenario_index, term.component_id, term.variable_name)
        ctx._solver_variables[v.name()].is_in_objective = True
        obj.SetCoefficient(v, obj.GetCoefficient(v) + term.coefficient)
    obj.SetOffset(obj.offset() + x.constant)


def impl_merged(m: Model):
    r = list(MergedProblemStrategy().get_objectives(m))
    return (set(r), len(r))


def ref_merged(m: Model):
    return ({m.objective_operational_contribution, m.objective_investment_contribution}, 2)


def impl_investment(m: Model):
    return list(InvestmentProblemStrategy().get_objectives(m))


def ref_investment(m: Model):
    return [m.objective_investment_contribution]


def impl_operational(m: Model):
    return list(OperationalProblemStrategy().get_objectives(m))


def ref_operational(m: Model):
    return [m.objective_operational_contribution]


def impl_risk(e: ExpressionNode, p: float):
    return (UniformRisk()(e), ExpectedValue(p)(e))


def ref_risk(e: ExpressionNode, p: float):
    return (e, literal(p) * e)
