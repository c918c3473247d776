from typing import Any, Dict, List, Optional
import itertools
import ortools.linear_solver.pywraplp as lp
from andromede.simulation.optimization import (OptimizationProblem, OptimizationContext, _instantiate_model_expression, _compute_expression_value,
    TimestepComponentVariableKey, SolverVariableInfo, BlockBorderManagement)
from andromede.expression.indexing_structure import IndexingStructure
from andromede.model.common import ValueType
from andromede.model.variable import Variable
from andromede.simulation.strategy import MergedProblemStrategy
from andromede.study.network import Component, Node

OPTIONS = {
    "*": {"algebra": False, "denote": False},
    "variables": {"ignore_value": True, "raises": "ignore",
                  "cut": ["andromede.simulation.optimization.OptimizationContext.register_component_variable",
                          "andromede.simulation.optimization.OptimizationProblem._solver_variable_name"],
                  "no_inline": ["andromede.simulation.optimization.OptimizationContext.register_component_variable"]},
    "two_variables": {"ignore_value": True, "raises": "ignore",
                  "cut": ["andromede.simulation.optimization._compute_expression_value", "andromede.simulation.optimization._instantiate_model_expression",
                          "andromede.simulation.optimization.OptimizationContext.register_component_variable",
                          "andromede.simulation.optimization.OptimizationProblem._solver_variable_name"],
                  "no_inline": ["andromede.simulation.optimization.OptimizationContext.register_component_variable"]},
    "two_owners": {"ignore_value": True, "raises": "ignore",
                  "cut": ["andromede.simulation.optimization._compute_expression_value", "andromede.simulation.optimization._instantiate_model_expression",
                          "andromede.simulation.optimization.OptimizationContext.register_component_variable",
                          "andromede.simulation.optimization.OptimizationProblem._solver_variable_name"],
                  "no_inline": ["andromede.simulation.optimization.OptimizationContext.register_component_variable"]},
    "two_times": {"ignore_value": True, "raises": "ignore",
                  "cut": ["andromede.simulation.optimization._compute_expression_value", "andromede.simulation.optimization._instantiate_model_expression",
                          "andromede.simulation.optimization.OptimizationContext.register_component_variable",
                          "andromede.simulation.optimization.OptimizationProblem._solver_variable_name"],
                  "no_inline": ["andromede.simulation.optimization.OptimizationContext.register_component_variable"]},
    "crossed_bounds": {"ignore_value": True, "ignore_effects": True, "ignore_heap": True,
                       "cut": ["andromede.simulation.optimization.OptimizationContext.register_component_variable",
                               "andromede.simulation.optimization.OptimizationProblem._solver_variable_name"]},
}


def impl_variables(pb: OptimizationProblem):
    pb._create_variables()


def ref_variables(pb: OptimizationProblem):
    ctx = pb.context
    solver = pb.solver
    for component in ctx.network.all_components:
        for v in ctx.build_strategy.get_variables(component.model):
            for t in (ctx.get_time_indices(v.structure) if v.structure.time else [None]):
                for s in (ctx.get_scenario_indices(v.structure) if v.structure.scenario else [None]):
                    lb = -solver.infinity()
                    ub = solver.infinity()
                    if v.lower_bound:
                        lb = _compute_expression_value(_instantiate_model_expression(v.lower_bound, component.id, ctx), ctx, t, s)
                    if v.upper_bound:
                        ub = _compute_expression_value(_instantiate_model_expression(v.upper_bound, component.id, ctx), ctx, t, s)
                    name = pb._solver_variable_name(component.id, v.name, t, s)
                    if lb > ub:
                        raise ValueError("bounds")
                    if v.data_type == ValueType.BOOLEAN:
                        x = solver.BoolVar(name)
                    elif v.data_type == ValueType.INTEGER:
                        x = solver.IntVar(lb, ub, name)
                    else:
                        x = solver.NumVar(lb, ub, name)
                    ctx.register_component_variable(t, s, component.id, v.name, x)


def impl_crossed_bounds(pb: OptimizationProblem):
    pb._create_variables()


def ref_crossed_bounds(pb: OptimizationProblem):
    ref_variables(pb)


def two_variables(pb: OptimizationProblem, c: Component, v: Variable, w: Variable):
    pb.context._network._nodes = {}
    pb.context._network._components = {c.id: c}
    pb.context._build_strategy = MergedProblemStrategy()
    c.model.variables = {"x": v, "y": w}
    v.structure = IndexingStructure(False, False)
    w.structure = IndexingStructure(False, False)


def impl_two_variables(pb: OptimizationProblem, c: Component, v: Variable, w: Variable):
    two_variables(pb, c, v, w)
    pb._create_variables()


def ref_two_variables(pb: OptimizationProblem, c: Component, v: Variable, w: Variable):
    two_variables(pb, c, v, w)
    ref_variables(pb)


def two_owners(pb: OptimizationProblem, c: Component, d: Node, v: Variable):
    pb.context._network._nodes = {"d": d}
    pb.context._network._components = {"c": c}
    pb.context._build_strategy = MergedProblemStrategy()
    c.model.variables = {"x": v}
    d.model.variables = {"x": v}
    v.structure = IndexingStructure(False, False)


def impl_two_owners(pb: OptimizationProblem, c: Component, d: Node, v: Variable):
    two_owners(pb, c, d, v)
    pb._create_variables()


def ref_two_owners(pb: OptimizationProblem, c: Component, d: Node, v: Variable):
    two_owners(pb, c, d, v)
    ref_variables(pb)


def two_times(pb: OptimizationProblem, c: Component, v: Variable, a: int, b: int, t: bool, s: bool):
    pb.context._network._nodes = {}
    pb.context._network._components = {"c": c}
    pb.context._build_strategy = MergedProblemStrategy()
    pb.context._block.timesteps = [a, b]
    pb.context._scenarios = 2
    c.model.variables = {"x": v}
    v.structure = IndexingStructure(t, s)


def impl_two_times(pb: OptimizationProblem, c: Component, v: Variable, a: int, b: int, t: bool, s: bool):
    two_times(pb, c, v, a, b, t, s)
    pb._create_variables()


def ref_two_times(pb: OptimizationProblem, c: Component, v: Variable, a: int, b: int, t: bool, s: bool):
    two_times(pb, c, v, a, b, t, s)
    ref_variables(pb)


def impl_name(pb: OptimizationProblem, component_id: str, var_name: str, t: Optional[int], s: Optional[int]):
    return pb._solver_variable_name(component_id, var_name, t, s)


def ref_name(pb: OptimizationProblem, component_id: str, var_name: str, t: Optional[int], s: Optional[int]):
    ctx = pb.context
    r = ""
    if ctx.full_var_name:
        if ctx.tree_node:
            r = r + ctx.tree_node + "_"
        if component_id:
            r = r + component_id + "_"
    r = r + var_name
    if t is not None and ctx.block_length() > 1:
        r = r + f"_t{t}"
    if s is not None and ctx.scenarios > 1:
        r = r + f"_s{s}"
    return r


def impl_register(ctx: OptimizationContext, t: Optional[int], s: Optional[int], c: str, n: str, v: lp.Variable):
    ctx.register_component_variable(t, s, c, n, v)


def ref_register(ctx: OptimizationContext, t: Optional[int], s: Optional[int], c: str, n: str, v: lp.Variable):
    key = TimestepComponentVariableKey(c, n, t, s)
    if key not in ctx._component_variables:
        ctx._solver_variables[v.name()] = SolverVariableInfo(v.name(), len(ctx._solver_variables), False)
    ctx._component_variables[key] = v


def impl_get(ctx: OptimizationContext, t: int, s: Optional[int], c: str, n: str):
    return ctx.get_component_variable(t, s, c, n)


def ref_get(ctx: OptimizationContext, t: int, s: Optional[int], c: str, n: str):
    if ctx._border_management != BlockBorderManagement.CYCLE:
        raise NotImplementedError()
    return ctx._component_variables[TimestepComponentVariableKey(c, n, t % ctx.block_length(), s)]


def impl_get_timeless(ctx: OptimizationContext, s: Optional[int], c: str, n: str):
    return ctx.get_component_variable(None, s, c, n)


def ref_get_timeless(ctx: OptimizationContext, s: Optional[int], c: str, n: str):
    return ctx._component_variables[TimestepComponentVariableKey(c, n, None, s)]


def impl_indices(ctx: OptimizationContext, i: IndexingStructure):
    return (list(ctx.get_time_indices(i)), list(ctx.get_scenario_indices(i)), ctx.block_length())


def ref_indices(ctx: OptimizationContext, i: IndexingStructure):
    n = len(ctx._block.timesteps)
    return (list(range(n)) if i.time else [0], list(range(ctx._scenarios)) if i.scenario else [0], n)


def impl_all_variables(ctx: OptimizationContext):
    return ctx.get_all_component_variables()


def ref_all_variables(ctx: OptimizationContext):
    return ctx._component_variables
