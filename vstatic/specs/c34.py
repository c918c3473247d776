from typing import Any, Dict, List, Mapping, Optional
import ortools.linear_solver.pywraplp as lp
from andromede.study.data import DataBase
from andromede.study.network import Network
from andromede.simulation.optimization import build_problem, OptimizationProblem, OptimizationContext, BlockBorderManagement
from andromede.simulation.time_block import TimeBlock
from andromede.simulation.strategy import ModelSelectionStrategy, RiskManagementStrategy, MergedProblemStrategy, UniformRisk

OPTIONS = {"steps": {"effect_names": True}, "*": {"algebra": False, "denote": False, "ordered_effects": True, "ignore_heap": True,
           "cut": ["andromede.study.data.DataBase.requirements_consistency",
                   "andromede.simulation.optimization.OptimizationProblem._register_connection_fields_definitions",
                   "andromede.simulation.optimization.OptimizationProblem._create_variables",
                   "andromede.simulation.optimization.OptimizationProblem._create_constraints",
                   "andromede.simulation.optimization.OptimizationProblem._create_objectives"],
           "no_inline": ["andromede.study.data.DataBase.requirements_consistency",
                   "andromede.simulation.optimization.OptimizationProblem._register_connection_fields_definitions",
                   "andromede.simulation.optimization.OptimizationProblem._create_variables",
                   "andromede.simulation.optimization.OptimizationProblem._create_constraints",
                   "andromede.simulation.optimization.OptimizationProblem._create_objectives"]}}


def fields(pb: OptimizationProblem):
    c = pb.context
    return (pb.name, pb.solver, c._network, c._database, c._block, c._scenarios, c._border_management, c._build_strategy, c._risk_strategy,
            c._tree_node, c._full_var_name, c.network, c.database, c.scenarios, c.tree_node, c.build_strategy, c.risk_strategy, c.full_var_name,
            c.block_length(), len(c._component_variables), len(c._solver_variables), len(c.connection_fields_expressions))


def impl_build(n: Network, db: DataBase, b: TimeBlock, s: int, name: str, bm: BlockBorderManagement, sid: str, bs: ModelSelectionStrategy,
               rs: RiskManagementStrategy, node: str, full: bool):
    return fields(build_problem(n, db, b, s, problem_name=name, border_management=bm, solver_id=sid, build_strategy=bs, risk_strategy=rs,
                                decision_tree_node=node, use_full_var_name=full))


def ref_build(n: Network, db: DataBase, b: TimeBlock, s: int, name: str, bm: BlockBorderManagement, sid: str, bs: ModelSelectionStrategy,
              rs: RiskManagementStrategy, node: str, full: bool):
    solver = lp.Solver.CreateSolver(sid)
    db.requirements_consistency(n)
    pb = OptimizationProblem(name, solver, OptimizationContext(n, db, b, s, bm, bs, rs, node, full))
    return (name, solver, n, db, b, s, bm, bs, rs, node, full, n, db, s, node, bs, rs, full, len(b.timesteps), 0, 0, 0)


def impl_defaults(n: Network, db: DataBase, b: TimeBlock, s: int):
    r = build_problem(n, db, b, s)
    c = r.context
    return (c._network, c._database, c._block, c._scenarios, c._border_management, type(c._build_strategy), type(c._risk_strategy), c._tree_node, c._full_var_name)


def ref_defaults(n: Network, db: DataBase, b: TimeBlock, s: int):
    solver = lp.Solver.CreateSolver("SCIP")
    db.requirements_consistency(n)
    pb = OptimizationProblem("optimization_problem", solver,
                             OptimizationContext(n, db, b, s, BlockBorderManagement.CYCLE, MergedProblemStrategy(), UniformRisk(), "", True))
    return (n, db, b, s, BlockBorderManagement.CYCLE, MergedProblemStrategy, UniformRisk, "", True)


def impl_steps(name: str, solver: lp.Solver, ctx: OptimizationContext):
    OptimizationProblem(name, solver, ctx)


def ref_steps(pb: OptimizationProblem):
    pb._register_connection_fields_definitions()
    pb._create_variables()
    pb._create_constraints()
    pb._create_objectives()


def impl_export(pb: OptimizationProblem):
    return (pb.export_as_mps(), pb.export_as_lp())


def ref_export(pb: OptimizationProblem):
    return (pb.solver.ExportModelAsMpsFormat(fixed_format=True, obfuscated=False), pb.solver.ExportModelAsLpFormat(obfuscated=False))
