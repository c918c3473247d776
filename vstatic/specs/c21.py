import json
from pathlib import Path
from typing import Any, Dict, List, Optional, Set
import ortools.linear_solver.pywraplp as lp
from andromede.simulation.benders_decomposed import BendersDecomposedProblem, build_benders_decomposed_problem
from andromede.simulation.decision_tree import DecisionTreeNode
from andromede.simulation.optimization import BlockBorderManagement, OptimizationProblem, SolverVariableInfo, build_problem, fusion_problems
from andromede.simulation.output_values import BendersDecomposedSolution, BendersMergedSolution
from andromede.simulation.runner import BendersRunner, MergeMPSRunner
from andromede.simulation.strategy import ExpectedValue, InvestmentProblemStrategy, OperationalProblemStrategy
from andromede.simulation.time_block import TimeBlock
from andromede.study.data import DataBase
from andromede.utils import read_json, serialize, serialize_json

O = "andromede.simulation.optimization."
D = "andromede.simulation.decision_tree.DecisionTreeNode."
B = "andromede.simulation.benders_decomposed.BendersDecomposedProblem."
U = "andromede.utils."
BUILD = [O + "build_problem", O + "fusion_problems", D + "_add_coupling_constraints", D + "is_leaves_prob_sum_one", D + "traverse"]
EXPORT = [U + "serialize", U + "serialize_json", B + "export_structure", B + "export_options"]
RUN = [B + "initialise", "andromede.simulation.runner.CommandRunner.run", B + "read_solution"]

OPTIONS = {"*": {"algebra": False, "denote": False},
           "build": {"cut": BUILD + [D + "coupling_network"], "no_inline": [O + "build_problem", D + "_add_coupling_constraints"]},
           "files": {"cut": EXPORT, "no_inline": [U + "serialize", U + "serialize_json"]},
           "structure": {"xlists": ["_solver_variables", "subproblems"], "bounds": (1, 2)}, "run": {"cut": RUN, "no_inline": RUN, "ordered_effects": True},
           "read": {"cut": [U + "read_json"], "no_inline": [U + "read_json"]},
           "fusion": {"ignore_heap": True, "xlists": ["variables", "constraints"], "bounds": (1, 2)}, "fusion_state": {"ignore_effects": True, "xlists": ["variables", "constraints"], "bounds": (1, 2)}, "fusion_columns": {"ignore_heap": True, "ignore_effects": True}}


def impl_build(t: DecisionTreeNode, db: DataBase, b: BlockBorderManagement, s: str, f: str):
    r = build_benders_decomposed_problem(t, db, border_management=b, solver_id=s, struct_filename=f)
    return (r.master, r.subproblems, r.structure_filename, r.solution, r.is_merged)


def ref_build(t: DecisionTreeNode, db: DataBase, b: BlockBorderManagement, s: str, f: str):
    if not t.is_leaves_prob_sum_one():
        raise ValueError("")
    t._add_coupling_constraints()
    none = TimeBlock(0, [0])
    coupler = build_problem(t.coupling_network, db, none, 0, problem_name="coupler", solver_id=s, build_strategy=InvestmentProblemStrategy(),
                            risk_strategy=ExpectedValue(0.0), use_full_var_name=False)
    masters = []
    subs = []
    for n in t.traverse():
        tag = ""
        if t.size > 1:
            tag = "_" + n.id
        masters.append(build_problem(n.network, db, none, 0, problem_name="master" + tag, solver_id=s, build_strategy=InvestmentProblemStrategy(),
                                     decision_tree_node=n.id, risk_strategy=ExpectedValue(n.prob)))
        for k in n.config.blocks:
            bt = ""
            if len(n.config.blocks) > 1:
                bt = f"_b{k.id}"
            subs.append(build_problem(n.network, db, k, n.config.scenarios, problem_name="subproblem" + tag + bt, border_management=b, solver_id=s,
                                      build_strategy=OperationalProblemStrategy(), decision_tree_node=n.id, risk_strategy=ExpectedValue(n.prob)))
    return (fusion_problems(masters, coupler), subs, f, None, False)


def impl_structure(b: BendersDecomposedProblem):
    return b.export_structure()


def ref_structure(b: BendersDecomposedProblem):
    if not b.subproblems:
        raise RuntimeError("")
    columns: Dict[str, Dict[str, int]] = {}
    columns["master"] = {v.name: v.column_id for v in b.master.context._solver_variables.values()}
    shared = {v.name for v in b.master.context._solver_variables.values()}
    for p in b.subproblems:
        columns[p.name] = {v.name: v.column_id for v in p.context._solver_variables.values() if v.name in shared}
    out = ""
    for problem, table in columns.items():
        for name, col in table.items():
            out += f"{problem:>50}{name:>50}{col:>10}\n"
    return out


def two_subproblems(b: BendersDecomposedProblem, p: OptimizationProblem, q: OptimizationProblem, v: SolverVariableInfo, w: SolverVariableInfo,
                    x: SolverVariableInfo):
    b.subproblems = [p, q]
    p.name = "p"
    q.name = "q"
    b.master.context._solver_variables = {"v": v}
    p.context._solver_variables = {"w": w}
    q.context._solver_variables = {"x": x}


def impl_two_subproblems(b: BendersDecomposedProblem, p: OptimizationProblem, q: OptimizationProblem, v: SolverVariableInfo, w: SolverVariableInfo,
                         x: SolverVariableInfo):
    two_subproblems(b, p, q, v, w, x)
    return b.export_structure()


def ref_two_subproblems(b: BendersDecomposedProblem, p: OptimizationProblem, q: OptimizationProblem, v: SolverVariableInfo, w: SolverVariableInfo,
                        x: SolverVariableInfo):
    two_subproblems(b, p, q, v, w, x)
    return ref_structure(b)


def impl_options(b: BendersDecomposedProblem, s: str, l: int):
    o = b.export_options(solver_name=s, log_level=l)
    return (o["MASTER_NAME"], o["STRUCTURE_FILE"], o["JSON_FILE"], o["SLAVE_WEIGHT"], o["SLAVE_WEIGHT_VALUE"], o["MASTER_FORMULATION"], o["SOLVER_NAME"],
            o["LOG_LEVEL"], o["INPUTROOT"], o["OUTPUTROOT"], o["MAX_ITERATIONS"], o["ABSOLUTE_GAP"], o["RELATIVE_GAP"], o["AGGREGATION"])


def ref_options(b: BendersDecomposedProblem, s: str, l: int):
    return (f"{b.master.name}", f"{b.structure_filename}", f"{b.output_path}/out.json", "CONSTANT", 1, "integer", s, l, ".", ".", -1, 1, 1e-6, False)


def impl_files(b: BendersDecomposedProblem, s: str, l: int, debug: bool):
    b.initialise(solver_name=s, log_level=l, is_debug=debug)


def ref_files(b: BendersDecomposedProblem, s: str, l: int, debug: bool):
    serialize(f"{b.master.name}.mps", b.master.solver.ExportModelAsMpsFormat(fixed_format=True, obfuscated=False), b.emplacement)
    for p in b.subproblems:
        serialize(f"{p.name}.mps", p.solver.ExportModelAsMpsFormat(fixed_format=True, obfuscated=False), b.emplacement)
    serialize(f"{b.structure_filename}", b.export_structure(), b.emplacement)
    serialize_json("options.json", b.export_options(solver_name=s, log_level=l), b.emplacement)
    if debug:
        serialize(f"{b.master.name}.lp", b.master.solver.ExportModelAsLpFormat(obfuscated=False), b.emplacement)
        for p in b.subproblems:
            serialize(f"{p.name}.lp", p.solver.ExportModelAsLpFormat(obfuscated=False), b.emplacement)


def impl_run(b: BendersDecomposedProblem, s: str, l: int, merge: bool, debug: bool):
    return b.run(solver_name=s, log_level=l, should_merge=merge, show_debug=debug)


def ref_run(b: BendersDecomposedProblem, s: str, l: int, merge: bool, debug: bool):
    b.initialise(solver_name=s, log_level=l, is_debug=debug)
    if merge:
        b.is_merged = True
        code = MergeMPSRunner(b.emplacement).run()
    else:
        code = BendersRunner(b.emplacement).run()
    if code != 0:
        return False
    b.read_solution()
    return True


def impl_read(b: BendersDecomposedProblem):
    b.read_solution()


def ref_read(b: BendersDecomposedProblem):
    try:
        data = read_json("out.json", b.emplacement / b.output_path)
    except FileNotFoundError:
        return
    if b.is_merged:
        b.solution = BendersMergedSolution(data)
    else:
        b.solution = BendersDecomposedSolution(data)


def impl_fusion(ms: List[OptimizationProblem], c: OptimizationProblem):
    return fusion_problems(ms, c)


def ref_fusion(ms: List[OptimizationProblem], c: OptimizationProblem):
    if len(ms) == 1 and c.solver.NumConstraints() == 0:
        return ms[0]
    known = {v.name(): v for v in c.solver.variables()}
    rows = {}
    total = c.solver.Objective()
    c.name = "master"
    for m in ms:
        cost = m.solver.Objective()
        for v in m.solver.variables():
            name = v.name()
            info = m.context._solver_variables[name]
            if name in known:
                x = known[name]
                x.SetLb(v.lb())
                x.SetUb(v.ub())
                x.SetInteger(v.integer())
                c.context._solver_variables[name].is_in_objective = info.is_in_objective
            else:
                x = c.solver.Var(v.lb(), v.ub(), v.integer(), name)
                c.context._solver_variables[name] = SolverVariableInfo(name, len(c.context._solver_variables), info.is_in_objective)
            for row in m.solver.constraints():
                a = row.GetCoefficient(v)
                if a != 0:
                    key = m.name + "_" + row.name()
                    if key not in rows:
                        rows[key] = c.solver.Constraint(row.Lb(), row.Ub(), key)
                    rows[key].SetCoefficient(x, a)
            k = cost.GetCoefficient(v)
            if k != 0:
                total.SetCoefficient(x, k)
        total.SetOffset(total.offset() + cost.offset())
    return c


def impl_fusion_columns(ms: List[OptimizationProblem], c: OptimizationProblem):
    fusion_problems(ms, c)
    return c.context._solver_variables


def ref_fusion_columns(ms: List[OptimizationProblem], c: OptimizationProblem):
    if len(ms) == 1 and c.solver.NumConstraints() == 0:
        return c.context._solver_variables
    known = {v.name(): v for v in c.solver.variables()}
    rows = {}
    total = c.solver.Objective()
    c.name = "master"
    for m in ms:
        cost = m.solver.Objective()
        for v in m.solver.variables():
            name = v.name()
            info = m.context._solver_variables[name]
            if name in known:
                x = known[name]
                x.SetLb(v.lb())
                x.SetUb(v.ub())
                x.SetInteger(v.integer())
                c.context._solver_variables[name].is_in_objective = info.is_in_objective
            else:
                x = c.solver.Var(v.lb(), v.ub(), v.integer(), name)
                c.context._solver_variables[name] = SolverVariableInfo(name, len(c.context._solver_variables), info.is_in_objective)
            for row in m.solver.constraints():
                a = row.GetCoefficient(v)
                if a != 0:
                    key = m.name + "_" + row.name()
                    if key not in rows:
                        rows[key] = c.solver.Constraint(row.Lb(), row.Ub(), key)
                    rows[key].SetCoefficient(x, a)
            k = cost.GetCoefficient(v)
            if k != 0:
                total.SetCoefficient(x, k)
        total.SetOffset(total.offset() + cost.offset())
    return c.context._solver_variables


def impl_fusion_state(ms: List[OptimizationProblem], c: OptimizationProblem):
    return fusion_problems(ms, c)


def ref_fusion_state(ms: List[OptimizationProblem], c: OptimizationProblem):
    if len(ms) == 1 and c.solver.NumConstraints() == 0:
        return ms[0]
    known = {v.name(): v for v in c.solver.variables()}
    rows = {}
    total = c.solver.Objective()
    c.name = "master"
    for m in ms:
        cost = m.solver.Objective()
        for v in m.solver.variables():
            name = v.name()
            info = m.context._solver_variables[name]
            if name in known:
                x = known[name]
                x.SetLb(v.lb())
                x.SetUb(v.ub())
                x.SetInteger(v.integer())
                c.context._solver_variables[name].is_in_objective = info.is_in_objective
            else:
                x = c.solver.Var(v.lb(), v.ub(), v.integer(), name)
                c.context._solver_variables[name] = SolverVariableInfo(name, len(c.context._solver_variables), info.is_in_objective)
            for row in m.solver.constraints():
                a = row.GetCoefficient(v)
                if a != 0:
                    key = m.name + "_" + row.name()
                    if key not in rows:
                        rows[key] = c.solver.Constraint(row.Lb(), row.Ub(), key)
                    rows[key].SetCoefficient(x, a)
            k = cost.GetCoefficient(v)
            if k != 0:
                total.SetCoefficient(x, k)
        total.SetOffset(total.offset() + cost.offset())
    return c


def impl_places(m: OptimizationProblem, s: List[OptimizationProblem], e: str, o: str, f: str):
    b = BendersDecomposedProblem(m, s, e, o, f)
    return (b.master, b.subproblems, b.emplacement, b.output_path, b.structure_filename, b.solution, b.is_merged)


def ref_places(m: OptimizationProblem, s: List[OptimizationProblem], e: str, o: str, f: str):
    return (m, s, Path(e), Path(o), f, None, False)


def impl_write_text(n: str, m: str, p: Path):
    serialize(n, m, p)


def ref_write_text(n: str, m: str, p: Path):
    p.mkdir(parents=True, exist_ok=True)
    with (p / n).open(mode="w") as f:
        f.write(m)


def impl_write_json(n: str, m: Dict[str, Any], p: Path):
    serialize_json(n, m, p)


def ref_write_json(n: str, m: Dict[str, Any], p: Path):
    serialize(n, json.dumps(m, indent=4), p)


def impl_read_json(n: str, p: Path):
    return read_json(n, p)


def ref_read_json(n: str, p: Path):
    with (p / n).open() as f:
        return json.load(f)
