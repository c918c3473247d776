from typing import Any, Dict, List, Optional, Union
import math
from andromede.simulation.output_values import OutputValues, _are_mappings_close, BendersSolution, BendersMergedSolution, BendersDecomposedSolution
from andromede.simulation.optimization import OptimizationProblem, TimestepComponentVariableKey
import ortools.linear_solver.pywraplp as lp
from andromede.study.data import TimeScenarioIndex

N = "andromede.simulation.output_values."
OPTIONS = {"*": {"algebra": False, "denote": False}, "set": {"ignore_heap": True}, "assign_constant": {"ignore_heap": True}, "assign_scenarios": {"ignore_heap": True},
           "assign_series": {"ignore_heap": True}, "mappings": {"cut_nested": [N + "_are_mappings_close"]}, "build": {"xlists": ["_component_variables"], "bounds": (1,)},
           "component_close": {"cut": [N + "_are_mappings_close"]}, "component_eq": {"cut": [N + "_are_mappings_close"]},
           "close": {"cut": [N + "_are_mappings_close"]}, "eq": {"cut": [N + "_are_mappings_close"]}}


def impl_set(v: OutputValues.Variable, t: Optional[int], s: Optional[int], x: float):
    v._set(t, s, x)
    return (v._value, v._size)


def ref_set(v: OutputValues.Variable, t: Optional[int], s: Optional[int], x: float):
    if t is None:
        t = 0
    if s is None:
        s = 0
    k = TimeScenarioIndex(t, s)
    if k not in v._value:
        v._size = (max(v._size[0], s + 1), max(v._size[1], t + 1))
    v._value[k] = x
    return (v._value, v._size)


def impl_get(v: OutputValues.Variable, ns: int, nt: int):
    v._size = (ns, nt)
    return v.value


def ref_get(v: OutputValues.Variable, ns: int, nt: int):
    v._size = (ns, nt)
    if nt == 1 and ns == 1:
        return v._value[TimeScenarioIndex(0, 0)]
    if nt == 1:
        return [v._value[TimeScenarioIndex(0, s)] for s in range(ns)]
    return [[v._value[TimeScenarioIndex(t, s)] for t in range(nt)] for s in range(ns)]


def impl_assign_constant(v: OutputValues.Variable, x: float):
    v.value = x
    return (v._value, v._size)


def ref_assign_constant(v: OutputValues.Variable, x: float):
    v._value.clear()
    v._value[TimeScenarioIndex(0, 0)] = x
    v._size = (1, 1)
    return (v._value, v._size)


def impl_assign_scenarios(v: OutputValues.Variable, x: List[float]):
    v.value = x
    return (v._value, v._size)


def ref_assign_scenarios(v: OutputValues.Variable, x: List[float]):
    v._value.clear()
    for s, y in enumerate(x):
        v._value[TimeScenarioIndex(0, s)] = y
    v._size = (len(x), 1)
    return (v._value, v._size)


def impl_assign_series(v: OutputValues.Variable, x: List[List[float]]):
    v.value = x
    return (v._value, v._size)


def ref_assign_series(v: OutputValues.Variable, x: List[List[float]]):
    v._value.clear()
    n = 1
    for s, row in enumerate(x):
        n = len(row)
        for t, y in enumerate(row):
            v._value[TimeScenarioIndex(t, s)] = y
    v._size = (len(x), n)
    return (v._value, v._size)


def impl_variable_eq(v: OutputValues.Variable, w: OutputValues.Variable):
    return v == w


def ref_variable_eq(v: OutputValues.Variable, w: OutputValues.Variable):
    if v.ignore or w.ignore:
        return True
    return v._name == w._name and v._size == w._size and v._value == w._value


def impl_variable_close(v: OutputValues.Variable, w: OutputValues.Variable, r: float, a: float):
    return v.is_close(w, rel_tol=r, abs_tol=a)


def ref_variable_close(v: OutputValues.Variable, w: OutputValues.Variable, r: float, a: float):
    if v.ignore or w.ignore:
        return True
    if v._name != w._name or v._size != w._size or v._value.keys() != w._value.keys():
        return False
    return all(math.isclose(v._value[k], w._value[k], rel_tol=r, abs_tol=a) for k in v._value)


def impl_component_close(v: OutputValues.Component, w: OutputValues.Component, r: float, a: float):
    return v.is_close(w, rel_tol=r, abs_tol=a)


def ref_component_close(v: OutputValues.Component, w: OutputValues.Component, r: float, a: float):
    if v.ignore or w.ignore:
        return True
    return v._id == w._id and _are_mappings_close(v._variables, w._variables, r, a)


def impl_component_eq(v: OutputValues.Component, w: OutputValues.Component):
    return v == w


def ref_component_eq(v: OutputValues.Component, w: OutputValues.Component):
    if v.ignore or w.ignore:
        return True
    return v._id == w._id and _are_mappings_close(v._variables, w._variables, 0.0, 0.0)


def impl_close(v: OutputValues, w: OutputValues, r: float, a: float):
    return v.is_close(w, rel_tol=r, abs_tol=a)


def ref_close(v: OutputValues, w: OutputValues, r: float, a: float):
    return _are_mappings_close(v._components, w._components, r, a)


def impl_eq(v: OutputValues, w: OutputValues):
    return v == w


def ref_eq(v: OutputValues, w: OutputValues):
    return _are_mappings_close(v._components, w._components, 0.0, 0.0)


def impl_lookup_var(c: OutputValues.Component, n: str):
    r = c.var(n)
    return (r, c._variables)


def ref_lookup_var(c: OutputValues.Component, n: str):
    if n not in c._variables:
        c._variables[n] = OutputValues.Variable(n)
    return (c._variables[n], c._variables)


def impl_lookup_component(o: OutputValues, n: str):
    r = o.component(n)
    return (r, o._components)


def ref_lookup_component(o: OutputValues, n: str):
    if n not in o._components:
        o._components[n] = OutputValues.Component(n)
    return (o._components[n], o._components)


def impl_build(p: OptimizationProblem):
    return OutputValues(p)


def ref_build(p: OptimizationProblem):
    o = OutputValues()
    o.problem = p
    for k, x in p.context._component_variables.items():
        o.component(k.component_id).var(k.variable_name)._set(k.block_timestep, k.scenario, x.solution_value())
    return o


def impl_build_two(p: OptimizationProblem, k: TimestepComponentVariableKey, l: TimestepComponentVariableKey, x: lp.Variable, y: lp.Variable):
    p.context._component_variables = {k: x, l: y}
    return OutputValues(p)


def ref_build_two(p: OptimizationProblem, k: TimestepComponentVariableKey, l: TimestepComponentVariableKey, x: lp.Variable, y: lp.Variable):
    p.context._component_variables = {k: x, l: y}
    return ref_build(p)


def impl_solution(d: Dict[str, Any]):
    b = BendersDecomposedSolution(d)
    m = BendersMergedSolution(d)
    return (b.investment_cost, b.operational_cost, b.overall_cost, b.candidates, b.status, b.absolute_gap, b.relative_gap, b.stopping_criterion,
            b.nb_iterations, b.duration, m.lower_bound, m.upper_bound, m.overall_cost)


def ref_solution(d: Dict[str, Any]):
    s = d["solution"]
    return (s["investment_cost"], s["operational_cost"], s["overall_cost"], s["values"], s["problem_status"], s["optimality_gap"], s["relative_gap"],
            s["stopping_criterion"], s["iteration"], d["run_duration"], s["lb"], s["ub"], s["overall_cost"])


def impl_solution_close(x: BendersSolution, y: BendersSolution, r: float, a: float):
    return x.is_close(y, rel_tol=r, abs_tol=a)


def ref_solution_close(x: BendersSolution, y: BendersSolution, r: float, a: float):
    if not math.isclose(x.overall_cost, y.overall_cost, rel_tol=r, abs_tol=a):
        return False
    if x.candidates.keys() != y.candidates.keys():
        return False
    return all(math.isclose(x.candidates[k], y.candidates[k], rel_tol=r, abs_tol=a) for k in x.candidates)


def impl_mappings(a: OutputValues, b: OutputValues, r: float, t: float):
    return _are_mappings_close(a._components, b._components, r, t)


def ref_mappings(a: OutputValues, b: OutputValues, r: float, t: float):
    x = a._components
    y = b._components
    for k in x:
        if k not in y and not x[k].ignore:
            return False
    for k in y:
        if k not in x and not y[k].ignore:
            return False
    if r == t == 0.0:
        return all(x[k] == y[k] for k in x if k in y)
    return all(x[k].is_close(y[k], rel_tol=r, abs_tol=t) for k in x if k in y)


def impl_solution_eq(a: BendersSolution, b: BendersSolution):
    return a == b


def ref_solution_eq(a: BendersSolution, b: BendersSolution):
    return a.data["solution"]["overall_cost"] == b.data["solution"]["overall_cost"] and a.data["solution"]["values"] == b.data["solution"]["values"]
