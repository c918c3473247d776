from typing import Any, Dict, List, Mapping, Optional
import pandas as pd
from pathlib import Path
from andromede.simulation.optimization import (OptimizationContext, BlockBorderManagement, _get_parameter_value, _make_value_provider,
    _compute_expression_value, float_to_int)
from andromede.simulation.time_block import TimeBlock
from andromede.study.data import (ComponentParameterIndex, ConstantData, DataBase, AbstractDataStructure, ScenarioIndex, ScenarioSeriesData, Scenarization,
    TimeIndex, TimeScenarioSeriesData, TimeSeriesData, TreeData, dataframe_to_time_series, dataframe_to_scenario_series, load_ts_from_txt)
from andromede.study.network import Network
from andromede.expression.expression import ExpressionNode, ComponentParameterNode
from andromede.expression.visitor import visit
from andromede.expression.evaluate import EvaluationVisitor

OPTIONS = {"*": {"algebra": False, "denote": False}, "add_data": {"ignore_heap": True},
           "evaluate_bound": {"cut": ["andromede.simulation.optimization.float_to_int"]}, "value_provider": {"cut": []}}


def impl_constant(v: float, t: Optional[int], s: Optional[int], n: str):
    return ConstantData(v).get_value(t, s, n)


def ref_constant(v: float, t: Optional[int], s: Optional[int], n: str):
    return v


def impl_time_series(m: Mapping[TimeIndex, float], t: int, s: Optional[int], n: str):
    return TimeSeriesData(m).get_value(t, s, n)


def ref_time_series(m: Mapping[TimeIndex, float], t: int, s: Optional[int], n: str):
    return m[TimeIndex(t)]


def impl_time_series_none(m: Mapping[TimeIndex, float], s: Optional[int], n: str):
    return TimeSeriesData(m).get_value(None, s, n)


def ref_time_series_none(m: Mapping[TimeIndex, float], s: Optional[int], n: str):
    raise KeyError("")


def impl_scenario_series(m: Mapping[ScenarioIndex, float], z: Optional[Scenarization], t: Optional[int], s: int, n: str):
    return ScenarioSeriesData(m, z).get_value(t, s, n)


def ref_scenario_series(m: Mapping[ScenarioIndex, float], z: Optional[Scenarization], t: Optional[int], s: int, n: str):
    if z is not None:
        return m[ScenarioIndex(z._scenarization[s])]
    return m[ScenarioIndex(s)]


def impl_scenario_series_none(m: Mapping[ScenarioIndex, float], z: Optional[Scenarization], t: Optional[int], n: str):
    return ScenarioSeriesData(m, z).get_value(t, None, n)


def ref_scenario_series_none(m: Mapping[ScenarioIndex, float], z: Optional[Scenarization], t: Optional[int], n: str):
    raise KeyError("")


def impl_table(m: pd.DataFrame, z: Optional[Scenarization], t: Optional[int], s: Optional[int], n: str):
    return TimeScenarioSeriesData(m, z).get_value(t, s, n)


def ref_table(m: pd.DataFrame, z: Optional[Scenarization], t: Optional[int], s: Optional[int], n: str):
    if t is None:
        raise KeyError("")
    if s is None:
        raise KeyError("")
    k = s
    if z is not None:
        k = z._scenarization[s]
    return float(str(m.iloc[t, k]))


def impl_tree(m: Mapping[str, AbstractDataStructure], t: Optional[int], s: Optional[int], n: str):
    return TreeData(m).get_value(t, s, n)


def ref_tree(m: Mapping[str, AbstractDataStructure], t: Optional[int], s: Optional[int], n: str):
    return m[n].get_value(t, s)


def impl_get_data(db: DataBase, c: str, p: str):
    return db.get_data(c, p)


def ref_get_data(db: DataBase, c: str, p: str):
    return db._data[ComponentParameterIndex(c, p)]


def impl_add_data(c: str, p: str, d: AbstractDataStructure, db: DataBase, k: ComponentParameterIndex):
    db.add_data(c, p, d)
    return db._data.get(k)


def ref_add_data(c: str, p: str, d: AbstractDataStructure, db: DataBase, k: ComponentParameterIndex):
    if k == ComponentParameterIndex(c, p):
        return d
    return db._data.get(k)


def impl_db_value(db: DataBase, k: ComponentParameterIndex, t: int, s: int):
    return db.get_value(k, t, s)


def ref_db_value(db: DataBase, k: ComponentParameterIndex, t: int, s: int):
    if k not in db._data:
        raise KeyError("")
    return db._data[k].get_value(t, s)


def impl_scenarization(z: Scenarization, y: int, s: int, q: int):
    z.add_year(y, s)
    return z.get_scenario_for_year(q)


def ref_scenarization(z: Scenarization, y: int, s: int, q: int):
    if y in z._scenarization:
        raise ValueError("")
    z._scenarization[y] = s
    return z._scenarization[q]


def impl_absolute(ctx: OptimizationContext, t: int):
    return ctx.block_timestep_to_absolute_timestep(t)


def ref_absolute(ctx: OptimizationContext, t: int):
    if ctx._border_management != BlockBorderManagement.CYCLE:
        raise NotImplementedError()
    return ctx._block.timesteps[t % len(ctx._block.timesteps)]


def impl_absolute_none(ctx: OptimizationContext):
    return ctx.block_timestep_to_absolute_timestep(None)


def ref_absolute_none(ctx: OptimizationContext):
    return None


def impl_actual(ctx: OptimizationContext, t: int):
    return ctx.get_actual_block_timestep(t)


def ref_actual(ctx: OptimizationContext, t: int):
    if ctx._border_management != BlockBorderManagement.CYCLE:
        raise NotImplementedError()
    return t % len(ctx._block.timesteps)


def impl_parameter_value(ctx: OptimizationContext, t: Optional[int], s: Optional[int], c: str, p: str):
    return _get_parameter_value(ctx, t, s, c, p)


def ref_parameter_value(ctx: OptimizationContext, t: Optional[int], s: Optional[int], c: str, p: str):
    a = None
    if t is not None:
        a = ctx.block_timestep_to_absolute_timestep(t)
    return ctx._database._data[ComponentParameterIndex(c, p)].get_value(a, s, ctx._tree_node)


def impl_value_provider(ctx: OptimizationContext, t: Optional[int], s: Optional[int], c: str, p: str):
    return _make_value_provider(ctx, t, s).get_component_parameter_value(c, p)


def ref_value_provider(ctx: OptimizationContext, t: Optional[int], s: Optional[int], c: str, p: str):
    return _get_parameter_value(ctx, t, s, c, p)


def impl_expression_value(e: ExpressionNode, ctx: OptimizationContext, t: Optional[int], s: Optional[int]):
    return _compute_expression_value(e, ctx, t, s)


def ref_expression_value(e: ExpressionNode, ctx: OptimizationContext, t: Optional[int], s: Optional[int]):
    return visit(e, EvaluationVisitor(_make_value_provider(ctx, t, s)))


def impl_parameter_expression(ctx: OptimizationContext, t: Optional[int], s: Optional[int], c: str, p: str):
    return _compute_expression_value(ComponentParameterNode(c, p), ctx, t, s)


def ref_parameter_expression(ctx: OptimizationContext, t: Optional[int], s: Optional[int], c: str, p: str):
    return _get_parameter_value(ctx, t, s, c, p)


def impl_parameter_getter(ctx: OptimizationContext, t: Optional[int], s: Optional[int], c: str, p: str):
    return ctx._make_parameter_getter().get_parameter_value(c, p, t, s)


def ref_parameter_getter(ctx: OptimizationContext, t: Optional[int], s: Optional[int], c: str, p: str):
    return _get_parameter_value(ctx, t, s, c, p)


def impl_constant_provider(ctx: OptimizationContext, c: str, p: str):
    return ctx._make_constant_value_provider().get_component_parameter_value(c, p)


def ref_constant_provider(ctx: OptimizationContext, c: str, p: str):
    i = ctx._network.get_component(c).model.parameters[p].structure
    if i.time or i.scenario:
        raise ValueError("")
    return _get_parameter_value(ctx, None, None, c, p)


def impl_structure_provider(ctx: OptimizationContext, c: str, p: str):
    r = ctx._make_data_structure_provider()
    return (r.get_component_variable_structure(c, p), r.get_component_parameter_structure(c, p))


def ref_structure_provider(ctx: OptimizationContext, c: str, p: str):
    m = ctx._network.get_component(c).model
    return (m.variables[p].structure, m.parameters[p].structure)


def impl_evaluate_bound(ctx: OptimizationContext, e: ExpressionNode):
    return ctx.evaluate_time_bound(e)


def ref_evaluate_bound(ctx: OptimizationContext, e: ExpressionNode):
    return float_to_int(visit(e, EvaluationVisitor(ctx._constant_value_provider)))


def impl_to_int(x: float):
    return float_to_int(x)


def ref_to_int(x: float):
    if isinstance(x, int) or x.is_integer():
        return int(x)
    raise ValueError("")


def impl_df_time(df: pd.DataFrame):
    return dataframe_to_time_series(df)


def ref_df_time(df: pd.DataFrame):
    if df.shape[1] != 1:
        raise ValueError("")
    return {TimeIndex(i): float(v) for i, v in zip(df.index.astype(int), df.iloc[:, 0].values)}


def impl_df_scenario(df: pd.DataFrame):
    return dataframe_to_scenario_series(df)


def ref_df_scenario(df: pd.DataFrame):
    if df.shape[0] != 1:
        raise ValueError("")
    return {ScenarioIndex(i): float(v) for i, v in zip(range(df.shape[1]), df.iloc[0, :].values)}


def impl_load(name: str, path: Path):
    return load_ts_from_txt(name, path)


def ref_load(name: str, path: Path):
    f = path / (name + ".txt")
    try:
        return pd.read_csv(f, header=None, sep=r"\s+")
    except Exception:
        raise Exception("")


def impl_no_variable_value(ctx: OptimizationContext, t: Optional[int], s: Optional[int], n: str):
    return _make_value_provider(ctx, t, s).get_variable_value(n)


def ref_no_variable_value(ctx: OptimizationContext, t: Optional[int], s: Optional[int], n: str):
    raise NotImplementedError("")


def impl_no_component_variable_value(ctx: OptimizationContext, t: Optional[int], s: Optional[int], c: str, n: str):
    return _make_value_provider(ctx, t, s).get_component_variable_value(c, n)


def ref_no_component_variable_value(ctx: OptimizationContext, t: Optional[int], s: Optional[int], c: str, n: str):
    raise NotImplementedError("")


def impl_no_bare_parameter_value(ctx: OptimizationContext, t: Optional[int], s: Optional[int], n: str):
    return _make_value_provider(ctx, t, s).get_parameter_value(n)


def ref_no_bare_parameter_value(ctx: OptimizationContext, t: Optional[int], s: Optional[int], n: str):
    raise ValueError("")


def impl_no_variable_in_bound(ctx: OptimizationContext, c: str, n: str):
    return ctx._make_constant_value_provider().get_component_variable_value(c, n)


def ref_no_variable_in_bound(ctx: OptimizationContext, c: str, n: str):
    raise NotImplementedError("")
