from pathlib import Path
from typing import Any, Dict, Optional, Union
import numpy as np
import pandas as pd
from antares.craft.tools.time_series_tool import TimeSeriesFileType
from andromede.input_converter.src.data_preprocessing.binding_constraints import BindingConstraintsPreprocessing, read_timeseries
from andromede.input_converter.src.data_preprocessing.dataclasses import BindingConstraintData, LinkData, Operation, ThermalData, TimeseriesData
from andromede.input_converter.src.data_preprocessing.thermal import Direction, ThermalDataPreprocessing
from andromede.study.parsing import InputComponentParameter

T = "andromede.input_converter.src.data_preprocessing.thermal.ThermalDataPreprocessing."
B = "andromede.input_converter.src.data_preprocessing.binding_constraints.BindingConstraintsPreprocessing."
OP = "andromede.input_converter.src.data_preprocessing.dataclasses.Operation.execute"
OPTIONS = {"*": {"algebra": False}, "convert": {"cut": [B + "calculate_value"]}, "calc_thermal": {"cut": [B + "_process_time_series"]},
           "calc_link": {"cut": [B + "_process_time_series"]}, "calc_binding": {"cut": [OP]}, "series": {"cut": [OP]},
           "units_min": {"cut": [T + "_compute_p_min_cluster"]}, "forward": {"cut": [T + "_compute_nb_units_max"]}, "backward": {"cut": [T + "_compute_nb_units_max"]}}


def impl_p_min(t: ThermalDataPreprocessing):
    return t._compute_p_min_cluster()


def ref_p_min(t: ThermalDataPreprocessing):
    c = t.thermal
    scaled = c.get_prepro_modulation_matrix().iloc[:, 3] * c.properties.nominal_capacity * c.properties.unit_count
    return pd.concat([scaled, c.get_series_matrix()], axis=1).min(axis=1).to_frame(name="p_min_cluster")


def impl_units_min(t: ThermalDataPreprocessing):
    return t._compute_nb_units_min()


def ref_units_min(t: ThermalDataPreprocessing):
    return pd.DataFrame(np.ceil(t._compute_p_min_cluster() / t.thermal.properties.nominal_capacity))


def impl_units_max(t: ThermalDataPreprocessing):
    return t._compute_nb_units_max()


def ref_units_max(t: ThermalDataPreprocessing):
    return pd.DataFrame(np.ceil(t.thermal.get_series_matrix() / t.thermal.properties.nominal_capacity))


def previous(n: Any, period: int):
    """step before each step, cyclically inside its period; the very first step is its own predecessor"""
    i = np.arange(len(n))
    p = (i - 1) % period + (i // period) * period
    return np.where(i == 0, 0, np.minimum(p, len(n) - 1))


def impl_backward(t: ThermalDataPreprocessing, period: int):
    return t._compute_nb_units_max_variation(Direction.BACKWARD, period)


def ref_backward(t: ThermalDataPreprocessing, period: int):
    n = t._compute_nb_units_max()
    v = n.reset_index(drop=True) - n.iloc[previous(n, period)].reset_index(drop=True)
    v = v.clip(lower=0)
    return v.rename(columns={v.columns[0]: "nb_units_max_variation_backward"})


def impl_forward(t: ThermalDataPreprocessing, period: int):
    return t._compute_nb_units_max_variation(Direction.FORWARD, period)


def ref_forward(t: ThermalDataPreprocessing, period: int):
    n = t._compute_nb_units_max()
    v = n.iloc[previous(n, period)].reset_index(drop=True) - n.reset_index(drop=True)
    v = v.clip(lower=0)
    return v.rename(columns={v.columns[0]: "nb_units_max_variation_forward"})


def impl_path(t: ThermalDataPreprocessing, i: str):
    return t._build_csv_path(i)


def ref_path(t: ThermalDataPreprocessing, i: str):
    return t.series_path / Path(f"{i}").with_suffix(".txt")


def impl_series_path(c: Any, p: Path):
    t = ThermalDataPreprocessing(c, p)
    return (t.thermal, t.study_path, t.series_path)


def ref_series_path(c: Any, p: Path):
    return (c, p, p / "input" / "thermal" / "series" / c.area_id / c.id)


def impl_param_p_min_cluster(c: Any, p: Path, period: int):
    t = ThermalDataPreprocessing(c, p)
    return t.generate_component_parameter("p_min_cluster", period)


def ref_param_p_min_cluster(c: Any, p: Path, period: int):
    t = ThermalDataPreprocessing(c, p)
    f = t.series_path / Path("p_min_cluster").with_suffix(".txt")
    t._compute_p_min_cluster().to_csv(f, sep="\t", index=False, header=False)
    return InputComponentParameter(id="p_min_cluster", time_dependent=True, scenario_dependent=True, value=str(f).removesuffix(".txt"))


def impl_param_nb_units_min(c: Any, p: Path, period: int):
    t = ThermalDataPreprocessing(c, p)
    return t.generate_component_parameter("nb_units_min", period)


def ref_param_nb_units_min(c: Any, p: Path, period: int):
    t = ThermalDataPreprocessing(c, p)
    f = t.series_path / Path("nb_units_min").with_suffix(".txt")
    t._compute_nb_units_min().to_csv(f, sep="\t", index=False, header=False)
    return InputComponentParameter(id="nb_units_min", time_dependent=True, scenario_dependent=True, value=str(f).removesuffix(".txt"))


def impl_param_nb_units_max(c: Any, p: Path, period: int):
    t = ThermalDataPreprocessing(c, p)
    return t.generate_component_parameter("nb_units_max", period)


def ref_param_nb_units_max(c: Any, p: Path, period: int):
    t = ThermalDataPreprocessing(c, p)
    f = t.series_path / Path("nb_units_max").with_suffix(".txt")
    t._compute_nb_units_max().to_csv(f, sep="\t", index=False, header=False)
    return InputComponentParameter(id="nb_units_max", time_dependent=True, scenario_dependent=True, value=str(f).removesuffix(".txt"))


def impl_param_nb_units_max_variation_forward(c: Any, p: Path, period: int):
    t = ThermalDataPreprocessing(c, p)
    return t.generate_component_parameter("nb_units_max_variation_forward", period)


def ref_param_nb_units_max_variation_forward(c: Any, p: Path, period: int):
    t = ThermalDataPreprocessing(c, p)
    f = t.series_path / Path("nb_units_max_variation_forward").with_suffix(".txt")
    t._compute_nb_units_max_variation(Direction.FORWARD, period).to_csv(f, sep="\t", index=False, header=False)
    return InputComponentParameter(id="nb_units_max_variation_forward", time_dependent=True, scenario_dependent=True, value=str(f).removesuffix(".txt"))


def impl_param_nb_units_max_variation_backward(c: Any, p: Path, period: int):
    t = ThermalDataPreprocessing(c, p)
    return t.generate_component_parameter("nb_units_max_variation_backward", period)


def ref_param_nb_units_max_variation_backward(c: Any, p: Path, period: int):
    t = ThermalDataPreprocessing(c, p)
    f = t.series_path / Path("nb_units_max_variation_backward").with_suffix(".txt")
    t._compute_nb_units_max_variation(Direction.BACKWARD, period).to_csv(f, sep="\t", index=False, header=False)
    return InputComponentParameter(id="nb_units_max_variation_backward", time_dependent=True, scenario_dependent=True, value=str(f).removesuffix(".txt"))


def impl_param_unknown(c: Any, p: Path, period: int):
    return ThermalDataPreprocessing(c, p).generate_component_parameter("other", period)


def ref_param_unknown(c: Any, p: Path, period: int):
    raise ValueError("")


def impl_execute(o: Operation, x: float, v: Dict[str, float]):
    return o.execute(x, v)


def ref_execute(o: Operation, x: float, v: Dict[str, float]):
    if o.type == "max":
        return float(max(x))
    if o.multiply_by is not None:
        if isinstance(o.multiply_by, str):
            if o.multiply_by not in v:
                raise ValueError("")
            return x * v[o.multiply_by]
        return x * o.multiply_by
    if o.divide_by is not None:
        if isinstance(o.divide_by, str):
            if o.divide_by not in v:
                raise ValueError("")
            return x / v[o.divide_by]
        return x / o.divide_by
    raise ValueError("")


def impl_execute_alone(o: Operation, x: float):
    return o.execute(x)


def ref_execute_alone(o: Operation, x: float):
    if o.type == "max":
        return float(max(x))
    if o.multiply_by is not None:
        if isinstance(o.multiply_by, str):
            raise ValueError("")
        return x * o.multiply_by
    if o.divide_by is not None:
        if isinstance(o.divide_by, str):
            raise ValueError("")
        return x / o.divide_by
    raise ValueError("")


def impl_calc_thermal(b: BindingConstraintsPreprocessing, d: ThermalData):
    return (b.calculate_value(d), b.preprocessed_values)


def ref_calc_thermal(b: BindingConstraintsPreprocessing, d: ThermalData):
    if d.timeseries_file_type is not None:
        return (b._process_time_series(d.area, d), b.preprocessed_values)
    name = {"nominalcapacity": "nominal_capacity", "min-stable-power": "min_stable_power", "min-up-time": "min_up_time", "min-down-time": "min_down_time"}[d.field]
    x = getattr(b.study.get_areas()[d.area].get_thermals()[d.cluster].properties, name)
    b.preprocessed_values[b.id] = x
    return (x, b.preprocessed_values)


def impl_calc_binding(b: BindingConstraintsPreprocessing, d: BindingConstraintData):
    return (b.calculate_value(d), b.preprocessed_values)


def ref_calc_binding(b: BindingConstraintsPreprocessing, d: BindingConstraintData):
    w = b.study.get_binding_constraints()[d.id].get_terms()[d.field].weight
    if d.operation:
        w = d.operation.execute(w)
    return (w, b.preprocessed_values)


def impl_calc_link(b: BindingConstraintsPreprocessing, d: LinkData):
    return b.calculate_value(d)


def ref_calc_link(b: BindingConstraintsPreprocessing, d: LinkData):
    return b._process_time_series(d.area_from, d)


def impl_series(b: BindingConstraintsPreprocessing, a: str, d: Union[LinkData, ThermalData]):
    return (b._process_time_series(a, d), b.preprocessed_values)


def ref_series(b: BindingConstraintsPreprocessing, a: str, d: Union[LinkData, ThermalData]):
    area = b.study.get_areas()[a]
    kind = getattr(TimeSeriesFileType, d.timeseries_file_type.upper())
    to = None
    cluster = None
    if isinstance(d, LinkData):
        to = d.area_to
    if isinstance(d, ThermalData):
        cluster = d.cluster
    where = (b.study_path / kind.value.format(area_id=a, cluster_id=cluster, second_area_id=to)).parent
    column = read_timeseries(kind, b.study_path, a, cluster_id=cluster, second_area_id=to).iloc[:, d.column]
    f = where / f"{b.id}_{area.id}.txt"
    if d.operation:
        x = d.operation.execute(column, b.preprocessed_values)
        if isinstance(x, float):
            b.preprocessed_values[b.id] = x
            return (x, b.preprocessed_values)
        if isinstance(x, pd.Series):
            x.to_csv(f, sep="\t", index=False, header=False)
    else:
        column.to_csv(f, sep="\t", index=False, header=False)
    return (str(f.parent / f"{b.id}_{area.id}"), b.preprocessed_values)


def impl_fresh(s: Any):
    b = BindingConstraintsPreprocessing(s)
    return (b.study, b.study_path, b.preprocessed_values)


def ref_fresh(s: Any):
    return (s, s.service.config.study_path, {})


def impl_convert(b: BindingConstraintsPreprocessing, i: str, p: Dict[str, Any]):
    return (b.convert_param_value(i, p), p)


def ref_convert(b: BindingConstraintsPreprocessing, i: str, p: Dict[str, Any]):
    b.id = i
    k = p["type"]
    if k == "constant":
        return (float(p.get("data", "")), p)
    d = dict(p.get("data", {}))
    if "operation" in d:
        d["operation"] = Operation(**d["operation"])
    if k == "timeseries":
        x = TimeseriesData(**d)
    elif k == "binding_constraint":
        x = BindingConstraintData(**d)
    elif k == "thermal":
        x = ThermalData(**d)
    elif k == "link":
        x = LinkData(**d)
    else:
        raise ValueError("")
    return (b.calculate_value(x), p)
