import yaml
from pathlib import Path
from typing import Any, Dict, List, Optional
from antares.craft.model.study import Study, read_study_local
from andromede.input_converter.src.converter import AntaresStudyConverter, BC_CONFIG_PATH
from andromede.input_converter.src.data_preprocessing.binding_constraints import BindingConstraintsPreprocessing
from andromede.input_converter.src.data_preprocessing.thermal import ThermalDataPreprocessing
from andromede.input_converter.src.utils import check_dataframe_validity, check_file_exists, read_yaml_file, resolve_path, transform_to_yaml
from andromede.study.parsing import InputComponent, InputComponentParameter, InputPortConnections, InputSystem

K = "andromede.input_converter.src.converter.AntaresStudyConverter."
D = "andromede.input_converter.src.data_preprocessing."
U = "andromede.input_converter.src.utils."
CUT = [D + "thermal.ThermalDataPreprocessing.generate_component_parameter", D + "binding_constraints.BindingConstraintsPreprocessing.convert_param_value",
       U + "check_dataframe_validity", U + "read_yaml_file", U + "transform_to_yaml", K + "_match_area_pattern"]
PARTS = [K + x for x in ("_extract_legacy_objects_from_model_config", "_extract_valid_areas_from_model_config", "_convert_area_to_component_list",
                         "_convert_renewable_to_component_list", "_convert_thermal_to_component_list", "_convert_st_storage_to_component_list",
                         "_convert_load_to_component_list", "_convert_wind_to_component_list", "_convert_solar_to_component_list",
                         "_convert_link_to_component_list", "_convert_cc_to_component_list")]
LISTS = {"cut": CUT, "unroll": True, "bounds": (1, 2), "xlists": ["areas", "get_links{}", "get_thermals{}", "get_renewables{}", "get_st_storages{}", "template-parameters", "valid{}"]}
OPTIONS = {"*": {"cut": CUT, "algebra": False}, "areas": LISTS, "links": LISTS, "thermals": LISTS, "renewables": LISTS, "storages": LISTS, "wind": LISTS, "solar": LISTS, "load": LISTS,
           "batteries": LISTS, "valid": LISTS,
           "batteries_two": {"raises": "ignore", "ignore_effects": True},
           "whole": {"cut": CUT + PARTS}, "settings": {"cut": CUT + [U + "resolve_path"]}, "process": {"cut": CUT + [K + "convert_study_to_input_study"], "no_inline": [U + "transform_to_yaml"]},
           "valid_frame": {"cut": []}, "write": {"cut": []}, "read": {"cut": []},
           "pattern_list_text": {"cut": [], "unfold": 4}, "pattern_dict_text": {"cut": [], "unfold": 4}, "pattern_text": {"cut": [], "cut_nested": [K + "_match_area_pattern"]}, "pattern_list": {"cut": [], "cut_nested": [K + "_match_area_pattern"]}, "pattern_dict": {"cut": [], "cut_nested": [K + "_match_area_pattern"]}, "pattern_other": {"cut": [], "cut_nested": [K + "_match_area_pattern"]}}


def const(i: str, v: Any):
    return InputComponentParameter(id=i, time_dependent=False, scenario_dependent=False, value=v)


def series(i: str, v: Any):
    return InputComponentParameter(id=i, time_dependent=True, scenario_dependent=True, value=v)


def link(a: str, p: str, b: str, q: str):
    return InputPortConnections(component1=a, port1=p, component2=b, port2=q)


def impl_areas(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]]):
    return c._convert_area_to_component_list(lib, legacy)


def ref_areas(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]]):
    out = []
    for a in c.areas.values():
        if a.id not in legacy.get("nodes", []):
            out.append(InputComponent(id=a.id, model=f"{lib}.area", parameters=[
                const("ens_cost", a.properties.energy_cost_unsupplied), const("spillage_cost", a.properties.energy_cost_spilled)]))
    return out


def impl_renewables(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    return c._convert_renewable_to_component_list(lib, legacy, valid)


def ref_renewables(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps = []
    conns = []
    for a in c.areas.values():
        for r in a.get_renewables().values():
            f = c.study_path / "input" / "renewables" / "series" / Path(r.area_id) / Path(r.id) / "series.txt"
            comps.append(InputComponent(id=r.id, model=f"{lib}.renewable", parameters=[
                const("unit_count", r.properties.unit_count), const("p_max_unit", r.properties.nominal_capacity),
                series("generation", str(f).removesuffix(".txt"))]))
            conns.append(link(r.id, "balance_port", r.area_id, "balance_port"))
    return (comps, conns)


def impl_thermals(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    return c._convert_thermal_to_component_list(lib, legacy, valid)


def ref_thermals(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps = []
    conns = []
    out = []
    for a in c.areas.values():
        for i in c._match_area_pattern(legacy.get("thermals", []), a.id):
            out.append(i)
    for a in c.areas.values():
        for t in a.get_thermals().values():
            if f"{a.id}.{t.id}" in out:
                continue
            f = c.study_path / "input" / "thermal" / "series" / Path(t.area_id) / Path(t.id) / "series.txt"
            d = ThermalDataPreprocessing(t, c.study_path)
            p = t.properties
            comps.append(InputComponent(id=t.id, model=f"{lib}.thermal", parameters=[
                d.generate_component_parameter("p_min_cluster"), d.generate_component_parameter("nb_units_min"), d.generate_component_parameter("nb_units_max"),
                d.generate_component_parameter("nb_units_max_variation_forward", c.period), d.generate_component_parameter("nb_units_max_variation_backward", c.period),
                const("unit_count", p.unit_count), const("p_min_unit", p.min_stable_power), const("efficiency", p.efficiency),
                const("p_max_unit", p.nominal_capacity), const("generation_cost", p.marginal_cost), const("fixed_cost", p.fixed_cost),
                const("startup_cost", p.startup_cost), const("d_min_up", p.min_up_time), const("d_min_down", p.min_down_time),
                series("p_max_cluster", str(f).removesuffix(".txt"))]))
            conns.append(link(t.id, "balance_port", a.id, "balance_port"))
    return (comps, conns)


def impl_storages(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    return c._convert_st_storage_to_component_list(lib, legacy, valid)


def ref_storages(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps = []
    conns = []
    for a in c.areas.values():
        for s in a.get_st_storages().values():
            d = c.study_path / "input" / "st-storage" / "series" / Path(s.area_id) / Path(s.id)
            p = s.properties
            comps.append(InputComponent(id=s.id, model=f"{lib}.short-term-storage", parameters=[
                const("efficiency_injection", p.efficiency), const("efficiency_withdrawal", 1), const("initial_level", p.initial_level),
                const("reservoir_capacity", p.reservoir_capacity), const("injection_nominal_capacity", p.injection_nominal_capacity),
                const("withdrawal_nominal_capacity", p.withdrawal_nominal_capacity), series("inflows", str(d / "inflows")),
                series("lower_rule_curve", str(d / "lower-rule-curve")), series("upper_rule_curve", str(d / "upper-rule-curve")),
                series("p_max_injection_modulation", str(d / "PMAX-injection")), series("p_max_withdrawal_modulation", str(d / "PMAX-withdrawal"))]))
            conns.append(link(s.id, "injection_port", a.id, "balance_port"))
    return (comps, conns)


def impl_links(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    return c._convert_link_to_component_list(lib, legacy, valid)


def ref_links(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps = []
    conns = []
    out = []
    for a in c.areas.values():
        for i in c._match_area_pattern(legacy.get("links", []), a.id):
            out.append(i)
    for k in c.study.get_links().values():
        if f"{k.area_from_id}%{k.area_to_id}" not in out:
            d = c.study_path / "input" / "links" / Path(k.area_from_id) / "capacities"
            comps.append(InputComponent(id=k.id, model=f"{lib}.link", parameters=[
                series("capacity_direct", str(d / f"{k.area_to_id}_direct")), series("capacity_indirect", str(d / f"{k.area_to_id}_indirect"))]))
            conns.append(link(k.id, "in_port", k.area_from_id, "balance_port"))
            conns.append(link(k.id, "out_port", k.area_to_id, "balance_port"))
    return (comps, conns)


def impl_wind(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps, conns = c._convert_wind_to_component_list(lib, legacy, valid)
    return ([(x.model, x.parameters, x.scenario_group) for x in comps], [(x.port1, x.component2, x.port2) for x in conns])


def ref_wind(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps = []
    conns = []
    for a in c.areas.values():
        f = c.study_path / "input" / "wind" / "series" / f"wind_{a.id}.txt"
        if f.exists() and check_dataframe_validity(a.get_wind_matrix()):
            comps.append((f"{lib}.wind", [series("wind", str(f).removesuffix(".txt"))], None))
            conns.append(("balance_port", a.id, "balance_port"))
    return (comps, conns)


def impl_solar(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps, conns = c._convert_solar_to_component_list(lib, legacy, valid)
    return ([(x.model, x.parameters, x.scenario_group) for x in comps], [(x.port1, x.component2, x.port2) for x in conns])


def ref_solar(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps = []
    conns = []
    for a in c.areas.values():
        f = c.study_path / "input" / "solar" / "series" / f"solar_{a.id}.txt"
        if f.exists() and check_dataframe_validity(a.get_solar_matrix()):
            comps.append((f"{lib}.solar", [series("solar", str(f).removesuffix(".txt"))], None))
            conns.append(("balance_port", a.id, "balance_port"))
    return (comps, conns)


def impl_load(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps, conns = c._convert_load_to_component_list(lib, legacy, valid)
    return ([(x.model, x.parameters, x.scenario_group) for x in comps], [(x.port1, x.component2, x.port2) for x in conns])


def ref_load(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps = []
    conns = []
    for a in c.areas.values():
        f = c.study_path / "input" / "load" / "series" / f"load_{a.id}.txt"
        if f.exists() and check_dataframe_validity(a.get_load_matrix()):
            comps.append((f"{lib}.load", [series("load", str(f).removesuffix(".txt"))], None))
            conns.append(("balance_port", a.id, "balance_port"))
    return (comps, conns)


def impl_batteries(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    return c._convert_cc_to_component_list(lib, legacy, valid)


def ref_batteries(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps = []
    conns = []
    t = read_yaml_file(BC_CONFIG_PATH).get("template")
    for a in valid.values():
        d = c._match_area_pattern(t, a.id)
        b = BindingConstraintsPreprocessing(c.study)
        try:
            x = InputComponent(id=d["component"]["id"], model=d["model"], parameters=[
                InputComponentParameter(id=str(p.get("id")), time_dependent=bool(p.get("time-dependent")), scenario_dependent=bool(p.get("scenario-dependent")),
                                        value=b.convert_param_value(p.get("id"), p.get("value")))
                for p in d["component"]["parameters"]])
        except (KeyError, FileNotFoundError):
            continue
        comps.append(x)
        conns.append(link(d["component"]["id"], "injection_port", a.id, "balance_port"))
    return (comps, conns)


def alt_batteries(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    # the parameters looked up before the identifiers
    comps = []
    conns = []
    t = read_yaml_file(BC_CONFIG_PATH).get("template")
    for a in valid.values():
        d = c._match_area_pattern(t, a.id)
        b = BindingConstraintsPreprocessing(c.study)
        try:
            ps = [InputComponentParameter(id=str(p.get("id")), time_dependent=bool(p.get("time-dependent")), scenario_dependent=bool(p.get("scenario-dependent")),
                                          value=b.convert_param_value(p.get("id"), p.get("value")))
                  for p in d["component"]["parameters"]]
            x = InputComponent(id=d["component"]["id"], model=d["model"], parameters=ps)
        except (KeyError, FileNotFoundError):
            continue
        comps.append(x)
        conns.append(link(d["component"]["id"], "injection_port", a.id, "balance_port"))
    return (comps, conns)


def impl_pattern_text(c: AntaresStudyConverter, o: str, v: str):
    return c._match_area_pattern(o, v)


def ref_pattern_text(c: AntaresStudyConverter, o: str, v: str):
    return o.replace(c.bc_area_pattern, v)


def impl_pattern_list(c: AntaresStudyConverter, o: List[Any], v: str):
    return c._match_area_pattern(o, v)


def ref_pattern_list(c: AntaresStudyConverter, o: List[Any], v: str):
    return [c._match_area_pattern(x, v) for x in o]


def impl_pattern_dict(c: AntaresStudyConverter, o: Dict[Any, Any], v: str):
    return c._match_area_pattern(o, v)


def ref_pattern_dict(c: AntaresStudyConverter, o: Dict[Any, Any], v: str):
    return {c._match_area_pattern(k, v): c._match_area_pattern(x, v) for k, x in o.items()}


def impl_pattern_other(c: AntaresStudyConverter, o: int, v: str):
    return c._match_area_pattern(o, v)


def ref_pattern_other(c: AntaresStudyConverter, o: int, v: str):
    return o


def impl_legacy(c: AntaresStudyConverter, d: Dict[str, Any]):
    return c._extract_legacy_objects_from_model_config(d)


def ref_legacy(c: AntaresStudyConverter, d: Dict[str, Any]):
    x = d.get("legacy-objects-to-delete", {})
    return {"binding_constraints": x.get("binding_constraints", []), "links": x.get("links", []), "nodes": x.get("nodes", []), "thermals": x.get("thermal_clusters", [])}


def impl_valid(c: AntaresStudyConverter, d: Dict[str, Any]):
    return c._extract_valid_areas_from_model_config(d)


def ref_valid(c: AntaresStudyConverter, d: Dict[str, Any]):
    for t in d["template-parameters"]:
        x = t.get("exclude")
        if x:
            return {k: v for k, v in c.areas.items() if k not in t["exclude"]}
    return {}


def impl_whole(c: AntaresStudyConverter):
    return (c.convert_study_to_input_study(), c.bc_area_pattern)


def ref_whole(c: AntaresStudyConverter):
    t = read_yaml_file(BC_CONFIG_PATH).get("template", {})
    c.bc_area_pattern = "${" + t["template-parameters"][0]["name"] + "}"
    lib = "antares-historic"
    legacy = c._extract_legacy_objects_from_model_config(t)
    valid = c._extract_valid_areas_from_model_config(t)
    nodes = c._convert_area_to_component_list(lib, legacy)
    comps = []
    conns = []
    parts = [c._convert_renewable_to_component_list(lib, legacy, valid), c._convert_thermal_to_component_list(lib, legacy, valid),
             c._convert_st_storage_to_component_list(lib, legacy, valid), c._convert_load_to_component_list(lib, legacy, valid),
             c._convert_wind_to_component_list(lib, legacy, valid), c._convert_solar_to_component_list(lib, legacy, valid),
             c._convert_link_to_component_list(lib, legacy, valid), c._convert_cc_to_component_list(lib, legacy, valid)]
    for x, y in parts:
        comps = comps + x
        conns = conns + y
    return (InputSystem(nodes=nodes, components=comps, connections=conns), c.bc_area_pattern)


def impl_process(c: AntaresStudyConverter):
    return c.process_all()


def ref_process(c: AntaresStudyConverter):
    transform_to_yaml(model=c.convert_study_to_input_study(), output_path=c.output_path)


def impl_wind_connected(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps, conns = c._convert_wind_to_component_list(lib, legacy, valid)
    return [x.component1 for x in conns]


def ref_wind_connected(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps, conns = c._convert_wind_to_component_list(lib, legacy, valid)
    return [x.id for x in comps]


def impl_solar_connected(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps, conns = c._convert_solar_to_component_list(lib, legacy, valid)
    return [x.component1 for x in conns]


def ref_solar_connected(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps, conns = c._convert_solar_to_component_list(lib, legacy, valid)
    return [x.id for x in comps]


def impl_load_connected(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps, conns = c._convert_load_to_component_list(lib, legacy, valid)
    return [x.component1 for x in conns]


def ref_load_connected(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], valid: Dict[str, Any]):
    comps, conns = c._convert_load_to_component_list(lib, legacy, valid)
    return [x.id for x in comps]


def impl_settings(s: Any, out: Optional[Path], period: Optional[int]):
    x = AntaresStudyConverter(s, None, out, period)
    return (x.period, x.study, x.study_path, x.output_path, x.areas)


def ref_settings(s: Any, out: Optional[Path], period: Optional[int]):
    if isinstance(s, Study):
        study = s
        path = s.service.config.study_path
    elif isinstance(s, Path):
        path = resolve_path(s)
        study = read_study_local(path)
    else:
        raise TypeError("")
    if not period:
        period = 168
    return (period, study, path, Path(out) if out else path / Path("output.yaml"), study.get_areas())


def impl_resolve(p: Path):
    return resolve_path(p)


def ref_resolve(p: Path):
    q = Path(p)
    if not q.exists():
        raise FileNotFoundError("")
    return q.resolve()


def impl_valid_frame(df: Any):
    return check_dataframe_validity(df)


def ref_valid_frame(df: Any):
    return not (df.empty or (df == 0).all().all())


def impl_file_exists(p: Path):
    return check_file_exists(p)


def ref_file_exists(p: Path):
    return p.exists() and p.is_file() and p.stat().st_size > 0


def impl_write(m: Any, p: str):
    return transform_to_yaml(m, p)


def ref_write(m: Any, p: str):
    with open(p, "w", encoding="utf-8") as f:
        yaml.dump({"system": m.model_dump(by_alias=True, exclude_unset=True)}, f, allow_unicode=True)


def impl_read(p: Path):
    return read_yaml_file(p)


def ref_read(p: Path):
    if not p.exists():
        raise FileNotFoundError("")
    with p.open("r", encoding="utf-8") as f:
        try:
            return yaml.safe_load(f)
        except yaml.YAMLError as e:
            raise yaml.YAMLError("")


def impl_pattern_list_text(c: AntaresStudyConverter, a: str, b: str, v: str):
    return c._match_area_pattern([a, b], v)


def ref_pattern_list_text(c: AntaresStudyConverter, a: str, b: str, v: str):
    return [a.replace(c.bc_area_pattern, v), b.replace(c.bc_area_pattern, v)]


def impl_pattern_dict_text(c: AntaresStudyConverter, k: str, a: str, b: str, v: str):
    return c._match_area_pattern({k: a, "x": [b, 1]}, v)


def ref_pattern_dict_text(c: AntaresStudyConverter, k: str, a: str, b: str, v: str):
    p = c.bc_area_pattern
    return {k.replace(p, v): a.replace(p, v), "x".replace(p, v): [b.replace(p, v), 1]}


def impl_batteries_two(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], p: Any, q: Any):
    # an area without the object says nothing about the next one
    r = c._convert_cc_to_component_list(lib, legacy, {"p": p, "q": q})
    return [k.component2 for k in r[1]]


def ref_batteries_two(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], p: Any, q: Any):
    t = read_yaml_file(BC_CONFIG_PATH).get("template")
    out = []
    for a in [p, q]:
        d = c._match_area_pattern(t, a.id)
        b = BindingConstraintsPreprocessing(c.study)
        try:
            x = InputComponent(id=d["component"]["id"], model=d["model"], parameters=[
                InputComponentParameter(id=str(p.get("id")), time_dependent=bool(p.get("time-dependent")), scenario_dependent=bool(p.get("scenario-dependent")),
                                        value=b.convert_param_value(p.get("id"), p.get("value")))
                for p in d["component"]["parameters"]])
        except (KeyError, FileNotFoundError):
            continue
        out.append(a.id)
    return out


def alt_batteries_two(c: AntaresStudyConverter, lib: str, legacy: Dict[str, List[str]], p: Any, q: Any):
    t = read_yaml_file(BC_CONFIG_PATH).get("template")
    out = []
    for a in [p, q]:
        d = c._match_area_pattern(t, a.id)
        b = BindingConstraintsPreprocessing(c.study)
        try:
            ps = [
                InputComponentParameter(id=str(p.get("id")), time_dependent=bool(p.get("time-dependent")), scenario_dependent=bool(p.get("scenario-dependent")),
                                        value=b.convert_param_value(p.get("id"), p.get("value")))
                for p in d["component"]["parameters"]]
            x = InputComponent(id=d["component"]["id"], model=d["model"], parameters=ps)
        except (KeyError, FileNotFoundError):
            continue
        out.append(a.id)
    return out
