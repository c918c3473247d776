from math import inf
from pathlib import Path
from typing import Any, Dict, List, Set, Tuple
import yaml
from andromede.pypsa_converter.pypsa_converter import PyPSAComponentData, PyPSAGlobalConstraintData, PyPSAStudyConverter
from andromede.pypsa_converter.utils import PYPSA_CONVERTER_MAX_FLOAT, any_to_float, transform_to_yaml
from andromede.study.parsing import InputComponent, InputComponentParameter, InputPortConnections, InputSystem

K = "andromede.pypsa_converter.pypsa_converter.PyPSAStudyConverter."
F = "andromede.pypsa_converter.utils.any_to_float"
REG = [K + "_register_pypsa_components_of_given_model"]
STEPS = [K + x for x in ("_pypsa_network_assertion", "_pypsa_network_preprocessing", "_preprocess_pypsa_components", "_register_pypsa_components", "_register_pypsa_globalconstraints")]
OPTIONS = {"*": {"cut": [F], "algebra": False},
           "init": {"cut": [F] + STEPS, "no_inline": STEPS, "drop_self": STEPS},
           "registered": {"cut": [F] + REG, "no_inline": REG}, "clamp": {"cut": []},
           "study": {"cut": [F, K + "_convert_pypsa_components_of_given_model", K + "_convert_pypsa_globalconstraint_of_given_model"]},
           "model": {"cut": [F, K + "_write_and_register_timeseries", K + "_create_gems_connections", K + "_create_gems_components"]},
           "renaming": {"cut": [F], "unroll": True, "bounds": (1, 2), "xlists": ["loads_t{}", "generators_t{}", "storage_units_t{}", "stores_t{}"]},
           "capacities": {"cut": [F], "unroll": True, "bounds": (1, 2), "xlists": ["index"]},
           "capacities_stores": {"cut": [F], "unroll": True, "bounds": (1, 2), "xlists": ["index"]},
           "capacities_units": {"cut": [F], "unroll": True, "bounds": (1, 2), "xlists": ["index"]},
           "capacities_links": {"cut": [F], "unroll": True, "bounds": (1, 2), "xlists": ["index"]},
           "assertions": {"cut": [F], "unroll": True, "bounds": (1,), "xlists": ["index"], "max_splits": 20000},
           "components": {"cut": [F], "unroll": True, "bounds": (1, 2), "xlists": ["index"]},
           "series": {"cut": [F], "unroll": True, "bounds": (1, 2), "xlists": ["columns"]}}


def impl_clamp(x: Any):
    return any_to_float(x)


def ref_clamp(x: Any):
    try:
        return max(min(float(x), 1e20), -1e20)
    except Exception:
        raise TypeError("")


def impl_write(m: Any, p: str):
    return transform_to_yaml(m, p)


def ref_write(m: Any, p: str):
    with open(p, "w", encoding="utf-8") as f:
        yaml.dump({"system": m.model_dump(by_alias=True, exclude_unset=True)}, f, allow_unicode=True)


def impl_init(n: Any, d: Path, s: Path):
    c = PyPSAStudyConverter(n, None, d, s)
    return (c.system_dir, c.series_dir, c.pypsa_network, c.pypsalib_id, c.null_carrier_id, c.system_name, c.pypsa_components_data, c.pypsa_globalconstraints_data)


def ref_init(n: Any, d: Path, s: Path):
    PyPSAStudyConverter._pypsa_network_assertion(None)
    PyPSAStudyConverter._pypsa_network_preprocessing(None)
    PyPSAStudyConverter._preprocess_pypsa_components(None, "generators", "p_nom")
    PyPSAStudyConverter._preprocess_pypsa_components(None, "stores", "e_nom")
    PyPSAStudyConverter._preprocess_pypsa_components(None, "storage_units", "p_nom")
    PyPSAStudyConverter._preprocess_pypsa_components(None, "links", "p_nom")
    PyPSAStudyConverter._register_pypsa_components(None)
    PyPSAStudyConverter._register_pypsa_globalconstraints(None)
    return (d, s, n, "pypsa_models", "null", n.name, {}, {})


def impl_assertions(c: PyPSAStudyConverter):
    return c._pypsa_network_assertion()


def ref_assertions(c: PyPSAStudyConverter):
    n = c.pypsa_network
    assert len(n.investment_periods) == 0
    assert (n.snapshot_weightings.values == 1.0).all()
    if not all(n.generators["marginal_cost_quadratic"] == 0):
        raise ValueError("")
    if not all(n.generators["active"] == 1):
        raise ValueError("")
    if not all(n.generators["committable"] == False):
        raise ValueError("")
    if not all(n.loads["active"] == 1):
        raise ValueError("")
    if not all(n.links["active"] == 1):
        raise ValueError("")
    if not all(n.storage_units["active"] == 1):
        raise ValueError("")
    if not all(n.storage_units["sign"] == 1):
        raise ValueError("")
    if not all(n.storage_units["cyclic_state_of_charge"] == 1):
        raise ValueError("")
    if not all(n.storage_units["marginal_cost_quadratic"] == 0):
        raise ValueError("")
    if not all(n.stores["active"] == 1):
        raise ValueError("")
    if not all(n.stores["sign"] == 1):
        raise ValueError("")
    if not all(n.stores["e_cyclic"] == 1):
        raise ValueError("")
    if not all(n.stores["marginal_cost_quadratic"] == 0):
        raise ValueError("")
    for i in n.global_constraints.index:
        assert n.global_constraints.loc[i, "type"] == "primary_energy"
        assert n.global_constraints.loc[i, "carrier_attribute"] == "co2_emissions"


def impl_renaming(c: PyPSAStudyConverter):
    return c._pypsa_network_preprocessing()


def ref_renaming(c: PyPSAStudyConverter):
    n = c.pypsa_network
    n.add("Carrier", c.null_carrier_id, co2_emissions=0, max_growth=any_to_float(inf))
    n.carriers["carrier"] = n.carriers.index.values
    n.loads.index = n.loads.index.astype(str) + "_load"
    for k, v in n.loads_t.items():
        v.columns = v.columns + "_load"
    n.generators.index = n.generators.index.astype(str) + "_generator"
    for k, v in n.generators_t.items():
        v.columns = v.columns + "_generator"
    n.storage_units.index = n.storage_units.index.astype(str) + "_storage"
    for k, v in n.storage_units_t.items():
        v.columns = v.columns + "_storage"
    n.stores.index = n.stores.index.astype(str) + "_store"
    for k, v in n.stores_t.items():
        v.columns = v.columns + "_store"


def prepared(c: PyPSAStudyConverter, kind: str, capa: str):
    n = c.pypsa_network
    df = getattr(n, kind)
    for x in df.index:
        if len(df.loc[x, "carrier"]) == 0:
            df.loc[x, "carrier"] = c.null_carrier_id
    setattr(n, kind, df.join(n.carriers, on="carrier", how="left", rsuffix="_carrier"))
    df = getattr(n, kind)
    df.loc[df[capa + "_extendable"] == False, capa + "_min"] = df[capa]
    df.loc[df[capa + "_extendable"] == False, capa + "_max"] = df[capa]
    df.loc[df[capa + "_extendable"] == False, "capital_cost"] = 0.0


def impl_capacities(c: PyPSAStudyConverter):
    return c._preprocess_pypsa_components("generators", "p_nom")


def ref_capacities(c: PyPSAStudyConverter):
    return prepared(c, "generators", "p_nom")


def impl_capacities_stores(c: PyPSAStudyConverter):
    return c._preprocess_pypsa_components("stores", "e_nom")


def ref_capacities_stores(c: PyPSAStudyConverter):
    return prepared(c, "stores", "e_nom")


def impl_capacities_units(c: PyPSAStudyConverter):
    return c._preprocess_pypsa_components("storage_units", "p_nom")


def ref_capacities_units(c: PyPSAStudyConverter):
    return prepared(c, "storage_units", "p_nom")


def impl_capacities_links(c: PyPSAStudyConverter):
    return c._preprocess_pypsa_components("links", "p_nom")


def ref_capacities_links(c: PyPSAStudyConverter):
    return prepared(c, "links", "p_nom")


def same(names: List[str]):
    return {n: n for n in names}


def impl_registered(c: PyPSAStudyConverter):
    return c._register_pypsa_components()


def ref_registered(c: PyPSAStudyConverter):
    n = c.pypsa_network
    bus = {"bus": ("p_balance_port", "p_balance_port")}
    c._register_pypsa_components_of_given_model("generators", n.generators, n.generators_t, "generator", {
        "p_nom_min": "p_nom_min", "p_nom_max": "p_nom_max", "p_min_pu": "p_min_pu", "p_max_pu": "p_max_pu", "marginal_cost": "marginal_cost", "capital_cost": "capital_cost",
        "e_sum_min": "e_sum_min", "e_sum_max": "e_sum_max", "sign": "sign", "efficiency": "efficiency", "co2_emissions": "emission_factor"}, bus)
    c._register_pypsa_components_of_given_model("loads", n.loads, n.loads_t, "load", {"p_set": "p_set", "q_set": "q_set", "sign": "sign"}, bus)
    c._register_pypsa_components_of_given_model("buses", n.buses, n.buses_t, "bus", {
        "v_nom": "v_nom", "x": "x", "y": "y", "v_mag_pu_set": "v_mag_pu_set", "v_mag_pu_min": "v_mag_pu_min", "v_mag_pu_max": "v_mag_pu_max"}, {})
    c._register_pypsa_components_of_given_model("links", n.links, n.links_t, "link", {
        "efficiency": "efficiency", "p_nom_min": "p_nom_min", "p_nom_max": "p_nom_max", "p_min_pu": "p_min_pu", "p_max_pu": "p_max_pu", "marginal_cost": "marginal_cost",
        "capital_cost": "capital_cost"}, {"bus0": ("p0_port", "p_balance_port"), "bus1": ("p1_port", "p_balance_port")})
    c._register_pypsa_components_of_given_model("storage_units", n.storage_units, n.storage_units_t, "storage_unit", {
        "p_nom_min": "p_nom_min", "p_nom_max": "p_nom_max", "p_min_pu": "p_min_pu", "p_max_pu": "p_max_pu", "sign": "sign", "efficiency_store": "efficiency_store",
        "efficiency_dispatch": "efficiency_dispatch", "standing_loss": "standing_loss", "max_hours": "max_hours", "marginal_cost": "marginal_cost", "capital_cost": "capital_cost",
        "marginal_cost_storage": "marginal_cost_storage", "spill_cost": "spill_cost", "inflow": "inflow", "co2_emissions": "emission_factor"}, bus)
    c._register_pypsa_components_of_given_model("stores", n.stores, n.stores_t, "store", {
        "sign": "sign", "e_nom_min": "e_nom_min", "e_nom_max": "e_nom_max", "e_min_pu": "e_min_pu", "e_max_pu": "e_max_pu", "standing_loss": "standing_loss",
        "marginal_cost": "marginal_cost", "capital_cost": "capital_cost", "marginal_cost_storage": "marginal_cost_storage", "co2_emissions": "emission_factor"}, bus)


def impl_register(c: PyPSAStudyConverter, i: str, d: Any, t: Dict[str, Any], m: str, p: Dict[str, str], k: Dict[str, Tuple[str, str]]):
    c._register_pypsa_components_of_given_model(i, d, t, m, p, k)
    return c.pypsa_components_data


def ref_register(c: PyPSAStudyConverter, i: str, d: Any, t: Dict[str, Any], m: str, p: Dict[str, str], k: Dict[str, Tuple[str, str]]):
    if i in c.pypsa_components_data:
        raise ValueError("")
    c.pypsa_components_data[i] = PyPSAComponentData(i, d, t, m, p, k)
    return c.pypsa_components_data


def impl_contributors(c: PyPSAStudyConverter, xs: List[Tuple[str, str]], kind: str):
    return c._add_contributors_to_globalconstraints(xs, kind)


def ref_contributors(c: PyPSAStudyConverter, xs: List[Tuple[str, str]], kind: str):
    df = getattr(c.pypsa_network, kind)
    for i in df[df["carrier"] != c.null_carrier_id].index:
        xs.append((i, "emission_port"))
    return xs


def impl_constraints(c: PyPSAStudyConverter):
    c._register_pypsa_globalconstraints()
    return c.pypsa_globalconstraints_data


def ref_constraints(c: PyPSAStudyConverter):
    n = c.pypsa_network
    ports = []
    for df in (n.generators, n.stores, n.storage_units):
        for i in df[df["carrier"] != c.null_carrier_id].index:
            ports.append((i, "emission_port"))
    g = n.global_constraints
    for i in g.index:
        if g.loc[i, "carrier_attribute"] != "co2_emissions":
            raise ValueError("")
        if g.loc[i, "sense"] == "<=":
            kind = "global_constraint_co2_max"
        elif g.loc[i, "sense"] == "==":
            kind = "global_constraint_co2_eq"
        else:
            raise ValueError("")
        c.pypsa_globalconstraints_data[i] = PyPSAGlobalConstraintData(i, g.loc[i, "carrier_attribute"], g.loc[i, "sense"], g.loc[i, "constant"], kind, "emission_port", ports)
    return c.pypsa_globalconstraints_data


def impl_study(c: PyPSAStudyConverter):
    return c.to_gems_study()


def ref_study(c: PyPSAStudyConverter):
    comps = []
    conns = []
    for d in c.pypsa_components_data.values():
        x, y = c._convert_pypsa_components_of_given_model(d)
        comps.extend(x)
        conns.extend(y)
    for d in c.pypsa_globalconstraints_data.values():
        x, y = c._convert_pypsa_globalconstraint_of_given_model(d)
        comps.extend(x)
        conns.extend(y)
    return InputSystem(nodes=[], components=comps, connections=conns)


def impl_model(c: PyPSAStudyConverter, d: PyPSAComponentData):
    return c._convert_pypsa_components_of_given_model(d)


def ref_model(c: PyPSAStudyConverter, d: PyPSAComponentData):
    for k in d.pypsa_params_to_gems_params:
        if k not in d.constant_data.columns:
            raise ValueError("")
    for k in d.pypsa_params_to_gems_connections:
        if k not in d.constant_data.columns:
            raise ValueError("")
    varying = set(d.pypsa_params_to_gems_params).intersection(set(d.time_dependent_data.keys()))
    names = c._write_and_register_timeseries(d.time_dependent_data, varying)
    conns = c._create_gems_connections(d.constant_data, d.pypsa_params_to_gems_connections)
    return (c._create_gems_components(d.constant_data, d.gems_model_id, d.pypsa_params_to_gems_params, names), conns)


def impl_constraint(c: PyPSAStudyConverter, g: PyPSAGlobalConstraintData):
    return c._convert_pypsa_globalconstraint_of_given_model(g)


def ref_constraint(c: PyPSAStudyConverter, g: PyPSAGlobalConstraintData):
    quota = InputComponentParameter(id="quota", time_dependent=False, scenario_dependent=False, value=g.pypsa_constant)
    return ([InputComponent(id=g.pypsa_name, model=f"{c.pypsalib_id}.{g.gems_model_id}", parameters=[quota])],
            [InputPortConnections(component1=g.pypsa_name, port1=g.gems_port_id, component2=i, port2=p) for i, p in g.gems_components_and_ports])


def impl_series(c: PyPSAStudyConverter, d: Dict[str, Any], ps: List[str]):
    return c._write_and_register_timeseries(d, ps)


def ref_series(c: PyPSAStudyConverter, d: Dict[str, Any], ps: List[str]):
    out = {}
    for p in ps:
        df = d[p]
        for i in df.columns:
            name = c.system_name + "_" + i + "_" + p
            out[(i, p)] = name
            df[[i]].to_csv(c.series_dir / Path(name + ".txt"), index=False, header=False)
    return out


def impl_components(c: PyPSAStudyConverter, df: Any, m: str, ps: Dict[str, str], ts: Dict[Tuple[str, str], str]):
    return c._create_gems_components(df, m, ps, ts)


def ref_components(c: PyPSAStudyConverter, df: Any, m: str, ps: Dict[str, str], ts: Dict[Tuple[str, str], str]):
    out = []
    for i in df.index:
        params = []
        for p in ps:
            if (i, p) in ts:
                params.append(InputComponentParameter(id=ps[p], time_dependent=True, scenario_dependent=False, value=ts[(i, p)]))
            else:
                params.append(InputComponentParameter(id=ps[p], time_dependent=False, scenario_dependent=False, value=any_to_float(df.loc[i, p])))
        out.append(InputComponent(id=i, model=f"{c.pypsalib_id}.{m}", parameters=params))
    return out


def impl_connections(c: PyPSAStudyConverter, df: Any, k: Dict[str, Tuple[str, str]]):
    return c._create_gems_connections(df, k)


def ref_connections(c: PyPSAStudyConverter, df: Any, k: Dict[str, Tuple[str, str]]):
    out = []
    for b, ports in k.items():
        buses = df[b].values
        for n, i in enumerate(df.index):
            out.append(InputPortConnections(component1=buses[n], port1=ports[1], component2=i, port2=ports[0]))
    return out
