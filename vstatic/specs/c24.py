from typing import Any, Dict, List, Optional, Union, Iterable
from pathlib import Path
from andromede.study.data import (Scenarization, DataBase, ConstantData, TimeSeriesData, ScenarioSeriesData, TimeScenarioSeriesData,
    load_ts_from_txt, dataframe_to_time_series, dataframe_to_scenario_series)
from andromede.study.parsing import InputComponent, InputComponentParameter, InputSystem, InputPortConnections
from andromede.study.network import Component, Network, Node, PortRef, PortsConnection
from andromede.model.library import Library
from andromede.model.model import Model
from andromede.study.resolve_components import System, _build_data, _resolve_component, _resolve_connections, build_network, consistency_check, resolve_system, system

OPTIONS = {"*": {"algebra": False, "denote": False},
           "network_connections": {"raises": "ignore"}, "network": {"raises": "ignore"}, "system": {"raises": "ignore"},
           "connection": {"cut": ["andromede.study.network.PortsConnection.__post_init__"]},
           "system_connections": {"raises": "ignore", "cut": ["andromede.study.resolve_components._resolve_component", "andromede.study.network.PortsConnection.__post_init__"]},
           "data": {"cut": ["andromede.study.data.load_ts_from_txt", "andromede.study.data.dataframe_to_time_series", "andromede.study.data.dataframe_to_scenario_series"]}}


def impl_component(libs: Dict[str, Library], c: InputComponent):
    r = _resolve_component(libs, c)
    return (r.id, r.model)


def ref_component(libs: Dict[str, Library], c: InputComponent):
    lib, m = c.model.split(".")
    return (c.id, libs[lib].models[m])


def impl_system(i: InputSystem, libs: Dict[str, Library]):
    r = resolve_system(i, libs)
    return (r.components, r.nodes)


def ref_system(i: InputSystem, libs: Dict[str, Library]):
    return ({c.id: _resolve_component(libs, c) for c in i.components}, {n.id: _resolve_component(libs, n) for n in i.nodes})


def impl_system_connections(i: InputSystem, libs: Dict[str, Library]):
    return resolve_system(i, libs).connections


def ref_system_connections(i: InputSystem, libs: Dict[str, Library]):
    table = {c.id: c for c in [_resolve_component(libs, x) for x in i.components] + [_resolve_component(libs, x) for x in i.nodes]}
    return [PortsConnection(PortRef(table.get(c.component1), c.port1), PortRef(table.get(c.component2), c.port2)) for c in i.connections]


def impl_connection(c: InputPortConnections, p: Component, q: Component, r: Component):
    p.id = "p"
    q.id = "q"
    r.id = "r"
    cs = [p, q, r]
    return _resolve_connections(c, cs)


def ref_connection(c: InputPortConnections, p: Component, q: Component, r: Component):
    p.id = "p"
    q.id = "q"
    r.id = "r"
    cs = [p, q, r]
    table = {}
    for x in cs:
        table[x.id] = x
    a = table.get(c.component1)
    b = table.get(c.component2)
    if a is None or b is None:
        raise AssertionError("")
    return PortsConnection(PortRef(a, c.port1), PortRef(b, c.port2))


def impl_network(s: System):
    n = build_network(s)
    return (n.id, n._nodes, n._components)


def ref_network(s: System):
    return ("study", {k: Node(model=x.model, id=k) for k, x in s.nodes.items()}, {c.id: c for c in s.components.values()})


def impl_network_connections(s: System):
    return [(c.port1, c.port2) for c in build_network(s).connections]


def ref_network_connections(s: System):
    return [(c.port1, c.port2) for c in s.connections]


def impl_consistency(cs: Dict[str, Component], ms: Dict[str, Model]):
    return consistency_check(cs, ms)


def ref_consistency(cs: Dict[str, Component], ms: Dict[str, Model]):
    for c in cs.values():
        if c.model.id not in ms:
            raise ValueError("")
    return True


def impl_data(t: bool, s: bool, v: Union[float, str], d: Optional[Path], z: Optional[Scenarization]):
    return _build_data(t, s, v, d, z)


def ref_data(t: bool, s: bool, v: Union[float, str], d: Optional[Path], z: Optional[Scenarization]):
    if isinstance(v, str):
        if not t and not s:
            raise ValueError("")
        ts = load_ts_from_txt(v, d)
        if t and s:
            return TimeScenarioSeriesData(ts, z)
        if t:
            return TimeSeriesData(dataframe_to_time_series(ts))
        return ScenarioSeriesData(dataframe_to_scenario_series(ts), z)
    if t or s:
        raise ValueError("")
    return ConstantData(float(v))


def impl_make_system(cs: List[Component], ns: List[Component], xs: List[PortsConnection]):
    r = system(cs, ns, xs)
    return (r.components, r.nodes, r.connections)


def ref_make_system(cs: List[Component], ns: List[Component], xs: List[PortsConnection]):
    return ({c.id: c for c in cs}, {c.id: c for c in ns}, list(xs))
