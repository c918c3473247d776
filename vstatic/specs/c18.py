from typing import Any, Dict, List, Optional, Union
from pathlib import Path
import pandas as pd
from andromede.study.data import Scenarization, ComponentParameterIndex, DataBase, AbstractDataStructure
from andromede.study.parsing import InputComponent, InputComponentParameter, InputSystem, parse_scenario_builder
from andromede.study.resolve_components import _build_data, _resolve_scenarization, build_data_base, build_scenarized_data_base

OPTIONS = {"*": {"algebra": False, "denote": False},
           "scenarized": {"raises": "ignore", "ignore_value": True,
                          "cut": ["andromede.study.resolve_components._build_data", "andromede.study.resolve_components._resolve_scenarization",
                                  "andromede.study.data.DataBase.add_data"],
                          "no_inline": ["andromede.study.data.DataBase.add_data"]},
           "two_params": {"raises": "ignore", "cut": ["andromede.study.resolve_components._build_data", "andromede.study.resolve_components._resolve_scenarization"]},
           "two_components": {"raises": "ignore", "cut": ["andromede.study.resolve_components._build_data", "andromede.study.resolve_components._resolve_scenarization"]},
           "two_params_plain": {"raises": "ignore", "cut": ["andromede.study.resolve_components._build_data"]},
           "few_groups": {"xlists": ["iterrows"], "bounds": (1, 2, 3), "ignore_effects": True},
           "builder_file": {"ignore_effects": True},
           "plain": {"raises": "ignore", "ignore_value": True, "cut": ["andromede.study.resolve_components._build_data", "andromede.study.data.DataBase.add_data"],
                     "no_inline": ["andromede.study.data.DataBase.add_data"]},
           "plain_result": {"raises": "ignore", "cut": ["andromede.study.resolve_components._build_data"]},
           }


def impl_scenarized(i: InputSystem, sb: pd.DataFrame, d: Optional[Path]):
    build_scenarized_data_base(i, sb, d)


def ref_scenarized(i: InputSystem, sb: pd.DataFrame, d: Optional[Path]):
    db = DataBase()
    groups = _resolve_scenarization(sb)
    for c in i.components + i.nodes:
        if c.parameters is not None:
            for p in c.parameters:
                z = None
                if p.scenario_group:
                    z = groups[p.scenario_group]
                elif c.scenario_group:
                    z = groups[c.scenario_group]
                db.add_data(c.id, p.id, _build_data(p.time_dependent, p.scenario_dependent, p.value, d, z))


def impl_two_params(c: InputComponent, p: InputComponentParameter, q: InputComponentParameter, sb: pd.DataFrame, d: Optional[Path]):
    c.parameters = [p, q]
    return build_scenarized_data_base(InputSystem(components=[c], nodes=[]), sb, d)._data


def ref_two_params(c: InputComponent, p: InputComponentParameter, q: InputComponentParameter, sb: pd.DataFrame, d: Optional[Path]):
    c.parameters = [p, q]
    groups = _resolve_scenarization(sb)
    r = {}
    r[ComponentParameterIndex(c.id, p.id)] = _build_data(p.time_dependent, p.scenario_dependent, p.value, d, groups[p.scenario_group] if p.scenario_group else groups[c.scenario_group] if c.scenario_group else None)
    r[ComponentParameterIndex(c.id, q.id)] = _build_data(q.time_dependent, q.scenario_dependent, q.value, d, groups[q.scenario_group] if q.scenario_group else groups[c.scenario_group] if c.scenario_group else None)
    return r


def impl_two_components(a: InputComponent, b: InputComponent, p: InputComponentParameter, q: InputComponentParameter, sb: pd.DataFrame, d: Optional[Path]):
    a.parameters = [p]
    b.parameters = [q]
    return build_scenarized_data_base(InputSystem(components=[a], nodes=[b]), sb, d)._data


def ref_two_components(a: InputComponent, b: InputComponent, p: InputComponentParameter, q: InputComponentParameter, sb: pd.DataFrame, d: Optional[Path]):
    a.parameters = [p]
    b.parameters = [q]
    groups = _resolve_scenarization(sb)
    r = {}
    r[ComponentParameterIndex(a.id, p.id)] = _build_data(p.time_dependent, p.scenario_dependent, p.value, d, groups[p.scenario_group] if p.scenario_group else groups[a.scenario_group] if a.scenario_group else None)
    r[ComponentParameterIndex(b.id, q.id)] = _build_data(q.time_dependent, q.scenario_dependent, q.value, d, groups[q.scenario_group] if q.scenario_group else groups[b.scenario_group] if b.scenario_group else None)
    return r


def impl_two_params_plain(a: InputComponent, b: InputComponent, p: InputComponentParameter, q: InputComponentParameter, o: InputComponentParameter, d: Optional[Path]):
    a.parameters = [p, q]
    b.parameters = [o]
    return build_data_base(InputSystem(components=[a], nodes=[b]), d)._data


def ref_two_params_plain(a: InputComponent, b: InputComponent, p: InputComponentParameter, q: InputComponentParameter, o: InputComponentParameter, d: Optional[Path]):
    a.parameters = [p, q]
    b.parameters = [o]
    return {ComponentParameterIndex(a.id, p.id): _build_data(p.time_dependent, p.scenario_dependent, p.value, d),
            ComponentParameterIndex(a.id, q.id): _build_data(q.time_dependent, q.scenario_dependent, q.value, d),
            ComponentParameterIndex(b.id, o.id): _build_data(o.time_dependent, o.scenario_dependent, o.value, d)}


def impl_plain(i: InputSystem, d: Optional[Path]):
    build_data_base(i, d)


def ref_plain(i: InputSystem, d: Optional[Path]):
    db = DataBase()
    for c in i.components + i.nodes:
        if c.parameters is not None:
            for p in c.parameters:
                db.add_data(c.id, p.id, _build_data(p.time_dependent, p.scenario_dependent, p.value, d))


def impl_plain_result(i: InputSystem, d: Optional[Path]):
    return build_data_base(i, d)._data


def ref_plain_result(i: InputSystem, d: Optional[Path]):
    r = {}
    for c in i.components + i.nodes:
        if c.parameters is not None:
            for p in c.parameters:
                r[ComponentParameterIndex(c.id, p.id)] = _build_data(p.time_dependent, p.scenario_dependent, p.value, d)
    return r


def impl_groups(sb: pd.DataFrame):
    return _resolve_scenarization(sb)


def ref_groups(sb: pd.DataFrame):
    output = {}
    for i, row in sb.iterrows():
        if row["name"] not in output:
            output[row["name"]] = Scenarization({row["year"]: row["scenario"]})
        else:
            output[row["name"]].add_year(row["year"], row["scenario"])
    return output


def impl_few_groups(sb: pd.DataFrame):
    return _resolve_scenarization(sb)


def ref_few_groups(sb: pd.DataFrame):
    return ref_groups(sb)


def impl_builder_file(f: Path):
    return parse_scenario_builder(f)


def ref_builder_file(f: Path):
    return pd.read_csv(f, names=("name", "year", "scenario"))
