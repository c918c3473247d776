from typing import Any, Dict, List, Mapping, Optional
import pandas as pd
from andromede.study.data import (ConstantData, DataBase, AbstractDataStructure, ScenarioIndex, ScenarioSeriesData, Scenarization,
    TimeIndex, TimeScenarioSeriesData, TimeSeriesData, TreeData)
from andromede.study.network import Network
from andromede.simulation.optimization import build_problem
from andromede.simulation.time_block import TimeBlock

OPTIONS = {"*": {"algebra": False, "denote": False}}


def impl_constant(v: float, t: bool, s: bool):
    return ConstantData(v).check_requirement(t, s)


def ref_constant(v: float, t: bool, s: bool):
    return True


def impl_time_series(m: Mapping[TimeIndex, float], t: bool, s: bool):
    return TimeSeriesData(m).check_requirement(t, s)


def ref_time_series(m: Mapping[TimeIndex, float], t: bool, s: bool):
    return t


def impl_scenario_series(m: Mapping[ScenarioIndex, float], z: Optional[Scenarization], t: bool, s: bool):
    return ScenarioSeriesData(m, z).check_requirement(t, s)


def ref_scenario_series(m: Mapping[ScenarioIndex, float], z: Optional[Scenarization], t: bool, s: bool):
    return s


def impl_table(m: pd.DataFrame, z: Optional[Scenarization], t: bool, s: bool):
    return TimeScenarioSeriesData(m, z).check_requirement(t, s)


def ref_table(m: pd.DataFrame, z: Optional[Scenarization], t: bool, s: bool):
    return t and s


def impl_tree(m: Mapping[str, AbstractDataStructure], t: bool, s: bool):
    return TreeData(m).check_requirement(t, s)


def ref_tree(m: Mapping[str, AbstractDataStructure], t: bool, s: bool):
    for d in m.values():
        if not d.check_requirement(t, s):
            return False
    return True


def impl_consistency(db: DataBase, n: Network):
    db.requirements_consistency(n)


def ref_consistency(db: DataBase, n: Network):
    for c in list(n._nodes.values()) + list(n._components.values()):
        for k, p in c.model.parameters.items():
            if not db.get_data(c.id, p.name).check_requirement(c.model.parameters[p.name].structure.time, c.model.parameters[p.name].structure.scenario):
                raise ValueError("")
