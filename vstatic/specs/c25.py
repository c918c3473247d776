from argparse import ArgumentTypeError
from andromede.input_converter.src.main import CreateFileIfMissing, PathType
from andromede.utils import _to_kebab
import argparse
import json
import os
import pathlib
from pathlib import Path
from typing import Any, Dict, List, Optional, TextIO
import pandas as pd
from pydantic import ValidationError
from yaml import safe_load
from andromede.main.main import AntaresTimeSeriesImportError, input_database, input_libs, input_study, main_cli
from andromede.model.library import Library
from andromede.model.parsing import InputLibrary, parse_yaml_library
from andromede.model.resolve_library import resolve_library
from andromede.simulation import TimeBlock, build_problem
from andromede.study.parsing import InputSystem, ParsedArguments, parse_cli, parse_scenario_builder, parse_yaml_components
from andromede.study.resolve_components import build_data_base, build_network, consistency_check, resolve_system

CUT = ["andromede.model.resolve_library.resolve_library", "andromede.study.resolve_components.resolve_system",
       "andromede.study.resolve_components.build_data_base", "andromede.study.resolve_components.build_network",
       "andromede.study.resolve_components.consistency_check", "andromede.simulation.optimization.build_problem"]
OPTIONS = {"*": {"cut": CUT, "algebra": False},
           "libs": {"cut": CUT + ["andromede.model.parsing.parse_yaml_library"]},
           "study": {"cut": CUT + ["andromede.study.parsing.parse_yaml_components"]},
           "database": {"cut": CUT + ["andromede.study.parsing.parse_yaml_components"]},
           "main": {"cut": CUT + ["andromede.study.parsing.parse_cli", "andromede.main.main.input_libs", "andromede.main.main.input_study", "andromede.main.main.input_database"],
                    "raising": ["andromede.study.resolve_components.consistency_check"]}}


def impl_library(f: TextIO):
    return parse_yaml_library(f)


def ref_library(f: TextIO):
    tree = safe_load(f)
    try:
        return InputLibrary.model_validate(tree["library"])
    except ValidationError as e:
        raise ValueError("")


def impl_system(f: TextIO):
    return parse_yaml_components(f)


def ref_system(f: TextIO):
    return InputSystem.model_validate(safe_load(f)["system"])


def impl_scenario(f: Path):
    return parse_scenario_builder(f)


def ref_scenario(f: Path):
    sb = pd.read_csv(f, names=("name", "year", "scenario"))
    sb.rename(columns={0: "name", 1: "year", 2: "scenario"})
    return sb


def impl_libs(paths: List[Path]):
    return input_libs(paths)


def ref_libs(paths: List[Path]):
    libs = []
    ids = set()
    for p in paths:
        with p.open("r") as f:
            x = parse_yaml_library(f)
            if x.id in ids:
                raise ValueError("")
            ids.add(x.id)
            libs.append(x)
    return resolve_library(libs)


def impl_study(p: Path, libs: Dict[str, Library]):
    return input_study(p, libs)


def ref_study(p: Path, libs: Dict[str, Library]):
    with p.open() as f:
        return resolve_system(parse_yaml_components(f), libs)


def impl_database(p: Path, ts: Optional[Path]):
    return input_database(p, ts)


def ref_database(p: Path, ts: Optional[Path]):
    with p.open() as f:
        return build_data_base(parse_yaml_components(f), ts)


def impl_main():
    return main_cli()


def ref_main():
    args = parse_cli()
    libs = input_libs(args.models_path)
    study = input_study(args.components_path, libs)
    models = {}
    for lib in libs.values():
        models.update(lib.models)
    consistency_check(study.components, models)
    try:
        database = input_database(args.components_path, args.timeseries_path)
    except UnboundLocalError:
        raise AntaresTimeSeriesImportError("")
    network = build_network(study)
    try:
        problem = build_problem(network, database, TimeBlock(1, list(range(args.duration))), args.nb_scenarios)
    except IndexError as e:
        raise IndexError("")
    status = problem.solver.Solve()
    print("status : ", status)
    print("final average cost : ", problem.solver.Objective().Value())


def impl_cli():
    return parse_cli()


def ref_cli():
    parser = argparse.ArgumentParser()
    parser.add_argument("--study", type=Path, help="path to the root directory of the study")
    parser.add_argument("--models", nargs="+", type=Path, help="list of path to model file, *.yml")
    parser.add_argument("--component", type=Path, help="path to the component file, *.yml")
    parser.add_argument("--timeseries", type=Path, help="path to the timeseries directory")
    parser.add_argument("--duration", type=int, help="duration of the simulation", default=1)
    parser.add_argument("--scenario", type=int, help="number of scenario of the simulation", default=1)
    args = parser.parse_args()
    if args.study:
        if args.models or args.component or args.timeseries:
            parser.error("--study flag can't be use with --models, --component and --timeseries")
        components_path = args.study / "input" / "components" / "components.yml"
        timeseries_dir = args.study / "input" / "components" / "series"
        model_paths = [args.study / "input" / "models" / f for f in os.listdir(args.study / "input" / "models")]
    else:
        if not args.models or not args.component:
            parser.error("--models and --component must be entered")
        components_path = args.component
        timeseries_dir = args.timeseries
        model_paths = args.models
    return ParsedArguments(model_paths, components_path, timeseries_dir, args.duration, args.scenario)


def impl_kebab(s: str):
    return _to_kebab(s)


def ref_kebab(s: str):
    return s.replace("_", "-")


def impl_path_kinds(e: bool, f: bool, d: bool):
    p = PathType(e, f, d)
    return (p.exists, p.file_ok, p.dir_ok)


def ref_path_kinds(e: bool, f: bool, d: bool):
    if not f and not d:
        raise ValueError("")
    return (e, f, d)


def impl_path_any(s: str, f: bool, d: bool):
    return PathType(False, f, d)(s)


def ref_path_any(s: str, f: bool, d: bool):
    if not f and not d:
        raise ValueError("")
    return Path(s).expanduser()


def impl_path_file(s: str):
    return PathType(exists=True, file_ok=True)(s)


def ref_path_file(s: str):
    p = Path(s).expanduser()
    if not p.is_file():
        raise ArgumentTypeError("")
    return p


def impl_path_directory(s: str):
    return PathType(exists=True, dir_ok=True)(s)


def ref_path_directory(s: str):
    p = Path(s).expanduser()
    if not p.is_dir():
        raise ArgumentTypeError("")
    return p


def impl_path_either(s: str):
    return PathType(exists=True, dir_ok=True, file_ok=True)(s)


def ref_path_either(s: str):
    p = Path(s).expanduser()
    if not p.exists():
        raise ArgumentTypeError("")
    return p


def impl_file_created(s: str):
    return CreateFileIfMissing()(s)


def ref_file_created(s: str):
    p = Path(s).expanduser().resolve()
    if p.exists() and not p.is_file():
        raise ArgumentTypeError("")
    if not p.parent.exists():
        raise ArgumentTypeError("")
    if not p.exists():
        try:
            p.touch()
        except Exception:
            raise ArgumentTypeError("")
    return p
