import os
import pathlib
import subprocess
import sys
from typing import Any, List
from andromede.simulation.runner import BendersRunner, CommandRunner, MergeMPSRunner

OPTIONS = {"*": {"algebra": False, "denote": False, "ordered_effects": True}, "run": {"raise_effects": True}}


def impl_run(b: pathlib.Path, args: List[str], e: pathlib.Path):
    return CommandRunner(b, args, e).run()


def ref_run(b: pathlib.Path, args: List[str], e: pathlib.Path):
    here = pathlib.Path().cwd()
    if not b.is_file():
        return 0
    os.chdir(e)
    try:
        r = subprocess.run([here / b, *args], stdout=sys.stdout, stderr=subprocess.DEVNULL, shell=False)
    finally:
        os.chdir(here)
    return r.returncode


def impl_benders(e: pathlib.Path):
    r = BendersRunner(e)
    return (r.current_dir, r.command, r.emplacement, r.arguments)


def ref_benders(e: pathlib.Path):
    return (pathlib.Path().cwd(), pathlib.Path("bin/benders"), e, ["options.json"])


def impl_merge(e: pathlib.Path):
    r = MergeMPSRunner(e)
    return (r.current_dir, r.command, r.emplacement, r.arguments)


def ref_merge(e: pathlib.Path):
    return (pathlib.Path().cwd(), pathlib.Path("bin/merge_mps"), e, ["options.json"])
