"""Confirm and record planted bugs: python3 tools/seed.py FILE [ID...]
FILE defines SEEDS = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo=python text)]
Everything happens in a scratch copy of /repo under /tmp; /repo is not touched."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", TZ="UTC")
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def one(s, write=True, tests=True):
    w = f"/tmp/seed_{s['id']}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        sh("git checkout -q -- . ", w)
        d = os.path.join(HERE, "seeded", s["id"])
        tmp = f"/tmp/seedd_{s['id']}"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        with open(tmp + "/demo.py", "w") as fh:
            fh.write(s["demo"])
        with open(tmp + "/demo.sh", "w") as fh:
            fh.write('#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\nexport PYTHONPATH="$PWD/src:$PWD"\n'
                     'exec /opt/venv/bin/python "$d/demo.py"\n')
        with open(tmp + "/meta.json", "w") as fh:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, fh, indent=1)
        rc0, o0 = sh(["bash", tmp + "/demo.sh"], w)
        if rc0 != 0:
            return s["id"], "DEMO FAILS ON CLEAN", o0[-600:]
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], f"EDIT MATCHES {t.count(old)} TIMES", old
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        open(tmp + "/patch.diff", "w").write(diff)
        rc1, o1 = sh(["bash", tmp + "/demo.sh"], w)
        if rc1 == 0:
            return s["id"], "DEMO PASSES WITH PATCH", ""
        miss = []
        if tests:
            rc, o = sh(f"{PY} -m pytest -q -x -p no:cacheprovider -o log_cli=false -W ignore --timeout=300 --continue-on-collection-errors "
                       f"--ignore=tests/pypsa_converter -o junit_family=xunit2 --junitxml=/tmp/seed_{s['id']}.xml".replace(" -x ", " "), w, {"PYTHONPATH": w + "/src"})
            import xml.etree.ElementTree as ET
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            bad = []
            for tc in ET.parse(f"/tmp/seed_{s['id']}.xml").getroot().iter("testcase"):
                if any(c.tag in ("failure", "error") for c in tc):
                    bad.append((tc.get("classname"), tc.get("name")))
            os.remove(f"/tmp/seed_{s['id']}.xml")
            for c, n in bad:
                if any(n in b and c.split(".")[-1] in b for b in base):
                    miss.append(f"{c}::{n}")
        if miss:
            return s["id"], "TESTS FAIL", str(miss[:5])
        rc2, o2 = sh(["python3", HERE + "/check.py", s["property"]], HERE, {"VERIF_REPO": w})
        if write:
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
        shutil.rmtree(tmp)
        return s["id"], ("CAUGHT" if rc2 == 1 and f"VIOLATION property={s['property']} " in o2 else "MISSED"), o2.strip()[-400:] + " || demo: " + o1.strip()[-150:]
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    sel = sys.argv[2:]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, [s for s in seeds if not sel or s["id"] in sel]):
            print(r[0], r[1], "\n    ", r[2][:700].replace("\n", "\n     "))


main()
