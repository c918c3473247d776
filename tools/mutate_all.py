"""python3 tools/mutate_all.py [-f regex] [-j n]: changes of any analysed function that no property's obligations report,
and the functions that no property analyses"""
import argparse, os, re, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "tools"))
from multiprocessing import Pool
from vstatic import sensitivity as S
from vstatic.driver import Checker
import refactor

ap = argparse.ArgumentParser()
ap.add_argument("-f", default=""); ap.add_argument("-j", type=int, default=8); ap.add_argument("--repo", default="/repo"); ap.add_argument("-u", action="store_true")
A = ap.parse_args()
FN = {k[0]: v for k, v in refactor.load(A.repo).items()}
C = Checker(A.repo, [])
if A.u:
    for mname, m in C.P.modules.items():
        if mname.startswith("andromede") and ".antlr." not in mname:
            for q, fp, node in S.functions(m.tree):
                if mname + "." + q not in FN:
                    print(mname + "." + q, node.end_lineno - node.lineno + 1)
    sys.exit()
MS = [m for m in S.mutants(C, {f for f in FN if re.search(A.f, f)})]


def one(i):
    full, m, fp, path, desc, f = MS[i]
    try:
        t, line = S.apply(m.tree, fp, path, f)
        r = S.try_mutant(A.repo, FN[full], m.relpath, t)
    except Exception as e:
        return i, "error " + repr(e)[:80], None, ""
    src = ""
    if r != "hard":
        src = open(os.path.join(A.repo, m.relpath)).read().splitlines()[(line or 1) - 1].strip()
    return i, r, line, src


if __name__ == "__main__":
    t0 = time.time()
    n = {}
    print(len(MS), "mutants", flush=True)
    with Pool(A.j, maxtasksperchild=1) as ex:
        for i, r, line, src in ex.imap(one, range(len(MS)), chunksize=1):
            n[r] = n.get(r, 0) + 1
            if r != "hard":
                print(f"{r:5} {MS[i][0].replace('andromede.', '')}:{line} {MS[i][4]} | {src[:90]}", flush=True)
    print(n, round(time.time() - t0))
