"""python3 tools/mutate.py PROP [-f regex] [-n max] : list changes that the obligations of PROP do not report"""
import argparse, ast, os, re, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from multiprocessing import Pool
from vstatic import sensitivity as S

ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("-f", default=""); ap.add_argument("-n", type=int, default=100000); ap.add_argument("-j", type=int, default=8)
ap.add_argument("--repo", default="/repo")
A = ap.parse_args()
C, res = S.base_run(A.prop, A.repo)
FN = {}
for sp, n, fs, _ in res:
    for f in fs:
        FN.setdefault(f, []).append((sp, n))
MS = [m for m in S.mutants(C, set(FN)) if re.search(A.f, m[0])][:A.n]


def one(i):
    full, m, fp, path, desc, f = MS[i]
    try:
        t, line = S.apply(m.tree, fp, path, f)
    except Exception as e:
        return i, "error " + repr(e), None, None
    r = S.try_mutant(A.repo, FN[full], m.relpath, t)
    src = ""
    if r != "hard":
        src = open(os.path.join(A.repo, m.relpath)).read().splitlines()[(line or 1) - 1].strip()
    return i, r, line, src


if __name__ == "__main__":
    t0 = time.time()
    n = {}
    with Pool(A.j, maxtasksperchild=3) as ex:
        for i, r, line, src in ex.imap(one, range(len(MS)), chunksize=4):
            n[r] = n.get(r, 0) + 1
            if r != "hard":
                print(f"{r:5} {MS[i][0].replace('andromede.', '')}:{line} {MS[i][4]} | {src[:90]}")
    print(A.prop, n, round(time.time() - t0))
