"""python3 tools/signatures.py: record the parameter lists of the private functions that specifications call"""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vstatic import builtins_ as B
from vstatic.registry import PROPS
from vstatic.driver import Checker
from multiprocessing import Pool


def one(s):
    B.SIGNATURES.clear()
    C = Checker("/repo", [s])
    for p in C.pairs("spec_" + s):
        C.run_pair(p)
    return {k: list(v) for k, v in B.SPEC_CALLS.items()}


if __name__ == "__main__":
    out = {}
    with Pool(8, maxtasksperchild=1) as ex:
        for r in ex.imap(one, sorted({s for c in PROPS.values() for s in c.get("specs", [])}), chunksize=1):
            out.update(r)
    json.dump(dict(sorted(out.items())), open(os.path.join(HERE, "vstatic", "signatures.json"), "w"), indent=0)
    print(len(out))
