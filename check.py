#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]
Static decision of one property on /repo's current working tree: the sources are
parsed, never imported or run.  Exit 0: held on everything analysed.
Exit 1: VIOLATION.  Exit 2: nothing could be decided."""
import json
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: "):
                head, _, what = line[len("finding: "):].partition(" :: ")
                prop, _, key = head.partition(" key=")
                out.append((prop.replace("property=", "").strip(), key.strip(), what))
    return out


def main():
    prop = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    from vstatic.run import decide
    rep = decide(prop, REPO, tier == "thorough")
    kf = [(k, w) for p, k, w in known_findings() if p == prop]
    known, fresh = [], []
    for f in rep.findings:
        m = [w for k, w in kf if k == f.key]
        (known if m else fresh).append((f, m[0] if m else None))
    extra = {}
    if tier == "thorough":
        from vstatic.sensitivity import sensitivity
        extra = sensitivity(prop, REPO)
    cov = {
        "explanation": ("Static analysis of the parsed sources of /repo (no repository code is executed). Each obligation is either a "
                        "comparison of the gated value graph of repository code with the value graph of the stated meaning, for all inputs, "
                        "or a rule instance over the resolved syntax trees and tables. An obligation is discharged when the two are equal "
                        "after normalisation (or the rule instance is satisfied), violated on a definite difference, undetermined otherwise "
                        "(undetermined never raises an alarm and is listed)."),
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "violated_known": len(known),
        "violated_new": len(fresh),
        "violation_list": [f.as_dict() for f, _ in fresh][:20],
        "undetermined": len(rep.undetermined),
        "undetermined_list": rep.undetermined[:40],
        "functions_analysed": len(rep.functions),
        "functions": sorted(rep.functions)[:200],
        "by_rule": rep.counts,
        "samples": rep.samples[:8],
    }
    if extra:
        cov["sensitivity"] = extra
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 3),
          "assumptions": ["type annotations of the repository are respected by callers", "floating point arithmetic is treated as exact real arithmetic",
                          "third-party libraries behave as documented"],
          "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    print(f"{prop}: obligations={rep.obligations} discharged={rep.discharged} undetermined={len(rep.undetermined)} "
          f"known={len(known)} new={len(fresh)} functions={len(rep.functions)} {ev['wall_s']}s")
    for f, w in known:
        print(f"KNOWN-FINDING: property={prop} {w}")
    if fresh:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        for i, (f, _) in enumerate(fresh):
            path = os.path.join(HERE, "replay", f"{prop}-{i}.json")
            with open(path, "w", encoding="utf-8") as fh:
                json.dump(f.as_dict(), fh, indent=1)
            if i < 10:
                print(f"  {f.rule} {f.construct} {f.file}: {f.message[:400]}")
                print(f"VIOLATION property={prop} replay={path}")
        return 1
    if rep.discharged == 0 and not known:
        print(f"{prop}: nothing could be decided", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
