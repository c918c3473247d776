"""python3 tools/refactor_manual.py [regex]: hand-written behaviour-preserving edits; every one must leave all obligations of the edited module
without a definite difference.  Edits live in tools/manual/*.edit: '### file', then '<<<<' old '====' new '>>>>' blocks."""
import glob, os, re, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "tools"))
PAT = sys.argv[1] if len(sys.argv) > 1 else ""
sys.argv = sys.argv[:1]
import importlib
import refactor
from vstatic.driver import Checker
from vstatic.registry import PROPS
from vstatic.report import Report
from vstatic.run import isolated, decide_pair, missing_names

FN = refactor.load("/repo")
KNOWN = {("c26", "wind_connected"), ("c26", "solar_connected")}


def parse(path):
    ov = {}
    cur = None
    text = open(path).read()
    for block in re.split(r"^### ", text, flags=re.M)[1:]:
        f, _, rest = block.partition("\n")
        f = f.strip()
        s = ov.get(f) or open("/repo/" + f).read()
        for old, new in re.findall(r"^<<<<\n(.*?)^====\n(.*?)^>>>>", rest, flags=re.S | re.M):
            if s.count(old) < 1:
                raise SystemExit(f"{path}: not found: {old[:80]!r}")
            s = s.replace(old, new, 1)
        compile(s, f, "exec")
        ov[f] = s
    return ov


for path in sorted(glob.glob(os.path.join(HERE, "tools", "manual", "*.edit"))):
    name = os.path.basename(path)[:-5]
    if not re.search(PAT, name):
        continue
    ov = parse(path)
    prs = sorted({x for k, v in FN.items() if k[1] in ov for x in v})
    C = Checker("/repo", sorted({a for a, _ in prs}), overlay=ov)
    todo = [(sp, p) for sp in sorted({a for a, _ in prs}) for p in C.pairs("spec_" + sp) if (sp, p.name) in prs]
    rs = isolated([lambda p=p: (([(False, "", "", "", "names missing")], [], None) if missing_names(C, p) else decide_pair(C, p)) for _, p in todo])
    hard = []
    soft = 0
    und = []
    for (sp, p), r in zip(todo, rs):
        if isinstance(r, BaseException):
            soft += 1
            und.append((sp, p.name, str(r)))
        elif r[0] and r[0][0][0] and (sp, p.name) not in KNOWN:
            hard.append((sp, p.name, r[0][0][4]))
        elif r[0]:
            soft += 1
            und.append((sp, p.name, r[0][0][4]))
    rules = []
    for prop, cfg in PROPS.items():
        for r in [x for x in cfg.get("rules", []) if ":" not in x]:
            rep = Report()
            importlib.import_module("vstatic.rules." + r).run(C.P, rep, "/repo", False)
            rules += [f.key for f in rep.findings]
    print(("HARD " if hard else "ok   ") + name, f"obligations {len(todo)} undetermined {soft}", "RULES " + str(rules) if rules else "", flush=True)
    for h in hard[:3]:
        print("     ", h[0], h[1], h[2][:400])
    for h in und:
        if (h[0], h[1]) not in KNOWN:
            print("      ?", h[0], h[1], h[2][:200])
