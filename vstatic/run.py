"""Decide one property on the current tree."""
import importlib
import os
import pickle
import resource
import selectors
import signal
import sys
import time

from .driver import Checker
from .registry import PROPS
from .report import Report
from .terms import show


def decide_pair(C, p):
    """plain data about one obligation: (differences as (hard, where, code, meaning, text), functions, sample)"""
    diffs, info = C.run_pair(p)
    ds = [(d.hard, ".".join(map(str, d.where)), show(d.a, 5)[:200], show(d.b, 5)[:200], repr(d)[:1200])
          for d in [x for x in diffs if x.hard][:4] or diffs[:1]]
    sample = None
    if not diffs and info.get("a") is not None:
        sample = f"{show(info['a'].value, 3)[:160]} (case splits {info['splits']}, leaves {info['leaves']}, functions {len(info['functions'])})"
    return ds, info["functions"], sample


def isolated(jobs, workers=None, limit=900):
    """run each job in a forked process, so that an obligation that exhausts a limit costs no other one its answer"""
    workers = workers or max(1, min(8, os.cpu_count() or 1))
    out = [None] * len(jobs)
    todo = list(range(len(jobs)))[::-1]
    live = {}
    sel = selectors.DefaultSelector()
    sys.stdout.flush()
    while todo or live:
        while todo and len(live) < workers:
            i = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
                    data = pickle.dumps(jobs[i]())
                except BaseException as e:   # noqa
                    data = pickle.dumps(e if isinstance(e, SyntaxError) else RuntimeError(repr(e)[:300]))
                with os.fdopen(w, "wb") as fh:
                    fh.write(data)
                os._exit(0)
            os.close(w)
            live[r] = (pid, i, [], time.time() + limit)
            sel.register(r, selectors.EVENT_READ)
        for key, _ in sel.select(timeout=1):
            fd = key.fd
            chunk = os.read(fd, 1 << 16)
            pid, i, buf, _t = live[fd]
            if chunk:
                buf.append(chunk)
                continue
            sel.unregister(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            try:
                out[i] = pickle.loads(b"".join(buf))
            except Exception as e:
                out[i] = RuntimeError("the analysis process ended: " + repr(e)[:100])
        for fd, (pid, i, buf, end) in list(live.items()):
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
    return out


def spec_report(C, rep, sp, thorough=False, only=None):
    mod = "spec_" + sp
    ps = [p for p in C.pairs(mod) if only is None or p.name in only]
    for p in ps:
        if thorough:
            p.opts = dict(p.opts, unroll=True, max_splits=4 * p.opts.get("max_splits", 3000))
    ready = [p for p in ps if not missing_names(C, p)]
    done = dict(zip(ready, isolated([lambda p=p: decide_pair(C, p) for p in ready])))
    for p in ps:
        name = f"{sp}.{p.name}"
        if p not in done:
            rep.unknown("value-graph", name, f"names not found in the repository: {missing_names(C, p)}")
            continue
        r = done[p]
        if isinstance(r, BaseException):
            rep.unknown("value-graph", name, str(r))
            continue
        ds, fns, sample = r
        hard = [d for d in ds if d[0]]
        if hard:
            d = hard[0]
            rep.bad("value-graph", name, f"{d[1]}: code gives {d[2]}, stated meaning gives {d[3]}",
                    functions=fns, detail={"differences": [x[4] for x in hard], "analysed": fns})
        elif ds:
            rep.unknown("value-graph", name, ds[0][4][:300], fns)
        else:
            rep.ok("value-graph", name, fns, sample)


def missing_names(C, p):
    m = p.impl.module
    out = []
    for n, e in m.bind.items():
        if isinstance(e, tuple) and e[0] == "from" and e[1].startswith("andromede"):
            if ".antlr." not in e[1] and C.P.resolve(e[1], e[2]) is None:
                out.append(f"{e[1]}.{e[2]}")
    if not out:
        return None
    import ast
    used = {x.id for f in (p.impl, p.ref) for x in ast.walk(f.node) if isinstance(x, ast.Name)}
    return [o for o in out if o.split(".")[-1] in used] or None


def decide(prop, repo="/repo", thorough=False, overlay=None, specs=True, rules=True):
    cfg = PROPS[prop]
    rep = Report()
    sp = cfg.get("specs", [])
    also = [(a.partition(":")[0], a.partition(":")[2].split(",")) for a in cfg.get("also", [])]
    C = Checker(repo, sp + sorted({a for a, _ in also} - set(sp)), overlay=overlay)
    if specs:
        for s in sp:
            spec_report(C, rep, s, thorough)
        for s, only in also:
            spec_report(C, rep, s, thorough, only)
    if rules:
        for r in cfg.get("rules", []):
            name, _, scope = r.partition(":")
            m = importlib.import_module("vstatic.rules." + name)
            if scope:
                m.run(C.P, rep, repo, thorough, scope=tuple("andromede." + x for x in scope.split(",")))
            else:
                m.run(C.P, rep, repo, thorough)
    return rep
