"""Analyse specification pairs: impl_X (drives the repository's public API) and
ref_X (the stated meaning); both are only ever parsed."""
import ast
import os
import signal
import sys
import threading
import time

from .frontend import Program, strip_none
from .terms import *  # noqa
from . import terms as tm
from . import memo
from . import compare as cmpmod
from .compare import Comparer, Diff, is_soft, feasible
from .denote import normalise, peel_sources, unroll_any
from .interp import Interp, State, Frame, Exit, EFF, EFFKEY, Summary

sys.setrecursionlimit(30000)

SPECDIR = os.path.join(os.path.dirname(__file__), "specs")


def analyse(I, fi, unroll=None):
    """value graph of a driver function with symbolic arguments"""
    a = fi.node.args
    env = {}
    st = State({}, {}, TRUE, TRUE)
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        t = I.P.type_of_ann(fi.module, p.annotation) if p.annotation is not None else None
        s = sym(p.arg, t)
        if t == ("prim", "bool"):
            s = atom(mk("truth", s))
        if unroll is not None and t and t[0] == "list":
            s = I.alloc_container(st, "list", [elem(sym(f"{p.arg}{i}", t[1])) for i in range(unroll)])
        env[p.arg] = s
    fr = Frame(None, fi.module)
    I.stack.append(fr)
    try:
        v = I.call_function(fi, env, st)
    finally:
        I.stack.pop()
    out = Summary()
    rc = FALSE
    for e in fr.exits:
        if e.kind == "raise":
            rc = bor(rc, e.cond)
            ef = e.st.heap.get(EFFKEY)
            out.raised.append((e.cond, I.resolve_content(e.st, ef, 0) if ef is not None else None))
        elif e.kind == "lookup":
            out.failing.append(e.cond)
    out.raises = rc
    out.value = I.resolve(st, v)
    out.live = st.live
    eff = st.heap.get(EFFKEY)
    out.effects = I.resolve_content(st, eff, 0) if eff is not None else None
    for (loc, f), val in st.heap.items():
        if loc.op in ("ref", "eff"):
            continue
        if f == "*" and I.is_memo(loc) or f in memo.sound(I.P)[1]:
            continue
        if loc.op == "each" or loc.op == "globvar":
            out.heap[(loc, f)] = I.resolve(st, val)
            continue
        d = I.default((loc, f))
        r = I.resolve_content(st, val, 0) if f == "*" else I.resolve(st, val)
        if r is d:
            continue
        out.heap[(loc, f)] = r
    return out


def segs_of(t, base):
    if t is None:
        return []
    segs = list(t.args[0]) if t.op == "seq" else [splice(t)]
    if segs and segs[0].op == "splice" and segs[0].args[0] is base:
        segs = segs[1:]
    return segs


PAIR_SECONDS = 90
CHECK_SECONDS = 600


class OutOfTime(BaseException):
    pass


class budget:
    """wall-clock bound of one obligation; past it the obligation is undetermined, never an alarm"""
    def __init__(self, C):
        now = time.time()
        if not hasattr(C, "started"):
            C.started = now
        self.s = max(5.0, min(PAIR_SECONDS, CHECK_SECONDS - (now - C.started)))
        self.on = threading.current_thread() is threading.main_thread()

    def __enter__(self):
        if self.on:
            self.old = signal.signal(signal.SIGALRM, self.stop)
            signal.setitimer(signal.ITIMER_REAL, self.s)

    def stop(self, *a):
        raise OutOfTime("time limit of the obligation")

    def __exit__(self, *a):
        if self.on:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)


class Pair:
    def __init__(self, name, impl, ref, opts):
        self.name = name
        self.impl = impl
        self.ref = ref
        self.opts = opts


class Checker:
    def __init__(self, repo="/repo", specs=(), src="src", overlay=None):
        extra = [("spec_" + s, os.path.join(SPECDIR, s + ".py")) for s in specs]
        self.P = Program(repo, extra=extra, src=src, overlay=overlay)
        self.specs = ["spec_" + s for s in specs]

    def pairs(self, mod):
        m = self.P.modules[mod]
        opts = {}
        b = m.bind.get("OPTIONS")
        if b and b[0] == "var":
            env = {}
            for n, e in m.bind.items():
                if n.isupper() and n != "OPTIONS" and isinstance(e, tuple) and e[0] == "var":
                    env[n] = eval(compile(ast.Expression(e[3]), mod, "eval"), {"__builtins__": {}}, env)
            opts = eval(compile(ast.Expression(b[3]), mod, "eval"), {"__builtins__": {}}, env)
        out = []
        for n, e in m.bind.items():
            if n.startswith("impl_") and isinstance(e, tuple) and e[0] == "func":
                k = n[5:]
                r = m.bind.get("ref_" + k)
                if r is None:
                    raise RuntimeError(f"spec {mod}: no ref_{k}")
                o = dict(opts.get("*", {}))
                o.update(opts.get(k, {}))
                out.append(Pair(k, self.P.funcs[e[1]], self.P.funcs[r[1]], o))
        return out

    def interp(self, o):
        I = Interp(self.P, cut=o.get("cut", ()), algebra=o.get("algebra", True), no_inline=o.get("no_inline", ()), cut_nested=o.get("cut_nested", ()))
        I.raising = set(o.get("raising", ()))
        I.drop_self = set(o.get("drop_self", ()))
        I.unfold = o.get("unfold", 1)
        I.xtypes = o.get("xtypes", {})
        cmpmod.KINDS_HOOK[0] = lambda x: kinds_of(I, x)
        cmpmod.ENUM_HOOK[0] = lambda x: enum_of(I, x)
        return I

    def callees(self, quals):
        """repository functions (not constructors) that the bodies of `quals` call by name"""
        out = set()
        for q in quals:
            f = self.P.funcs.get(q)
            if f is None:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    e = self.P.resolve(f.module.name, n.func.id)
                    if isinstance(e, tuple) and e[0] == "func":
                        out.add(e[1])
        return out

    def run_pair(self, p):
        """returns (diffs, info); a failure of the analysis itself is `undetermined`"""
        with budget(self):
            d, info = self._decide_pair(p)
            # other behaviours the property allows (which of several faults is reported, ...)
            for n, e in p.impl.module.bind.items():
                if n.startswith("alt_" + p.name) and isinstance(e, tuple) and e[0] == "func" and any(x.hard for x in d):
                    d2, i2 = self._decide_pair(Pair(p.name, p.impl, self.P.funcs[e[1]], p.opts))
                    if not any(x.hard for x in d2):
                        d, info = d2, i2
            return d, info

    def _decide_pair(self, p):
        try:
            d, info = self._run_pair(p)
            info["bounded"] = []
            lists = any((t := self.P.type_of_ann(p.impl.module, x.annotation)) and t[0] == "list"
                        for x in p.impl.node.args.args if x.annotation is not None)
            lists = lists or bool(p.opts.get("xlists"))
            if lists and (p.opts.get("unroll") or (d and not any(x.hard for x in d))) and not any(x.hard for x in d):
                for n in p.opts.get("bounds", (1, 2, 3)):
                    d2, i2 = self._run_pair(p, n)
                    info["bounded"].append((n, len(d2)))
                    d = d + [x for x in d2 if x.hard]
            return d, info
        except (Exception, RecursionError, OutOfTime) as e:   # never an alarm
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            at = tb[-1]
            d = Diff(False, mk("absent"), mk("absent"), ("analysis-failure", type(e).__name__, str(e)[:200],
                     f"{os.path.basename(at.filename)}:{at.lineno}"), {})
            return [d], {"splits": 0, "leaves": 0, "notes": ["analysis failure: " + repr(e)[:200]], "functions": [], "a": None, "b": None, "I": None, "error": e}

    @staticmethod
    def mentioned(diffs):
        """functions whose application occurs in a difference"""
        out, seen = set(), set()
        todo = []
        for d in diffs:
            todo += [d.a, d.b] + [k for k in d.asm if hasattr(k, "args")]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
                continue
            if not hasattr(x, "op") or x in seen:
                continue
            seen.add(x)
            if x.op == "call" and isinstance(x.args[0], str):
                out.add(x.args[0])
            todo.extend(x.args)
        return out

    def _run_pair(self, p, unroll=None):
        tm._steps[0] = 0
        I = self.interp(p.opts)
        if unroll and p.opts.get("xlists"):
            I.xlists = set(p.opts["xlists"])
            I.xunroll = min(unroll, 2)
        a = analyse(I, p.impl, unroll)
        na = list(I.notes)
        analysed = set(I.analysed)
        I.analysed = set()
        hits = I.cut_hits
        I.cut_hits = set()
        b = analyse(I, p.ref, unroll)
        C = Comparer(I, max_splits=p.opts.get("max_splits", 3000), denote=p.opts.get("denote", p.opts.get("algebra", True)))
        diffs = compare(C, a, b, p.opts)
        if any(x.hard for x in diffs):
            words = table_words(a) - table_words(b)
            if words:
                na.append("operations on tables whose meaning is not modelled (" + ", ".join(sorted(words)) + "): differences are undetermined")
                for x in diffs:
                    x.hard = False
        for q, at, m in sorted(I.stale):
            diffs.append(Diff(True, const(f"remembered result of {q}, which reads {at}"), const(f"the current state, as changed by {m}"), ("remembered",), {}))
        if I.unfolded:
            na.append("recursion not unfolded completely: differences are undetermined")
            for x in diffs:
                x.hard = False
        elif I.residual:
            # what the remaining recursion returns is not known: only a difference that does not turn on it stands
            na.append("recursion not unfolded completely: differences that turn on the rest are undetermined")
            for x in diffs:
                if x.hard and (has_op(x, "rcall") or has_op(x, "any")):
                    x.hard = False
        other = hits ^ I.cut_hits
        depth = p.opts.get("recut", 0)
        if other and any(x.hard for x in diffs) and depth < 4:
            # a function taken as given is used on one side only: decide with its body instead, what it calls taken as given
            o = dict(p.opts)
            o["recut"] = depth + 1
            for k in ("cut", "no_inline", "cut_nested"):
                if k in o:
                    o[k] = [x for x in o[k] if x not in other]
            if o != dict(p.opts, recut=depth + 1):
                if depth < 3:
                    o["cut"] = list(o.get("cut", ())) + sorted(self.callees(other) - other - set(o.get("no_inline", ())) - set(o.get("cut_nested", ())) - set(p.opts.get("uncut", ())))
                o["uncut"] = sorted(set(p.opts.get("uncut", ())) | other)
                full = tm.MAX_TERMS
                tm.MAX_TERMS = min(full, tm._counter[0] + 250_000)
                try:
                    d2, i2 = self._run_pair(Pair(p.name, p.impl, p.ref, o), unroll)
                except Limit:
                    d2 = diffs if depth else []     # too large with the bodies: the shallower answer stands
                finally:
                    tm.MAX_TERMS = full
                if not any(x.hard for x in d2):
                    na.append("differs only with " + ", ".join(sorted(other)) + " taken as given")
                    for x in diffs:
                        x.hard = False
        elif any(x.hard for x in diffs) and depth < 2:
            # the same functions taken as given on both sides: what they guarantee may be what the difference turns on
            given = set(p.opts.get("cut", ())) & hits & self.mentioned(x for x in diffs if x.hard)
            if given:
                o = dict(p.opts)
                o["recut"] = depth + 1
                o["cut"] = [x for x in o["cut"] if x not in given] + sorted(self.callees(given) - given - set(p.opts.get("uncut", ())))
                o["uncut"] = sorted(set(p.opts.get("uncut", ())) | given)
                full = tm.MAX_TERMS
                tm.MAX_TERMS = min(full, tm._counter[0] + 250_000)
                try:
                    d2, i2 = self._run_pair(Pair(p.name, p.impl, p.ref, o), unroll)
                    if not d2:
                        na.append("decided with the bodies of " + ", ".join(sorted(given)))
                        diffs = []
                except Limit:
                    pass
                finally:
                    tm.MAX_TERMS = full
        return diffs, {"splits": C.splits, "leaves": C.leaves, "notes": na, "functions": sorted(x for x in analysed if x.startswith("andromede")), "a": a, "b": b, "I": I}


# operations on whole tables that restate what a loop over the rows would do
WHOLE = {"replace", "apply", "map", "applymap", "where", "mask", "iterrows", "itertuples", "assign", "query", "isin", "to_dict", "to_records",
         "set_index", "add_suffix", "rename", "merge", "combine_first", "update", "pipe", "transform", "stack", "melt", "get_loc", "squeeze", "flatten", "ravel"}


def table_words(out):
    """whole-table operations (on values of no known class) in an outcome"""
    words, seen = set(), set()
    todo = [out.value, out.raises] + list(out.heap.values()) + [x for k in out.heap for x in k]
    if out.effects is not None:
        todo.append(out.effects)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif hasattr(x, "op") and x not in seen:
            seen.add(x)
            if x.op == "xcall" and x.args[0] in WHOLE:
                words.add(x.args[0])
            if x.op == "splice" and x.args[0].op == "call" and x.args[0].args[0].startswith("np."):
                words.add("store into an array")
            todo.extend(x.args)
    return words


def has_op(d, op):
    seen, todo = set(), [d.a, d.b] + [k for k in d.asm if hasattr(k, "args")]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif hasattr(x, "op") and x not in seen:
            if x.op == op:
                return True
            seen.add(x)
            todo.extend(x.args)
    return False


def kinds_of(I, x):
    tt = I.type_of(x)
    if tt is None:
        return None
    parts = tt[1] if tt[0] == "u" else (tt,)
    out = set()
    for p in parts:
        if p is None:
            return None
        if p == ("none",):
            out.add("NoneType")
        elif p[0] == "c":
            ci = I.class_info(p[1])
            if ci is None:
                return None
            subs = [p[1]] + I.P.subclasses(p[1])
            for q in subs:
                c = I.class_info(q)
                if c is None or any(m.is_abstract for m in all_methods(I, c)):
                    continue
                if I.P.subclasses(q) and q not in I.P.constructed():
                    continue
                out.add(q)
        elif p[0] == "prim":
            out.add(p[1])
        else:
            return None
    if "float" in out:
        return None
    return out


def all_methods(I, ci):
    seen = {}
    for c in I.P.mro(ci):
        for n, m in c.methods.items():
            seen.setdefault(n, m)
    return seen.values()


def enum_of(I, x):
    tt = I.type_of(x)
    if tt and tt[0] == "c":
        ci = I.class_info(tt[1])
        if ci is not None and I.P.is_enum(ci):
            return [mk("enumv", tt[1], n) for n in ci.assigns]
    return None


RAISED = mk("raised")


def effect_names(segs):
    out = []
    for s in segs:
        t = s.args[0] if s.op == "elem" else s
        out.append(elem(const(t.args[0])) if t.op == "call" and isinstance(t.args[0], str) else s)
    return out


def lookup_failure(s):
    r = FALSE
    for c in s.failing[:30]:
        r = bor(r, c)
    return r


def compare(C, a, b, opts):
    out = []
    alg = opts.get("denote", opts.get("algebra", True))
    for s in (a, b):
        s.value = normalise(s.value, alg)
        s.raises = normalise(s.raises, alg)
        if s.effects is not None:
            s.effects = normalise(s.effects, alg)
        s.heap = {k: normalise(v, alg) for k, v in s.heap.items()}
    slices = set()
    seen = set()
    for s in (a, b):
        peel_sources(s.value, slices, seen)
        peel_sources(s.raises, slices, seen)
    if slices:
        for s in (a, b):
            s.value = unroll_any(s.value, slices)
            s.raises = unroll_any(s.raises, slices)
    mode = opts.get("raises", "equal")      # equal | atleast | ignore
    if mode == "equal":
        d = C.diff(a.raises, b.raises, ("raises",))
        if any(x.hard for x in d) and (a.failing or b.failing):
            # a side that looks up an absent key fails as well
            fa, fb = lookup_failure(a), lookup_failure(b)
            d = C.diff(band(a.raises, bnot(band(fb, bnot(b.raises)))), band(b.raises, bnot(band(fa, bnot(a.raises)))), ("raises",))
        out += d
    elif mode == "atleast":
        # reference raises => implementation raises
        out += C.diff(band(b.raises, bnot(a.raises)), FALSE, ("raises",))
    if opts.get("raise_effects"):
        # what has been done by the time an exception leaves, in order
        def left(s):
            r = []
            for c, e in s.raised:
                x = normalise(e, alg) if e is not None else None
                r.append(mk_cond(c, tuple(segs_of(x, EFF))))
            return mk_seq([mk_cond(band(a.raises, b.raises), tuple(r))], "seq")
        out += C.diff(left(a), left(b), ("effects before the exception",))
    ok = bnot(bor(a.raises, b.raises)) if mode != "ignore" else bnot(b.raises)
    if ok is FALSE:
        return out

    def gate(t):
        return mk_ite(ok, t, RAISED)
    if not opts.get("ignore_value"):
        out += C.diff(gate(a.value), gate(b.value), ("result",))
    if not opts.get("ignore_effects"):
        sa = segs_of(a.effects, EFF)
        sb = segs_of(b.effects, EFF)
        if opts.get("effect_names"):
            sa, sb = effect_names(sa), effect_names(sb)
        if sa != sb:
            k = "seq" if opts.get("ordered_effects") else "set"
            out += C.diff(mk_seq([mk_cond(ok, tuple(sa))], k), mk_seq([mk_cond(ok, tuple(sb))], k), ("effects",))
    if not opts.get("ignore_heap"):
        for k in sorted(set(a.heap) | set(b.heap), key=lambda k: (k[0].id, str(k[1]))):
            if k[0].op == "glob" and opts.get("ignore_globals", True):
                continue
            da = a.heap.get(k) or C.I.default(k)
            db = b.heap.get(k) or C.I.default(k)
            if da is db:
                continue
            out += C.diff(gate(da), gate(db), ("heap", show(k[0], 3), k[1]))
    return out
