"""The declared schema of the input files: for every record of a model library and of a system file, the keys it
accepts, which are required, the default of the others, the type of each value, and that unknown keys are refused.
The schema is read from the pydantic classes through their bases and Config and compared, record by record from the
two document roots, with the documented format."""
import ast

RULE = "input-schema"
ROOTS = [("library", "andromede.model.parsing", "InputLibrary"), ("system", "andromede.study.parsing", "InputSystem")]

REQ = object()
STR, BOOL, LIST = ("str", REQ), ("bool", False), "list"


def opt(t):
    return ("opt " + t, None)


def seq(rec):
    return (("list", rec), LIST)


PARAM = {"id": STR, "time_dependent": BOOL, "scenario_dependent": BOOL}
VAR = {"id": STR, "time_dependent": ("bool", True), "scenario_dependent": ("bool", True), "lower_bound": opt("str"), "upper_bound": opt("str"),
       "variable_type": ("str", "continuous"), "*": {"coerce": True}}
CONS = {"id": STR, "expression": STR, "lower_bound": opt("str"), "upper_bound": opt("str")}
LIBRARY = {
    "id": STR, "dependencies": (("list", "str"), LIST), "description": opt("str"),
    "port_types": seq({"id": STR, "fields": seq({"id": STR}), "description": opt("str")}),
    "models": seq({"id": STR, "parameters": seq(PARAM), "variables": seq(VAR), "ports": seq({"id": STR, "type": STR}),
                   "port_field_definitions": seq({"port": STR, "field": STR, "definition": STR}),
                   "binding_constraints": seq(CONS), "constraints": seq(CONS), "objective": opt("str"), "description": opt("str")}),
}
COMP = {"id": STR, "model": STR, "scenario_group": opt("str"),
        "parameters": (("opt", ("list", {"id": STR, "time_dependent": BOOL, "scenario_dependent": BOOL, "value": ("float|str", REQ), "scenario_group": opt("str")})), None)}
SYSTEM = {"id": opt("str"), "description": opt("str"), "model_libraries": opt("str"), "nodes": seq(COMP), "components": seq(COMP),
          "connections": seq({"component1": STR, "port1": STR, "component2": STR, "port2": STR})}
EXPECT = {"library": LIBRARY, "system": SYSTEM}
PYD = ("field_validator", "model_validator", "validator", "root_validator", "field_serializer", "computed_field", "model_serializer")


class Unread(Exception):
    pass


def ann(P, ci, a):
    """canonical type: "str" | ("list", t) | ("opt", t) | ("cls", ClassInfo) | ("union", frozenset)"""
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return ann(P, ci, ast.parse(a.value, mode="eval").body)
    if isinstance(a, ast.Constant) and a.value is None:
        return "None"
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        return union([ann(P, ci, a.left), ann(P, ci, a.right)])
    if isinstance(a, ast.Subscript):
        head = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, "id", "")
        args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        if head in ("List", "list"):
            return ("list", ann(P, ci, args[0]))
        if head == "Optional":
            return union([ann(P, ci, args[0]), "None"])
        if head == "Union":
            return union([ann(P, ci, x) for x in args])
        raise Unread(ast.unparse(a))
    if isinstance(a, (ast.Name, ast.Attribute)):
        r = P.resolve_dotted(ci.module, a)
        if r and r[0] == "class":
            return ("cls", P.classes[r[1]])
        n = getattr(a, "id", None)
        if n in ("str", "bool", "int", "float"):
            return n
        if r and r[0] == "var" and isinstance(r[3], ast.AST):
            return ann(P, ci, r[3])
    raise Unread(ast.unparse(a))


def union(ts):
    out = set()
    for t in ts:
        if isinstance(t, tuple) and t[0] == "union":
            out |= t[1]
        elif isinstance(t, tuple) and t[0] == "opt":
            out |= {"None", t[1]}
        else:
            out.add(t)
    none = "None" in out
    out.discard("None")
    t = next(iter(out)) if len(out) == 1 else ("union", frozenset(out))
    return ("opt", t) if none else t


def literal(e):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.List) and not e.elts:
        return LIST
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "list" and not e.args:
        return LIST
    raise Unread(ast.unparse(e))


def default(e):
    """-> (default, alias | None)"""
    if e is None:
        return REQ, None
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if n == "Field":
            kw = {k.arg: k.value for k in e.keywords}
            d = REQ
            if e.args:
                d = literal(e.args[0])
                d = REQ if d is Ellipsis else d
            if "default" in kw:
                d = literal(kw["default"])
            if "default_factory" in kw:
                f = kw["default_factory"]
                if isinstance(f, ast.Name) and f.id == "list":
                    d = LIST
                elif isinstance(f, ast.Lambda):
                    d = literal(f.body)
                else:
                    raise Unread(ast.unparse(e))
            extra = set(kw) - {"default", "default_factory", "description", "title", "alias"}
            if extra:
                raise Unread(ast.unparse(e))
            al = kw.get("alias")
            return d, (al.value if isinstance(al, ast.Constant) else None)
    return literal(e), None


def config(P, ci):
    """effective configuration through the bases"""
    out = {}
    for c in reversed(P.mro(ci)):
        for s in c.node.body:
            if isinstance(s, ast.ClassDef) and s.name == "Config":
                for b in s.bases:          # a base Config: its own settings first
                    if isinstance(b, ast.Attribute) and b.attr == "Config":
                        r = P.resolve_dotted(c.module, b.value)
                        if not r or r[0] != "class":
                            raise Unread("Config of " + ast.unparse(b))
                        out.update(config(P, P.classes[r[1]]))
                    else:
                        raise Unread("Config of " + ast.unparse(b))
                for t in s.body:
                    if isinstance(t, ast.Assign) and isinstance(t.targets[0], ast.Name):
                        out[t.targets[0].id] = (t.value, c)
                    elif isinstance(t, ast.AnnAssign) and isinstance(t.target, ast.Name) and t.value is not None:
                        out[t.target.id] = (t.value, c)
                    elif not (isinstance(t, ast.Pass) or isinstance(t, ast.Expr) and isinstance(t.value, ast.Constant)):
                        raise Unread("statement in Config")
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, ast.Name) and t.id == "model_config":
                    v = s.value
                    if isinstance(v, ast.Call):
                        for k in v.keywords:
                            if k.arg is None:
                                raise Unread("model_config")
                            out[k.arg] = (k.value, c)
                    elif isinstance(v, ast.Dict) and all(isinstance(k, ast.Constant) for k in v.keys):
                        for k, x in zip(v.keys, v.values):
                            out[k.value] = (x, c)
                    else:
                        raise Unread("model_config")
    return out


def kebab(P, v, c):
    """does the alias generator map '_' to '-'? True / False, Unread when not understood"""
    if isinstance(v, ast.Lambda):
        arg, body = v.args.args[0].arg, v.body
    else:
        r = P.resolve_dotted(c.module, v)
        if not r or r[0] != "func":
            raise Unread("alias generator " + ast.unparse(v))
        fn = P.funcs[r[1]].node
        ss = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
        env = {}
        while len(ss) > 1 and isinstance(ss[0], ast.Assign) and len(ss[0].targets) == 1 and isinstance(ss[0].targets[0], ast.Name):
            env[ss[0].targets[0].id] = ss[0].value
            ss = ss[1:]
        if len(ss) != 1 or not isinstance(ss[0], ast.Return):
            raise Unread("alias generator " + r[1])
        arg, body = fn.args.args[0].arg, ss[0].value
        if isinstance(body, ast.Name) and body.id in env:
            body = env[body.id]
    if isinstance(body, ast.Name) and body.id == arg:
        return False
    if isinstance(body, ast.Call) and isinstance(body.func, ast.Attribute):
        o, a = body.func.value, body.args
        if body.func.attr == "replace" and isinstance(o, ast.Name) and o.id == arg and all(isinstance(x, ast.Constant) for x in a):
            return [x.value for x in a] == ["_", "-"] and not body.keywords
        if body.func.attr == "join" and isinstance(o, ast.Constant) and len(a) == 1 and ast.unparse(a[0]) == f"{arg}.split('_')":
            return o.value == "-"
    raise Unread("alias generator " + ast.unparse(body))


def record(P, ci):
    """field -> (type, default, alias)"""
    out = {}
    for c in reversed(P.mro(ci)):
        for s in c.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id != "model_config":
                if s.target.id.startswith("_") or "ClassVar" in ast.unparse(s.annotation):
                    continue
                d, al = default(s.value)
                out[s.target.id] = (ann(P, c, s.annotation), d, al)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in s.decorator_list:
                    f = d.func if isinstance(d, ast.Call) else d
                    n = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                    if n in PYD:
                        raise Unread(f"{c.qual}.{s.name} is a {n}")
                if s.name in ("__init__", "model_validate", "model_post_init", "__new__"):
                    raise Unread(f"{c.qual}.{s.name}")
    return out


def want_type(w):
    if isinstance(w, str) and w.startswith("opt "):
        return ("opt", w[4:])
    if w == "float|str":
        return ("union", frozenset({"float", "str"}))
    return w


def show(t):
    if isinstance(t, tuple):
        if t[0] == "cls":
            return t[1].qual.split(".")[-1]
        if t[0] == "union":
            return " | ".join(sorted(map(show, t[1])))
        return f"{t[0]}[{show(t[1])}]"
    if isinstance(t, dict):
        return "record"
    return str(t)


class Checker:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.records = 0

    def bad(self, where, msg, ci):
        self.rep.bad(RULE, where, msg, ci.module.relpath if hasattr(ci.module, "relpath") else "", ci.node.lineno, [ci.qual])

    def check(self, where, ci, want):
        P, rep = self.P, self.rep
        self.records += 1
        try:
            cfg = config(P, ci)
            flags(P, cfg)
        except Unread as e:
            rep.unknown(RULE, where + ": settings", e, [ci.qual])
            cfg = None
        if cfg is not None:
            extra, alias, byname, coerce = flags(P, cfg)
            w = want.get("*", {}).get("coerce", False)
            if extra != "forbid":
                self.bad(where + ": unknown keys", f"keys that are not part of a {where} are accepted silently (extra = {extra!r})", ci)
            if alias is not True:
                self.bad(where + ": key names", "the dashed key names of the documented format are not accepted", ci)
            if bool(coerce) != w:
                self.bad(where + ": numbers as text", f"numbers given where text is expected are {'accepted' if coerce else 'rejected'}; they must be {'accepted' if w else 'rejected'}", ci)
            if byname is not True:
                self.bad(where + ": field names", "records cannot be built from their own field names", ci)
            if extra == "forbid" and alias is True and bool(coerce) == w:
                rep.ok(RULE, where + ": settings", [ci.qual], f"{ci.qual}: unknown keys forbidden, dashed names")
        try:
            got = record(P, ci)
        except Unread as e:
            rep.unknown(RULE, where, e, [ci.qual])
            return
        for k, (t, d) in want.items() if "*" not in want else [(k, v) for k, v in want.items() if k != "*"]:
            kk = where + "." + k.replace("_", "-")
            if k not in got:
                self.bad(kk, f"the key {k.replace('_', '-')!r} of the documented {where} is not accepted", ci)
                continue
            gt, gd, al = got[k]
            if al is not None and al != k.replace("_", "-"):
                self.bad(kk, f"the key {k.replace('_', '-')!r} is read under the name {al!r}", ci)
                continue
            if d is REQ and gd is not REQ:
                self.bad(kk, f"the mandatory key {k!r} of a {where} may be left out (default {gd!r})", ci)
                continue
            if d is not REQ and gd is REQ:
                self.bad(kk, f"the optional key {k!r} of a {where} is mandatory", ci)
                continue
            if d is not REQ and (gd != d or type(gd) is not type(d)):
                self.bad(kk, f"the key {k!r} of a {where} defaults to {gd!r} instead of {d!r}", ci)
                continue
            if self.type(kk, gt, want_type(t), ci):
                rep.ok(RULE, kk, [ci.qual], f"{kk}: {show(gt)}")
        for k in got:
            if k not in want:
                self.bad(where + "." + k, f"{where} accepts the key {k!r}, which is not part of the documented format", ci)

    def type(self, kk, g, w, ci):
        if isinstance(w, dict):
            if isinstance(g, tuple) and g[0] == "cls":
                self.check(kk, g[1], w)
                return True
        elif isinstance(w, tuple) and w[0] in ("list", "opt"):
            if isinstance(g, tuple) and g[0] == w[0]:
                return self.type(kk, g[1], want_type(w[1]), ci)
        elif g == w:
            return True
        self.bad(kk, f"values of {kk} are read as {show(g)} instead of {show(w)}", ci)
        return False


def flags(P, cfg):
    def const(k, d):
        if k not in cfg:
            return d
        v = cfg[k][0]
        if not isinstance(v, ast.Constant):
            raise Unread(k + " = " + ast.unparse(v))
        return v.value
    other = set(cfg) - {"extra", "alias_generator", "populate_by_name", "coerce_numbers_to_str", "validate_by_name", "validate_by_alias", "frozen", "arbitrary_types_allowed"}
    if other:
        raise Unread("settings " + ", ".join(sorted(other)))
    if const("validate_by_alias", True) is not True:
        return const("extra", "ignore"), False, True, const("coerce_numbers_to_str", False)
    alias = kebab(P, *cfg["alias_generator"]) if "alias_generator" in cfg else False
    return const("extra", "ignore"), alias, const("populate_by_name", False) or const("validate_by_name", False), const("coerce_numbers_to_str", False)


def run(P, rep, repo, thorough):
    c = Checker(P, rep)
    for name, mod, cls in ROOTS:
        r = P.resolve(mod, cls)
        if not r or r[0] != "class":
            rep.unknown(RULE, name, f"{mod}.{cls} not found")
            continue
        c.check(name, P.classes[r[1]], EXPECT[name])
