"""Every kind of expression node is immutable, builds a constraint when compared with ==, <= or >=, and is handled by
every concrete visitor: no kind of node falls through to an abstract method."""
import ast

RULE = "node-kinds"
NODE = "andromede.expression.expression.ExpressionNode"
VISITOR = "andromede.expression.visitor.ExpressionVisitor"
KINDS = ["literal", "negation", "addition", "multiplication", "division", "comparison", "variable", "parameter", "comp_parameter",
         "comp_variable", "pb_parameter", "pb_variable", "time_shift", "time_eval", "time_sum", "all_time_sum", "scenario_operator",
         "port_field", "port_field_aggregator"]


def provider(P, ci, name):
    """class whose definition of an operator applies: explicit method, or the one a dataclass generates"""
    for c in P.mro(ci):
        if name in c.methods:
            return c, "written"
        if name == "__eq__" and c.is_dataclass and c.dc_kw.get("eq", True):
            return c, "generated"
        if name in ("__le__", "__ge__", "__lt__", "__gt__") and c.is_dataclass and c.dc_kw.get("order"):
            return c, "generated"
        if name in c.assigns:
            return c, "written"
    return None, None


def run(P, rep, repo, thorough):
    base = P.classes.get(NODE)
    if base is None:
        rep.unknown(RULE, "nodes", NODE + " not found")
    else:
        nodes = [base] + [P.classes[q] for q in sorted(P.subclasses(NODE)) if q != NODE]
        for c in nodes:
            if not P.is_frozen(c):
                rep.bad(RULE, c.qual + ": immutable", f"instances of {c.name} can be modified after they are built", c.module.relpath, c.node.lineno, [c.qual])
            else:
                rep.ok(RULE, c.qual + ": immutable", [c.qual])
            for op, sym in (("__eq__", "=="), ("__le__", "<="), ("__ge__", ">=")):
                d, how = provider(P, c, op)
                if d is None or how == "generated":
                    rep.bad(RULE, f"{c.qual}: {sym}", f"{sym} on a {c.name} compares field by field instead of building a comparison", c.module.relpath, c.node.lineno, [c.qual])
                else:
                    rep.ok(RULE, f"{c.qual}: {sym}", [c.qual], f"{sym} on {c.name} is {d.name}.{op}")
    if VISITOR not in P.classes:
        rep.unknown(RULE, "visitors", VISITOR + " not found")
        return
    made = P.constructed()
    for q in sorted(P.subclasses(VISITOR)):
        c = P.classes[q]
        if q == VISITOR or q not in made:
            continue
        for k in KINDS:
            m = P.find_method(c, k)
            if m is None or m.is_abstract:
                rep.bad(RULE, f"{q}.{k}", f"{c.name} does not handle {k} nodes", c.module.relpath, c.node.lineno, [q])
            else:
                rep.ok(RULE, f"{q}.{k}", [m.qual])
