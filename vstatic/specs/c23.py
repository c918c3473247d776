from typing import Any, Dict, List, Optional, Set
from andromede.expression.expression import ExpressionNode, literal
from andromede.expression.indexing_structure import IndexingStructure
from andromede.expression.parsing.parse_expression import ModelIdentifiers, parse_expression
from andromede.model.common import ProblemContext, ValueType
from andromede.model.constraint import Constraint
from andromede.model.library import Library, library
from andromede.model.model import Model, ModelPort, model
from andromede.model.parameter import Parameter
from andromede.model.parsing import (InputConstraint, InputField, InputLibrary, InputModel, InputModelPort, InputParameter, InputPortFieldDefinition,
    InputPortType, InputVariable)
from andromede.model.port import PortField, PortFieldDefinition, PortFieldId, PortType, port_field_def
from andromede.model.variable import Variable
from andromede.model.resolve_library import (resolve_library, _convert_port_type, _resolve_field_definition, _resolve_lib, _resolve_model, _resolve_model_port,
    _to_constraint, _to_expression_if_present, _to_parameter, _to_variable)

R = "andromede.model.resolve_library."
PE = "andromede.expression.parsing.parse_expression.parse_expression"
POST = ["andromede.model.constraint.Constraint.__post_init__", "andromede.model.variable.Variable.__post_init__", "andromede.model.port.PortFieldDefinition.__post_init__"]
LIBS = {"cut": [R + "_resolve_model", R + "_convert_port_type"]}
OPTIONS = {"libraries": LIBS, "two_dependencies": LIBS, "dependencies_done": LIBS, "skipped": LIBS, "deep": LIBS, "independent": LIBS, "shared": LIBS, "preloaded": LIBS, "cycle": LIBS, "replaced": LIBS, "two_preloaded": LIBS, "cycle_of_two": LIBS, "self_import": LIBS, "*": {"algebra": False, "denote": False, "cut": [PE] + POST},
           "variable": {"raises": "ignore"},
           "model": {"cut": [PE, R + "_to_parameter", R + "_to_variable", R + "_resolve_model_port", R + "_resolve_field_definition", R + "_to_constraint", "andromede.model.model.model"]},
           "lib": {"cut": [R + "_resolve_model", R + "_convert_port_type"], "xlists": ["models", "port_types"], "bounds": (1, 2)}}


def impl_parameter(p: InputParameter):
    return _to_parameter(p)


def ref_parameter(p: InputParameter):
    return Parameter(p.id, ValueType.CONTINUOUS, IndexingStructure(p.time_dependent, p.scenario_dependent))


def impl_variable(v: InputVariable, ids: ModelIdentifiers):
    r = _to_variable(v, ids)
    return (r.name, r.data_type, r.structure.time, r.structure.scenario, r.lower_bound, r.upper_bound, r.context)


def ref_variable(v: InputVariable, ids: ModelIdentifiers):
    if v.variable_type == "continuous":
        t = ValueType.CONTINUOUS
    elif v.variable_type == "integer":
        t = ValueType.INTEGER
    elif v.variable_type == "binary" or v.variable_type == "boolean":
        t = ValueType.BOOLEAN
    else:
        raise KeyError("")
    return (v.id, t, v.time_dependent, v.scenario_dependent, _to_expression_if_present(v.lower_bound, ids), _to_expression_if_present(v.upper_bound, ids),
            ProblemContext.OPERATIONAL)


def impl_optional(e: Optional[str], ids: ModelIdentifiers):
    return _to_expression_if_present(e, ids)


def ref_optional(e: Optional[str], ids: ModelIdentifiers):
    return parse_expression(e, ids) if e else None


def impl_constraint(c: InputConstraint, ids: ModelIdentifiers):
    r = _to_constraint(c, ids)
    return (r.name, r.expression, r.lower_bound, r.upper_bound, r.context)


def ref_constraint(c: InputConstraint, ids: ModelIdentifiers):
    lo = literal(-float("inf"))
    hi = literal(float("inf"))
    if c.lower_bound:
        lo = parse_expression(c.lower_bound, ids)
    if c.upper_bound:
        hi = parse_expression(c.upper_bound, ids)
    r = Constraint(c.id, parse_expression(c.expression, ids), lo, hi, ProblemContext.OPERATIONAL)
    return (r.name, r.expression, r.lower_bound, r.upper_bound, r.context)


def impl_port(p: InputModelPort, ts: Dict[str, PortType]):
    return _resolve_model_port(p, ts)


def ref_port(p: InputModelPort, ts: Dict[str, PortType]):
    return ModelPort(ts[p.type], p.id)


def impl_definition(d: InputPortFieldDefinition, ids: ModelIdentifiers):
    r = _resolve_field_definition(d, ids)
    return (r.port_field, r.definition)


def ref_definition(d: InputPortFieldDefinition, ids: ModelIdentifiers):
    return (PortFieldId(d.port, d.field), parse_expression(d.definition, ids))


def impl_port_type(t: InputPortType):
    return _convert_port_type(t)


def ref_port_type(t: InputPortType):
    return PortType(t.id, [PortField(f.id) for f in t.fields])


def impl_model(m: InputModel, ts: Dict[str, PortType]):
    return _resolve_model(m, ts)


def ref_model(m: InputModel, ts: Dict[str, PortType]):
    ids = ModelIdentifiers(variables={v.id for v in m.variables}, parameters={p.id for p in m.parameters})
    return model(id=m.id,
                 parameters=[_to_parameter(p) for p in m.parameters],
                 variables=[_to_variable(v, ids) for v in m.variables],
                 ports=[_resolve_model_port(p, ts) for p in m.ports],
                 port_fields_definitions=[_resolve_field_definition(d, ids) for d in m.port_field_definitions],
                 binding_constraints=[_to_constraint(c, ids) for c in m.binding_constraints],
                 constraints=[_to_constraint(c, ids) for c in m.constraints],
                 objective_operational_contribution=_to_expression_if_present(m.objective, ids))


def impl_lib(l: Library, i: InputLibrary, out: Dict[str, Library]):
    _resolve_lib(l, i, out)
    return (l.port_types, l.models, out)


def ref_lib(l: Library, i: InputLibrary, out: Dict[str, Library]):
    types = {}
    for p in i.port_types:
        t = _convert_port_type(p)
        types[t.id] = t
    for k in types:
        if k in l.port_types:
            raise Exception("")
    ids = [m.id for m in i.models]
    for x in ids:
        if ids.count(x) > 1:
            raise Exception("")
    l.port_types.update(types)
    for m in [_resolve_model(m, l.port_types) for m in i.models]:
        l.models[m.id] = m
    out[l.id] = l
    return (l.port_types, l.models, out)


def impl_library(i: str, ts: List[PortType], ms: List[Model]):
    return library(i, ts, ms)


def ref_library(i: str, ts: List[PortType], ms: List[Model]):
    return Library(i, {t.id: t for t in ts}, {m.id: m for m in ms})


def lib(i: str, deps: List[str], types: List[InputPortType], models: List[InputModel]) -> InputLibrary:
    return InputLibrary(id=i, dependencies=deps, port_types=types, models=models)


def impl_libraries(ta: InputPortType, tb: InputPortType, tc: InputPortType, ma: InputModel, mb: InputModel, mc: InputModel):
    r = resolve_library([lib("a", ["b"], [ta], [ma]), lib("b", ["c"], [tb], [mb]), lib("c", [], [tc], [mc])])
    return ([r["a"].models, r["b"].models, r["c"].models], r["a"].port_types, r["b"].port_types, r["c"].port_types, len(r), r["a"].id)


def ref_libraries(ta: InputPortType, tb: InputPortType, tc: InputPortType, ma: InputModel, mb: InputModel, mc: InputModel):
    a, b, c = _convert_port_type(ta), _convert_port_type(tb), _convert_port_type(tc)
    pc = {c.id: c}
    if b.id == c.id:
        raise Exception("")
    pb = {c.id: c, b.id: b}
    if a.id == c.id or a.id == b.id:
        raise Exception("")
    pa = {c.id: c, b.id: b, a.id: a}
    xa, xb, xc = _resolve_model(ma, pa), _resolve_model(mb, pb), _resolve_model(mc, pc)
    return ([{xa.id: xa}, {xb.id: xb}, {xc.id: xc}], pa, pb, pc, 3, "a")


def impl_independent(ta: InputPortType, tb: InputPortType, ma: InputModel, mb: InputModel, p: Library):
    r = resolve_library([lib("a", [], [ta], [ma]), lib("b", [], [tb], [mb])])
    return (r["a"].models, r["b"].models, r["a"].port_types, r["b"].port_types, len(r))


def ref_independent(ta: InputPortType, tb: InputPortType, ma: InputModel, mb: InputModel, p: Library):
    a, b = _convert_port_type(ta), _convert_port_type(tb)
    xa, xb = _resolve_model(ma, {a.id: a}), _resolve_model(mb, {b.id: b})
    return ({xa.id: xa}, {xb.id: xb}, {a.id: a}, {b.id: b}, 2)


def impl_shared(ta: InputPortType, ma: InputModel, mb: InputModel, mc: InputModel):
    r = resolve_library([lib("b", ["c", "a"], [], [mb]), lib("a", ["c"], [], [ma]), lib("c", [], [ta], [mc])])
    return (r["a"].models, r["b"].models, r["c"].models, len(r))


def ref_shared(ta: InputPortType, ma: InputModel, mb: InputModel, mc: InputModel):
    a = _convert_port_type(ta)
    t = {a.id: a}
    xa, xb, xc = _resolve_model(ma, t), _resolve_model(mb, t), _resolve_model(mc, t)
    return ({xa.id: xa}, {xb.id: xb}, {xc.id: xc}, 3)


def impl_preloaded(ta: InputPortType, ma: InputModel, tp: PortType, mp: Model):
    r = resolve_library([lib("a", [], [ta], [ma])], [Library("p", {tp.id: tp}, {mp.id: mp})])
    return (r["a"].models, r["a"].port_types, r["p"].models, r["p"].port_types, len(r))


def ref_preloaded(ta: InputPortType, ma: InputModel, tp: PortType, mp: Model):
    a = _convert_port_type(ta)
    if a.id == tp.id:
        raise Exception("")
    t = {tp.id: tp, a.id: a}
    x = _resolve_model(ma, t)
    return ({x.id: x}, t, {mp.id: mp}, {tp.id: tp}, 2)


def impl_replaced(ta: InputPortType, ma: InputModel, tp: PortType, mp: Model):
    p = Library("a", {tp.id: tp}, {mp.id: mp})
    r = resolve_library([lib("a", [], [ta], [ma])], [p])
    return (r["a"].models, r["a"].port_types, p.models, p.port_types, len(r))


def ref_replaced(ta: InputPortType, ma: InputModel, tp: PortType, mp: Model):
    a = _convert_port_type(ta)
    if a.id == tp.id:
        raise Exception("")
    t = {tp.id: tp, a.id: a}
    x = _resolve_model(ma, t)
    return ({x.id: x}, t, {mp.id: mp}, {tp.id: tp}, 1)


def impl_two_preloaded(ta: InputPortType, ma: InputModel, tp: PortType, tq: PortType):
    p = Library("p", {tp.id: tp}, {})
    q = Library("q", {tq.id: tq}, {})
    r = resolve_library([lib("a", [], [ta], [ma]), lib("b", [], [], [])], [p, q])
    return (r["a"].models, r["a"].port_types, r["b"].port_types, p.port_types, q.port_types, len(r))


def ref_two_preloaded(ta: InputPortType, ma: InputModel, tp: PortType, tq: PortType):
    a = _convert_port_type(ta)
    if a.id == tp.id or a.id == tq.id:
        raise Exception("")
    t = {tp.id: tp, tq.id: tq, a.id: a}
    x = _resolve_model(ma, t)
    return ({x.id: x}, t, {tp.id: tp, tq.id: tq}, {tp.id: tp}, {tq.id: tq}, 4)


def impl_cycle_of_two(ta: InputPortType, ma: InputModel):
    return len(resolve_library([lib("a", ["b"], [ta], [ma]), lib("b", ["a"], [], [])]))


def ref_cycle_of_two(ta: InputPortType, ma: InputModel):
    raise Exception("")


def impl_self_import(ta: InputPortType, ma: InputModel):
    return len(resolve_library([lib("a", ["a"], [ta], [ma])]))


def ref_self_import(ta: InputPortType, ma: InputModel):
    raise Exception("")


def impl_cycle(ta: InputPortType, ma: InputModel):
    return len(resolve_library([lib("a", ["b"], [ta], [ma]), lib("b", ["c"], [], []), lib("c", ["a"], [], [])]))


def ref_cycle(ta: InputPortType, ma: InputModel):
    raise Exception("")


def impl_skipped(ta: InputPortType, tb: InputPortType, tc: InputPortType, ma: InputModel, mb: InputModel, mc: InputModel):
    r = resolve_library([lib("x", [], [ta], [ma]), lib("c", [], [tc], [mc]), lib("b", ["c"], [tb], [mb])])
    return ([r["x"].models, r["c"].models, r["b"].models], r["x"].port_types, r["c"].port_types, r["b"].port_types, len(r))


def ref_skipped(ta: InputPortType, tb: InputPortType, tc: InputPortType, ma: InputModel, mb: InputModel, mc: InputModel):
    a, b, c = _convert_port_type(ta), _convert_port_type(tb), _convert_port_type(tc)
    px = {a.id: a}
    pc = {c.id: c}
    if b.id == c.id:
        raise Exception("")
    pb = {c.id: c, b.id: b}
    xa, xc, xb = _resolve_model(ma, px), _resolve_model(mc, pc), _resolve_model(mb, pb)
    return ([{xa.id: xa}, {xc.id: xc}, {xb.id: xb}], px, pc, pb, 3)


def impl_deep(tc: InputPortType, ma: InputModel, mb: InputModel, mc: InputModel):
    r = resolve_library([lib("c", [], [tc], [mc]), lib("b", ["c"], [], [mb]), lib("a", ["b"], [], [ma])])
    return ([r["a"].models, r["b"].models, r["c"].models], r["a"].port_types, r["b"].port_types, r["c"].port_types, len(r))


def ref_deep(tc: InputPortType, ma: InputModel, mb: InputModel, mc: InputModel):
    c = _convert_port_type(tc)
    p = {c.id: c}
    xa, xb, xc = _resolve_model(ma, p), _resolve_model(mb, p), _resolve_model(mc, p)
    return ([{xa.id: xa}, {xb.id: xb}, {xc.id: xc}], p, p, p, 3)


def impl_two_dependencies(tb: InputPortType, tc: InputPortType, ma: InputModel):
    r = resolve_library([lib("b", [], [tb], []), lib("c", [], [tc], []), lib("a", ["b", "c"], [], [ma])])
    return (r["a"].models, r["a"].port_types, len(r))


def ref_two_dependencies(tb: InputPortType, tc: InputPortType, ma: InputModel):
    b = _convert_port_type(tb)
    c = _convert_port_type(tc)
    t = {b.id: b, c.id: c}
    m = _resolve_model(ma, t)
    return ({m.id: m}, t, 3)


def impl_dependencies_done(tb: InputPortType, tc: InputPortType, ma: InputModel):
    # resolved before the library that needs them
    r = resolve_library([lib("a", ["b", "c"], [], [ma]), lib("b", [], [tb], []), lib("c", [], [tc], [])])
    return (r["a"].models, r["a"].port_types, len(r))


def ref_dependencies_done(tb: InputPortType, tc: InputPortType, ma: InputModel):
    b = _convert_port_type(tb)
    c = _convert_port_type(tc)
    t = {b.id: b, c.id: c}
    m = _resolve_model(ma, t)
    return ({m.id: m}, t, 3)
