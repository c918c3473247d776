from typing import Any, Dict, List, Optional
from andromede.simulation.optimization import OptimizationProblem, OptimizationContext
from andromede.expression.port_resolver import PortFieldKey, PortFieldId, PortResolver, resolve_port
from andromede.expression.context_adder import add_component_context
from andromede.expression.expression import AdditionNode, LiteralNode, ExpressionNode, PortFieldNode, PortFieldAggregatorNode, sum_expressions
from andromede.expression.visitor import visit
from andromede.model.port import PortField, PortType
from andromede.model.model import ModelPort
from andromede.study.network import Component, Network, Node, PortRef, PortsConnection

OPTIONS = {
    "*": {"algebra": False, "denote": False},
    "network": {"ignore_heap": True},
    "two_fields": {"ignore_heap": True},
    "connect": {"ignore_heap": True},
    "register": {"ignore_heap": True},
    "register_all": {"ignore_value": True, "raises": "ignore",
                     "cut": ["andromede.simulation.optimization.OptimizationContext.register_connection_fields_expressions"],
                     "no_inline": ["andromede.simulation.optimization.OptimizationContext.register_connection_fields_expressions"]},
}


def impl_register_all(pb: OptimizationProblem):
    pb._register_connection_fields_definitions()


def ref_register_all(pb: OptimizationProblem):
    for cnx in pb.context.network.connections:
        for f, master in cnx.master_port.items():
            d = master.component.model.port_fields_definitions.get(PortFieldId(master.port_id, f.name))
            e = add_component_context(master.component.id, d.definition)
            pb.context.register_connection_fields_expressions(cnx.port1.component.id, cnx.port1.port_id, f.name, e)
            pb.context.register_connection_fields_expressions(cnx.port2.component.id, cnx.port2.port_id, f.name, e)


def impl_register(ctx: OptimizationContext, c: str, p: str, f: str, e: ExpressionNode, k: PortFieldKey):
    ctx.register_connection_fields_expressions(c, p, f, e)
    return list(ctx.connection_fields_expressions[PortFieldKey(c, PortFieldId(p, f))])


def ref_register(ctx: OptimizationContext, c: str, p: str, f: str, e: ExpressionNode, k: PortFieldKey):
    key = PortFieldKey(c, PortFieldId(p, f))
    return list(ctx._connection_fields_expressions.get(key, [])) + [e]


def impl_connection(p1: PortRef, p2: PortRef, k: PortField):
    r = PortsConnection(p1, p2)
    return (r.port1, r.port2, r.master_port.get(k))


def ref_connection(p1: PortRef, p2: PortRef, k: PortField):
    m1 = p1.component.model
    m2 = p2.component.model
    a = m1.ports.get(p1.port_id)
    b = m2.ports.get(p2.port_id)
    if a is None or b is None:
        raise ValueError("missing")
    if a.port_type != b.port_type:
        raise ValueError("incompatible")
    res = None
    for f in a.port_type.fields:
        d1 = PortFieldId(a.port_name, f.name) in m1.port_fields_definitions
        d2 = PortFieldId(b.port_name, f.name) in m2.port_fields_definitions
        if d1 == d2:
            raise ValueError("definitions")
    masters = {}
    for f in a.port_type.fields:
        masters[PortField(f.name)] = p1 if PortFieldId(a.port_name, f.name) in m1.port_fields_definitions else p2
    return (p1, p2, masters.get(k))


def impl_two_fields(c1: Component, c2: Component, f: str, g: str):
    t = PortType("t", [PortField(f), PortField(g)])
    c1.model.ports = {"a": ModelPort(t, "a")}
    c2.model.ports = {"b": ModelPort(t, "b")}
    r = PortsConnection(PortRef(c1, "a"), PortRef(c2, "b"))
    return (r.master_port[PortField(f)].port_id, r.master_port[PortField(g)].port_id)


def ref_two_fields(c1: Component, c2: Component, f: str, g: str):
    t = PortType("t", [PortField(f), PortField(g)])
    c1.model.ports = {"a": ModelPort(t, "a")}
    c2.model.ports = {"b": ModelPort(t, "b")}
    if (PortFieldId("a", f) in c1.model.port_fields_definitions) == (PortFieldId("b", f) in c2.model.port_fields_definitions):
        raise ValueError("definitions")
    if (PortFieldId("a", g) in c1.model.port_fields_definitions) == (PortFieldId("b", g) in c2.model.port_fields_definitions):
        raise ValueError("definitions")
    return ("a" if PortFieldId("a", f) in c1.model.port_fields_definitions else "b",
            "a" if PortFieldId("a", g) in c1.model.port_fields_definitions else "b")


def impl_network(n: Network, c: Component, d: Node, k: str):
    n.add_component(c)
    n.add_node(d)
    return (n._components.get(k), n._nodes.get(k), list(n._connections))


def ref_network(n: Network, c: Component, d: Node, k: str):
    if c is None:
        raise ValueError("none")
    return (c if k == c.id else n._components.get(k), d if k == d.id else n._nodes.get(k), list(n._connections))


def impl_get_component(n: Network, k: str):
    return n.get_component(k)


def ref_get_component(n: Network, k: str):
    if k in n._components:
        return n._components[k]
    return n._nodes[k]


def impl_iterate(n: Network):
    return (list(n.all_components), list(n.components), list(n.nodes), list(n.connections), n.is_empty())


def ref_iterate(n: Network):
    return (list(n._nodes.values()) + list(n._components.values()), list(n._components.values()), list(n._nodes.values()), list(n._connections),
            len(n._nodes) == 0 and len(n._components) == 0 and len(n._connections) == 0)


def impl_connect(n: Network, p1: PortRef, p2: PortRef):
    n.connect(p1, p2)
    return list(n._connections)


def ref_connect(n: Network, p1: PortRef, p2: PortRef):
    return list(n._connections) + [PortsConnection(p1, p2)]


def impl_port_field(c: str, m: Dict[PortFieldKey, List[ExpressionNode]], p: str, f: str):
    return resolve_port(PortFieldNode(p, f), c, m)


def ref_port_field(c: str, m: Dict[PortFieldKey, List[ExpressionNode]], p: str, f: str):
    es = m[PortFieldKey(c, PortFieldId(p, f))]
    if len(es) != 1:
        raise ValueError("not one")
    return es[0]


def impl_port_sum(c: str, m: Dict[PortFieldKey, List[ExpressionNode]], p: str, f: str, a: str):
    return resolve_port(PortFieldAggregatorNode(PortFieldNode(p, f), a), c, m)


def ref_port_sum(c: str, m: Dict[PortFieldKey, List[ExpressionNode]], p: str, f: str, a: str):
    if a != "PortSum":
        raise NotImplementedError("")
    return sum_expressions(m.get(PortFieldKey(c, PortFieldId(p, f)), []))


def impl_port_sum_two(c: str, p: str, f: str, x: ExpressionNode, y: ExpressionNode):
    return resolve_port(PortFieldAggregatorNode(PortFieldNode(p, f), "PortSum"), c, {PortFieldKey(c, PortFieldId(p, f)): [x, y]})


def ref_port_sum_two(c: str, p: str, f: str, x: ExpressionNode, y: ExpressionNode):
    return AdditionNode([x, y])


def impl_port_sum_none(c: str, p: str, f: str):
    return resolve_port(PortFieldAggregatorNode(PortFieldNode(p, f), "PortSum"), c, {})


def ref_port_sum_none(c: str, p: str, f: str):
    return LiteralNode(0)


def impl_port_sum_elsewhere(c: str, d: str, p: str, q: str, f: str, g: str, x: ExpressionNode):
    # only what is connected to this field of this port of this component
    return resolve_port(PortFieldAggregatorNode(PortFieldNode(p, f), "PortSum"), c, {PortFieldKey(d, PortFieldId(q, g)): [x]})


def ref_port_sum_elsewhere(c: str, d: str, p: str, q: str, f: str, g: str, x: ExpressionNode):
    if c == d and p == q and f == g:
        return x
    return LiteralNode(0)
