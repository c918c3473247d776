from typing import Any, Dict, List, Optional, Set
from andromede.expression.expression import ExpressionNode
from andromede.expression.indexing_structure import IndexingStructure
from andromede.model.common import ProblemContext, ValueType
from andromede.model.constraint import Constraint
from andromede.model.model import Model, ModelPort
from andromede.model.parameter import Parameter
from andromede.model.port import PortField, PortFieldDefinition, PortFieldId, PortType
from andromede.model.variable import Variable
from andromede.study.network import Component, Network, Node, PortRef, PortsConnection, create_component, create_node

POST = ["andromede.model.constraint.Constraint.__post_init__", "andromede.model.variable.Variable.__post_init__",
        "andromede.model.port.PortFieldDefinition.__post_init__", "andromede.model.model.Model.__post_init__",
        "andromede.study.network.PortsConnection.__post_init__"]
OPTIONS = {"*": {"algebra": False, "denote": False, "cut": POST}, "replica_rewired": {"ignore_heap": True, "cut": POST}}


def impl_network(n: Network):
    r = n.replicate()
    return (r.id, {x.id: (x.id, x.model) for x in r.nodes}, {x.id: (x.id, x.model) for x in r.components}, [(c.port1, c.port2) for c in r.connections], r is n)


def ref_network(n: Network):
    return (n.id, {x.id: (x.id, x.model) for x in {y.id: y for y in n.nodes}.values()}, {x.id: (x.id, x.model) for x in {y.id: y for y in n.components}.values()}, [(c.port1, c.port2) for c in n.connections], False)


def impl_network_renamed(n: Network, k: str):
    r = n.replicate(id=k)
    return (r.id, {x.id: (x.id, x.model) for x in r.nodes}, {x.id: (x.id, x.model) for x in r.components}, [(c.port1, c.port2) for c in r.connections], n.id)


def ref_network_renamed(n: Network, k: str):
    return (k, {x.id: (x.id, x.model) for x in {y.id: y for y in n.nodes}.values()}, {x.id: (x.id, x.model) for x in {y.id: y for y in n.components}.values()}, [(c.port1, c.port2) for c in n.connections], n.id)


def impl_network_apart(n: Network, c: Component, d: Node):
    r = n.replicate()
    r.add_component(c)
    r.add_node(d)
    return (n._components, n._nodes, n._connections)


def ref_network_apart(n: Network, c: Component, d: Node):
    return (n._components, n._nodes, n._connections)


def impl_component(m: Model, i: str, j: str):
    c = create_component(m, i)
    r = c.replicate(id=j)
    return (c.id, c.model, r.id, r.model)


def ref_component(m: Model, i: str, j: str):
    return (i, m, j, m)


def impl_component_model(m: Model, i: str, o: Model):
    r = Component(m, i).replicate(model=o)
    return (r.id, r.model)


def ref_component_model(m: Model, i: str, o: Model):
    return (i, o)


def impl_node(m: Model, i: str):
    n = create_node(m, i)
    return (n.id, n.model, isinstance(n, Node))


def ref_node(m: Model, i: str):
    return (i, m, True)


def impl_model(m: Model, i: str):
    r = m.replicate(id=i)
    return (r.id, r.constraints, r.binding_constraints, r.inter_block_dyn, r.parameters, r.variables, r.objective_operational_contribution,
            r.objective_investment_contribution, r.ports, r.port_fields_definitions)


def ref_model(m: Model, i: str):
    return (i, m.constraints, m.binding_constraints, m.inter_block_dyn, m.parameters, m.variables, m.objective_operational_contribution,
            m.objective_investment_contribution, m.ports, m.port_fields_definitions)


def impl_model_variables(m: Model, vs: Dict[str, Variable], cs: Dict[str, Constraint]):
    r = m.replicate(variables=vs, constraints=cs)
    return (r.id, r.constraints, r.binding_constraints, r.parameters, r.variables, r.ports)


def ref_model_variables(m: Model, vs: Dict[str, Variable], cs: Dict[str, Constraint]):
    return (m.id, cs, m.binding_constraints, m.parameters, vs, m.ports)


def impl_variable(v: Variable, n: str, c: ProblemContext):
    r = v.replicate(name=n, context=c)
    return (r.name, r.data_type, r.lower_bound, r.upper_bound, r.structure, r.context, v.name)


def ref_variable(v: Variable, n: str, c: ProblemContext):
    return (n, v.data_type, v.lower_bound, v.upper_bound, v.structure, c, v.name)


def impl_constraint(x: Constraint, n: str, c: ProblemContext):
    r = x.replicate(name=n, context=c)
    return (r.name, r.expression, r.lower_bound, r.upper_bound, r.context, x.name)


def ref_constraint(x: Constraint, n: str, c: ProblemContext):
    return (n, x.expression, x.lower_bound, x.upper_bound, c, x.name)


def impl_parameter(p: Parameter, n: str):
    r = p.replicate(name=n)
    return (r.name, r.type, r.structure, p.name)


def ref_parameter(p: Parameter, n: str):
    return (n, p.type, p.structure, p.name)


def impl_model_port(p: ModelPort, n: str):
    r = p.replicate(port_name=n)
    return (r.port_name, r.port_type)


def ref_model_port(p: ModelPort, n: str):
    return (n, p.port_type)


def impl_port_field(f: PortFieldId, n: str):
    r = f.replicate(port_name=n)
    s = f.replicate(field_name=n)
    return (r.port_name, r.field_name, s.port_name, s.field_name)


def ref_port_field(f: PortFieldId, n: str):
    return (n, f.field_name, f.port_name, n)


def impl_port_definition(f: PortFieldDefinition, e: ExpressionNode):
    r = f.replicate(definition=e)
    return (r.port_field, r.definition)


def ref_port_definition(f: PortFieldDefinition, e: ExpressionNode):
    return (f.port_field, e)


def impl_connection(c: PortsConnection, p: PortRef):
    r = c.replicate(port2=p)
    return (r.port1, r.port2, c.port2)


def ref_connection(c: PortsConnection, p: PortRef):
    return (c.port1, p, c.port2)


def impl_get_node(n: Network, k: str):
    return n.get_node(k)


def ref_get_node(n: Network, k: str):
    return n._nodes[k]


def impl_get_connection(n: Network, i: int):
    return n.get_connection(i)


def ref_get_connection(n: Network, i: int):
    return n._connections[i]


def impl_empty(n: Network):
    return n.is_empty()


def ref_empty(n: Network):
    return len(n._nodes) == 0 and len(n._components) == 0 and len(n._connections) == 0


def impl_port_type(c: PortsConnection):
    return c.get_port_type()


def ref_port_type(c: PortsConnection):
    p = c.port1.component.model.ports.get(c.port1.port_id)
    if p is None:
        raise ValueError("")
    return p.port_type


def impl_node_exists(n: Network, k: str):
    n._check_node_exists(k)
    return True


def ref_node_exists(n: Network, k: str):
    if k not in n._nodes:
        raise ValueError("")
    return True


def impl_fresh(i: str, j: str, c: Component):
    a = Network(i)
    b = Network(j)
    a.add_component(c)
    return (a.id, len(list(a.components)), len(list(b.components)), len(list(b.nodes)), len(list(b.connections)), b.is_empty(), a.is_empty())


def ref_fresh(i: str, j: str, c: Component):
    return (i, 1, 0, 0, 0, True, False)


def impl_variable_in_model(m: Model, i: str, v: str):
    return Component(m, i).is_variable_in_model(v)


def ref_variable_in_model(m: Model, i: str, v: str):
    return v in m.variables


def impl_missing_component(n: Network, c: Optional[Component]):
    n.add_component(c)
    return len(n._components)


def ref_missing_component(n: Network, c: Optional[Component]):
    if c is None:
        raise ValueError("")
    n._components[c.id] = c
    return len(n._components)


def impl_listing(i: str, c: Component, d: Component, x: Node, p: PortRef, q: PortRef):
    n = Network(i)
    n.add_node(x)
    n.add_component(c)
    n.connect(p, q)
    if c.id == x.id:
        return None
    return ([y.id for y in n.all_components], [y.id for y in n.nodes], [y.id for y in n.components],
            [(z.port1, z.port2) for z in n.connections], n.get_node(x.id), n.get_component(c.id), n.get_component(x.id))


def ref_listing(i: str, c: Component, d: Component, x: Node, p: PortRef, q: PortRef):
    if c.id == x.id:
        return None
    return ([x.id, c.id], [x.id], [c.id], [(p, q)], x, c, x)


def impl_all_listed(n: Network):
    return ([x for x in n.nodes], [x for x in n.components], [x for x in n.connections], [x for x in n.all_components])


def ref_all_listed(n: Network):
    """nodes first, then components, each in the order of insertion"""
    return ([x for x in n._nodes.values()], [x for x in n._components.values()], [x for x in n._connections],
            [x for x in n._nodes.values()] + [x for x in n._components.values()])


def impl_replica_connected(n: Network, p: PortRef, q: PortRef):
    r = n.replicate()
    r.connect(p, q)
    return [(c.port1, c.port2) for c in n.connections]


def ref_replica_connected(n: Network, p: PortRef, q: PortRef):
    return [(c.port1, c.port2) for c in n.connections]


def impl_replica_rewired(n: Network, p: PortRef):
    r = n.replicate()
    for c in r.connections:
        c.port1 = p
    return [(c.port1, c.port2) for c in n.connections]


def ref_replica_rewired(n: Network, p: PortRef):
    return [(c.port1, c.port2) for c in n.connections]
