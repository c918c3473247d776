"""objects built separately share no state"""
from typing import Any, Dict, List, Optional
import ortools.linear_solver.pywraplp as lp
from andromede.expression.evaluate import EvaluationContext
from andromede.model.constraint import Constraint
from andromede.model.model import Model, model
from andromede.model.parameter import Parameter
from andromede.model.port import PortFieldDefinition, PortFieldId
from andromede.model.variable import Variable
from andromede.simulation.decision_tree import CouplingInfo
from andromede.simulation.linear_expression import LinearExpression, Term, TermKey
from andromede.simulation.optimization import BlockBorderManagement, OptimizationContext
from andromede.simulation.output_values import OutputValues
from andromede.simulation.strategy import ModelSelectionStrategy, RiskManagementStrategy
from andromede.simulation.time_block import TimeBlock
from andromede.study.data import AbstractDataStructure, DataBase, TimeScenarioIndex
from andromede.study.network import Component, Network, Node, PortRef

POST = ["andromede.model.constraint.Constraint.__post_init__", "andromede.model.variable.Variable.__post_init__",
        "andromede.model.port.PortFieldDefinition.__post_init__", "andromede.model.model.Model.__post_init__",
        "andromede.study.network.PortsConnection.__post_init__"]
OPTIONS = {"*": {"algebra": False, "denote": False, "cut": POST}}


def impl_databases(c: str, p: str, d: AbstractDataStructure):
    a = DataBase()
    b = DataBase()
    a.add_data(c, p, d)
    return (len(a._data), len(b._data), a.get_data(c, p))


def ref_databases(c: str, p: str, d: AbstractDataStructure):
    return (1, 0, d)


def impl_data_replaced(db: DataBase, c: str, p: str, d: AbstractDataStructure, e: AbstractDataStructure, t: int, s: int):
    db.add_data(c, p, d)
    first = db.get_data(c, p).get_value(t, s)
    db.add_data(c, p, e)
    return (first, db.get_data(c, p).get_value(t, s))


def ref_data_replaced(db: DataBase, c: str, p: str, d: AbstractDataStructure, e: AbstractDataStructure, t: int, s: int):
    db.add_data(c, p, d)
    db.add_data(c, p, e)
    return (d.get_value(t, s), e.get_value(t, s))


def impl_networks(i: str, c: Component, n: Node, p: PortRef, q: PortRef):
    a = Network(i)
    b = Network(i)
    a.add_component(c)
    a.add_node(n)
    a.connect(p, q)
    return ([x.id for x in b.all_components], len(list(b.connections)), b.is_empty(), len(list(a.connections)))


def ref_networks(i: str, c: Component, n: Node, p: PortRef, q: PortRef):
    return ([], 0, True, 1)


def impl_network_grown(n: Network, c: Component, x: Node):
    before = [y for y in n.all_components]
    n.add_component(c)
    n.add_node(x)
    return (before, [y for y in n.nodes], [y for y in n.components], [y for y in n.all_components])


def ref_network_grown(n: Network, c: Component, x: Node):
    before = [y for y in n._nodes.values()] + [y for y in n._components.values()]
    n._components[c.id] = c
    n._nodes[x.id] = x
    return (before, [y for y in n._nodes.values()], [y for y in n._components.values()],
            [y for y in n._nodes.values()] + [y for y in n._components.values()])


def impl_contexts(n: Network, db: DataBase, b: TimeBlock, s: int, m: BlockBorderManagement, t: int, c: str, name: str, v: lp.Variable):
    x = OptimizationContext(n, db, b, s, m)
    y = OptimizationContext(n, db, b, s, m)
    x.register_component_variable(t, s, c, name, v)
    return (len(x._component_variables), len(x._solver_variables), len(y._component_variables), len(y._solver_variables), len(y._connection_fields_expressions))


def ref_contexts(n: Network, db: DataBase, b: TimeBlock, s: int, m: BlockBorderManagement, t: int, c: str, name: str, v: lp.Variable):
    v.name()
    return (1, 1, 0, 0, 0)


def impl_outputs(c: str, n: str, t: Optional[int], s: Optional[int], x: float):
    a = OutputValues()
    b = OutputValues()
    a.component(c).var(n)._set(t, s, x)
    return (len(a._components), len(b._components), dict(b.component(c)._variables), b.component(c).var(n)._value)


def ref_outputs(c: str, n: str, t: Optional[int], s: Optional[int], x: float):
    return (1, 0, {}, {})


def impl_output_variables(c: str, n: str, o: str, t: Optional[int], s: Optional[int], x: float):
    if n == o:
        return None
    a = OutputValues()
    a.component(c).var(n)._set(t, s, x)
    return (a.component(c).var(o)._value, a.component(c).var(o)._size, len(a.component(c).var(n)._value))


def ref_output_variables(c: str, n: str, o: str, t: Optional[int], s: Optional[int], x: float):
    if n == o:
        return None
    return ({}, (0, 0), 1)


def impl_models(i: str, j: str, c: Constraint, p: Parameter, v: Variable, d: PortFieldDefinition):
    a = model(id=i)
    b = model(id=j)
    a.constraints[c.name] = c
    a.binding_constraints[c.name] = c
    a.parameters[p.name] = p
    a.variables[v.name] = v
    a.port_fields_definitions[d.port_field] = d
    return (b.constraints, b.binding_constraints, b.parameters, b.variables, b.ports, b.port_fields_definitions)


def ref_models(i: str, j: str, c: Constraint, p: Parameter, v: Variable, d: PortFieldDefinition):
    return ({}, {}, {}, {}, {}, {})


def impl_bare_models(i: str, j: str, c: Constraint, p: Parameter, v: Variable, d: PortFieldDefinition):
    a = Model(id=i)
    b = Model(id=j)
    a.constraints[c.name] = c
    a.binding_constraints[c.name] = c
    a.parameters[p.name] = p
    a.variables[v.name] = v
    a.port_fields_definitions[d.port_field] = d
    return (b.constraints, b.binding_constraints, b.parameters, b.variables, b.ports, b.port_fields_definitions)


def ref_bare_models(i: str, j: str, c: Constraint, p: Parameter, v: Variable, d: PortFieldDefinition):
    return ({}, {}, {}, {}, {}, {})


def impl_evaluations(n: str, x: float):
    a = EvaluationContext()
    b = EvaluationContext()
    a.variables[n] = x
    a.parameters[n] = x
    return (b.variables, b.parameters)


def ref_evaluations(n: str, x: float):
    return ({}, {})


def impl_couplings(n: str, e: Any):
    a = CouplingInfo()
    b = CouplingInfo()
    a.variables.add(n)
    a.constraints[n] = e
    return (b.variables, b.constraints)


def ref_couplings(n: str, e: Any):
    return (set(), {})


def impl_expressions(k: TermKey, t: Term):
    a = LinearExpression()
    b = LinearExpression()
    a.terms[k] = t
    a.constant = 7
    return (b.terms, b.constant)


def ref_expressions(k: TermKey, t: Term):
    return ({}, 0)
