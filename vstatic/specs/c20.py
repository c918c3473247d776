from typing import Any, Dict, List, Optional, Set
import math
from anytree import LevelOrderIter
from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig, CouplingInfo
from andromede.simulation.time_block import TimeBlock
from andromede.study.network import Component, Network, create_component
from andromede.expression.expression import ExpressionNode, literal, var
from andromede.expression.indexing_structure import IndexingStructure
from andromede.model.common import ProblemContext
from andromede.model.model import model
from andromede.model.constraint import Constraint
from andromede.model.variable import Variable, float_variable

OPTIONS = {"*": {"algebra": False, "denote": False}, "leaves": {"cut_nested": ["andromede.simulation.decision_tree.DecisionTreeNode.is_leaves_prob_sum_one"]},
           "coupling_child": {"cut": ["andromede.simulation.decision_tree.DecisionTreeNode.coupling_info"]},
           "add_coupling": {"cut": ["andromede.simulation.decision_tree.DecisionTreeNode.coupling_info", "andromede.simulation.decision_tree.DecisionTreeNode.coupling_network", "andromede.study.network.Network.add_component", "andromede.model.model.model"], "no_inline": ["andromede.study.network.Network.add_component"]}}


def impl_prob_root(i: str, c: InterDecisionTimeScenarioConfig, n: Network, p: float):
    t = DecisionTreeNode(i, c, n, prob=p)
    return (t.id, t.config, t.network, t.prob)


def ref_prob_root(i: str, c: InterDecisionTimeScenarioConfig, n: Network, p: float):
    if not (0 <= p <= 1):
        raise ValueError("")
    return (i, c, n, p)


def impl_prob_child(i: str, c: InterDecisionTimeScenarioConfig, n: Network, p: float, parent: DecisionTreeNode):
    t = DecisionTreeNode(i, c, n, parent=parent, prob=p)
    return (t.id, t.config, t.network, t.prob)


def ref_prob_child(i: str, c: InterDecisionTimeScenarioConfig, n: Network, p: float, parent: DecisionTreeNode):
    if not (0 <= p <= 1):
        raise ValueError("")
    return (i, c, n, p * parent.prob)


def impl_middle(i: str, c: InterDecisionTimeScenarioConfig, n: Network, p: float, parent: DecisionTreeNode, k: DecisionTreeNode):
    t = DecisionTreeNode(i, c, n, parent=parent, children=[k], prob=p)
    return (t.id, t.config, t.network, t.prob, t.children, t.parent)


def ref_middle(i: str, c: InterDecisionTimeScenarioConfig, n: Network, p: float, parent: DecisionTreeNode, k: DecisionTreeNode):
    if not (0 <= p <= 1):
        raise ValueError("")
    return (i, c, n, p * parent.prob, [k], parent)


def impl_leaves(t: DecisionTreeNode):
    return t.is_leaves_prob_sum_one()


def ref_leaves(t: DecisionTreeNode):
    if not t.children:
        return True
    return math.isclose(t.prob, sum(c.prob for c in t.children)) and all(c.is_leaves_prob_sum_one() for c in t.children)


def impl_traverse(t: DecisionTreeNode, d: int):
    return (list(t.traverse()), list(t.traverse(None)), list(t.traverse(d)))


def ref_traverse(t: DecisionTreeNode, d: int):
    # every node of the subtree once, level by level, down to the given depth
    return (list(LevelOrderIter(t, maxlevel=None)), list(LevelOrderIter(t, maxlevel=None)), list(LevelOrderIter(t, maxlevel=d)))


def impl_coupling_child(t: DecisionTreeNode, p: DecisionTreeNode, cp: Component, vp: str, cc: Component, vc: str, vi: str):
    t.define_coupling_constraint(cp, vp, cc, vc, vi)
    return (t.coupling_info.variables, t.coupling_info.constraints)


def ref_coupling_child(t: DecisionTreeNode, p: DecisionTreeNode, cp: Component, vp: str, cc: Component, vc: str, vi: str):
    if t.parent and cp not in t.parent.network.all_components:
        raise RuntimeError("")
    if cc not in t.network.all_components:
        raise RuntimeError("")
    if vp not in cp.model.variables:
        raise ValueError("")
    if vc not in cc.model.variables:
        raise ValueError("")
    if vi not in cc.model.variables:
        raise ValueError("")
    info = t.coupling_info
    total = t.id + "_" + cc.id + "_" + vc
    added = t.id + "_" + cc.id + "_" + vi
    info.variables.add(total)
    info.variables.add(added)
    name = "_" + t.id + "_" + cc.id + "_" + str(len(info.constraints))
    before = literal(0)
    if t.parent:
        previous = t.parent.id + "_" + cp.id + "_" + vp
        info.variables.add(previous)
        name = t.parent.id + "_" + cp.id + name
        before = var(previous)
    info.constraints[name] = (var(total) - var(added)) == before
    return (info.variables, info.constraints)


def impl_add_coupling(t: DecisionTreeNode):
    t._add_coupling_constraints()


def ref_add_coupling(t: DecisionTreeNode):
    free = IndexingStructure(False, False)
    t.coupling_network.add_component(create_component(model(
        id="",
        variables=[float_variable(v, lower_bound=literal(0), structure=free, context=ProblemContext.INVESTMENT) for v in t.coupling_info.variables],
        constraints=[Constraint(name=k, expression=e, context=ProblemContext.INVESTMENT) for k, e in t.coupling_info.constraints.items()]), id="coupling"))


def impl_distinct(i: str, j: str, c: InterDecisionTimeScenarioConfig, n: Network, x: str, m: Component):
    a = DecisionTreeNode(i, c, n)
    b = DecisionTreeNode(j, c, n)
    a.coupling_info.variables.add(x)
    a.coupling_network.add_component(m)
    return (a.coupling_info.variables, b.coupling_info.variables, list(a.coupling_network.all_components), list(b.coupling_network.all_components))


def ref_distinct(i: str, j: str, c: InterDecisionTimeScenarioConfig, n: Network, x: str, m: Component):
    return ({x}, set(), [m], [])


def impl_inherited(i: str, j: str, c: InterDecisionTimeScenarioConfig, n: Network, x: str, m: Component):
    a = DecisionTreeNode(i, c, n)
    b = DecisionTreeNode(j, c, n, parent=a)
    b.coupling_info.variables.add(x)
    b.coupling_network.add_component(m)
    return (a.coupling_info.variables, list(a.coupling_network.all_components), b.coupling_info.variables, list(b.coupling_network.all_components))


def ref_inherited(i: str, j: str, c: InterDecisionTimeScenarioConfig, n: Network, x: str, m: Component):
    return ({x}, [m], {x}, [m])


def impl_children(i: str, c: InterDecisionTimeScenarioConfig, n: Network, k: DecisionTreeNode, g: CouplingInfo, w: Network):
    t = DecisionTreeNode(i, c, n, children=[k], coupling_info=g, coupling_network=w)
    return (t.children, t.parent, t.coupling_info, t.coupling_network)


def ref_children(i: str, c: InterDecisionTimeScenarioConfig, n: Network, k: DecisionTreeNode, g: CouplingInfo, w: Network):
    return ([k], None, g, w)
