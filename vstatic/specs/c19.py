from typing import Any, Dict, List, Optional
from andromede.simulation.strategy import MergedProblemStrategy, InvestmentProblemStrategy, OperationalProblemStrategy
from andromede.model.common import ProblemContext
from andromede.model.model import Model

OPTIONS = {"*": {"algebra": False, "denote": False}}


def impl_merged_variables(m: Model):
    return list(MergedProblemStrategy().get_variables(m))


def ref_merged_variables(m: Model):
    return list(m.variables.values())


def impl_merged_constraints(m: Model):
    return list(MergedProblemStrategy().get_constraints(m))


def ref_merged_constraints(m: Model):
    return list(m.get_all_constraints())


def impl_investment_variables(m: Model):
    return list(InvestmentProblemStrategy().get_variables(m))


def ref_investment_variables(m: Model):
    return [v for v in m.variables.values() if v.context != ProblemContext.OPERATIONAL]


def impl_investment_constraints(m: Model):
    return list(InvestmentProblemStrategy().get_constraints(m))


def ref_investment_constraints(m: Model):
    return [v for v in m.get_all_constraints() if v.context != ProblemContext.OPERATIONAL]


def impl_operational_variables(m: Model):
    return list(OperationalProblemStrategy().get_variables(m))


def ref_operational_variables(m: Model):
    return [v for v in m.variables.values() if v.context != ProblemContext.INVESTMENT]


def impl_operational_constraints(m: Model):
    return list(OperationalProblemStrategy().get_constraints(m))


def ref_operational_constraints(m: Model):
    return [v for v in m.get_all_constraints() if v.context != ProblemContext.INVESTMENT]


def impl_all_constraints(m: Model):
    return list(m.get_all_constraints())


def ref_all_constraints(m: Model):
    return list(m.binding_constraints.values()) + list(m.constraints.values())


def impl_merged_objectives(m: Model):
    r = list(MergedProblemStrategy().get_objectives(m))
    return (set(r), len(r))


def ref_merged_objectives(m: Model):
    return ({m.objective_operational_contribution, m.objective_investment_contribution}, 2)


def impl_investment_objectives(m: Model):
    return list(InvestmentProblemStrategy().get_objectives(m))


def ref_investment_objectives(m: Model):
    return [m.objective_investment_contribution]


def impl_operational_objectives(m: Model):
    return list(OperationalProblemStrategy().get_objectives(m))


def ref_operational_objectives(m: Model):
    return [m.objective_operational_contribution]
