"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)"""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vstatic.registry import PROPS  # noqa

E = "src/andromede/expression/"
S = "src/andromede/simulation/"
M = "src/andromede/model/"
ST = "src/andromede/study/"

VG = ("static analysis: gated value graphs of the repository functions (interprocedural symbolic dataflow over the parsed source, "
      "loops as folds) compared with the value graph of the stated meaning, three-valued, no execution and no solver")
RULE = "static analysis: rules over the resolved syntax trees, call sites and declarative tables of the repository"


def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": a}


IC = "src/andromede/input_converter/src/"
PC = "src/andromede/pypsa_converter/"

PROPERTIES = [
    P("C01", "Every expression node kind is visited as what it is and never mutated",
      "Visiting a node calls the visitor's method for exactly that node kind, with that node, and returns its result; a node of a kind the dispatch does not know is rejected, never treated as another kind. Node classes are immutable values: two nodes of the same class with equal fields are structurally equal, "
      "a node's fields are the ones it was built with, and comparing expressions with == builds a comparison node. Every concrete visitor of the repository handles all node kinds.",
      ["inputs"], "every node kind times every visitor", "tests visit few kind/visitor pairs, and a wrongly dispatched pair only shows with that pair",
      [E + "visitor.py", E + "expression.py"], [("visit", E + "visitor.py"), ("node classes", E + "expression.py")]),
    P("C02", "Copying transformations preserve everything they do not replace",
      "Every transformation of an expression tree (plain copy, port resolution, adding component context, replacing scenario-dependent values) returns a tree "
      "whose nodes have the same kind, operands in the same order, names, values, time indices, operators and comparators as the source, except for the "
      "node kinds that transformation is documented to replace. In particular the sense of a comparison, the minuend and subtrahend, the dividend and "
      "divisor and the time or scenario operator are never altered.",
      ["inputs"], "every expression tree over all node kinds, every component context", "tests copy a handful of trees; trees are unbounded",
      [E + "copy.py", E + "context_adder.py", E + "scenario_operator.py", E + "port_resolver.py", E + "visitor.py"],
      [("CopyVisitor", E + "copy.py"), ("ContextAdder", E + "context_adder.py"), ("PortResolver", E + "port_resolver.py")]),
    P("C03", "Operator overloads build the tree that the algebra denotes",
      "Python operators and helper methods on expressions (+, -, *, /, unary -, comparisons, literal on the left or right, shift, eval, time_sum, expec, variance, "
      "sum_connections) build a tree whose value equals the written algebraic expression, with operands in the written order. Shortcuts taken for literals "
      "such as 0, 1 and -1 never change the value.",
      ["inputs"], "every pair of expressions or literals and every operator", "the simplification shortcuts have many special cases",
      [E + "expression.py"], [("operator overloads", E + "expression.py"), ("_apply_if_node", E + "expression.py")]),
    P("C04", "Expression equality is structural and discriminating",
      "expressions_equal returns true exactly when the two trees have the same shape, node kinds, names, operators, comparators, time arguments, scenario and "
      "literal values within the given tolerances, and false otherwise, whatever the nesting; it is symmetric in the arguments except for the documented tolerance.",
      ["inputs"], "every pair of expression trees and tolerances", "a test compares a few pairs",
      [E + "equality.py"], [("EqualityVisitor", E + "equality.py"), ("expressions_equal", E + "equality.py")]),
    P("C05", "Parsed text means what its grammar says, or is rejected",
      "parse_expression turns every text of the documented grammar into the tree that text denotes: numbers, variables, parameters, port fields, arithmetic with the usual precedence and left associativity, comparisons with their sense, time shifts, time evaluations and time sums "
      "with their operand and bounds, sums over all time steps, sums over connections and expectations. Every construct of the grammar, parenthesised or not, is built and never dropped; unknown identifiers, unknown functions and unknown characters are rejected with a parse error.",
      ["inputs"], "every text and set of identifiers", "the language is infinite; tests parse some thirty texts",
      [E + "parsing/parse_expression.py", E + "parsing/antlr/ExprParser.py", "grammar/Expr.g4"],
      [("ExpressionNodeBuilderVisitor", E + "parsing/parse_expression.py"), ("parse_expression", E + "parsing/parse_expression.py"), ("ExprParser", E + "parsing/antlr/ExprParser.py")]),
    P("C06", "Degree computation decides linearity soundly",
      "compute_degree returns the polynomial degree of an expression in the decision variables: parameters and literals count 0, variables 1, products add, sums take the "
      "maximum, comparisons and time/scenario operators are transparent, and is_linear/is_constant follow from it. Division by anything of non-zero "
      "degree and other non-polynomial forms are rejected rather than accepted as linear.",
      ["inputs"], "every expression tree", "tests cover a few trees",
      [E + "degree.py"], [("ExpressionDegreeVisitor", E + "degree.py")]),
    P("C07", "Time and scenario dependency is inferred exactly",
      "compute_indexation marks an expression time dependent (respectively scenario dependent) exactly when one of its leaves is and no enclosing operator removes that "
      "dependency: summing over all time steps and evaluating at fixed times remove time dependence, expectation and variance remove scenario "
      "dependence, everything else takes the union of its operands.",
      ["inputs"], "every expression tree and every assignment of indexing structures to its leaves", "the lattice of combinations is not sampled by tests",
      [E + "indexing.py", E + "indexing_structure.py"], [("TimeScenarioIndexingVisitor", E + "indexing.py"), ("IndexingStructure", E + "indexing_structure.py")]),
    P("C08", "Expansion of time and scenario operators preserves meaning",
      "expand_operators replaces every time shift, time evaluation, time sum, all-time sum and scenario expectation by explicit references: a shift by k turns each reference at "
      "offset t into t+k, a windowed sum over [a,b] has exactly b-a+1 terms at those shifts, an all-time sum has one term per time step of the block, an expectation is "
      "the mean over all scenarios. No other part of the expression changes.",
      ["inputs"], "every expression tree, every block length and every scenario count", "nesting and window bounds are unbounded",
      [E + "operators_expansion.py"], [("OperatorsExpansion", E + "operators_expansion.py"), ("expand_operators", E + "operators_expansion.py")]),
    P("C09", "Evaluation computes the value the expression denotes",
      "Evaluating an expression in a value provider yields exactly the arithmetic value of its tree: sums, products, quotients, negations and comparisons are the mathematical ones, parameters and "
      "variables take the provider's value for their name and component, and literals take their own value. Evaluation of "
      "constructs that have no value in that context is rejected rather than given a wrong value.",
      ["inputs"], "every expression tree and every valuation", "tests evaluate a few trees",
      [E + "evaluate.py", E + "evaluate_parameters.py"], [("EvaluationVisitor", E + "evaluate.py"), ("ParameterResolver", E + "evaluate_parameters.py")]),
    P("C10", "Linearization produces the same affine function as the expression",
      "linearize_expression returns a linear expression whose constant and coefficients are exactly those of the affine function the expression denotes in its "
      "variables at each time and scenario index, with parameters replaced by their values for the component, time and scenario where they are read. "
      "Expressions that are not affine are rejected.",
      ["inputs"], "every expression tree, every parameter data and every time and scenario index", "optimisation tests only observe objective values of a few studies",
      [S + "linearize.py"], [("LinearExpressionBuilder", S + "linearize.py")]),
    P("C11", "Linear expression arithmetic is exact and free of side effects",
      "Adding, subtracting, negating, scaling and dividing linear expressions yields for every term key the coefficient that the arithmetic gives (keys present on one side only included, zero "
      "coefficients dropped) and the corresponding constant. A product of two non-constant expressions and a division by a non-constant or zero are rejected, and "
      "non in-place operations leave their operands unmodified and unshared.",
      ["inputs", "histories"], "every pair of linear expressions and every term key", "tests pick particular keys and coefficients",
      [S + "linear_expression.py"], [("LinearExpression", S + "linear_expression.py"), ("remove_zeros_from_terms", S + "linear_expression.py")]),
    P("C31", "Model definitions are normalised exactly and invalid ones refused",
      "A constraint written as a comparison becomes left minus right bounded by zero on the side the comparator says; a constraint with bounds keeps them; comparisons with extra bounds, variable bounds, and infinite bounds of the wrong sign are refused. Variables keep name, type, bounds, "
      "structure and context, with constant bounds only. A model's objective contributions are accepted only if linear and real-valued (no remaining time or scenario dependency); port names are unique; every port field definition designates an existing port field and contains only what may be evaluated inside "
      "the model (no comparison, other port field or component reference). model() keeps every parameter, variable, port, definition, constraint and objective it is given.",
      ["inputs"], "every model definition", "tests check a handful of definitions",
      [M + "constraint.py", M + "variable.py", M + "parameter.py", M + "model.py", M + "port.py"],
      [("Constraint.__post_init__", M + "constraint.py"), ("Model.__post_init__ / model", M + "model.py"), ("_PortFieldExpressionChecker", M + "port.py")]),
    P("C32", "Printing an expression shows its structure",
      "The textual form of an expression contains each operand in order with the operator that combines it, parentheses around every compound operand, and the parameters of time and scenario operators, so that two expressions that differ in "
      "an operator or in operand order never print alike. A linear expression prints every term with its sign, coefficient, component, variable and indices, then its constant, or 0 when there is nothing.",
      ["inputs"], "every expression tree", "tests print a few trees",
      [E + "print.py", S + "linear_expression.py"], [("PrinterVisitor", E + "print.py"), ("Term and LinearExpression string forms", S + "linear_expression.py")]),
    P("C12", "Each decision variable has one solver variable per index, with its own bounds",
      "For every component and every variable its model declares in the part of the problem being built, the solver holds one variable for each time step of the block if the variable is time dependent (one otherwise) and for each scenario if it is scenario dependent (one otherwise). "
      "Its lower and upper bounds are the values of the bound expressions at that same time and scenario (infinite when absent), its solver type is that of the declaration (integer, binary, continuous), "
      "a lower bound above the upper bound is rejected, and every reference to the variable in the problem designates exactly that solver variable.",
      ["inputs"], "every model, block length, scenario count and bound data", "tests check objective values of a few studies",
      [S + "optimization.py", S + "linear_expression.py"], [("_create_variables / _solver_variable", S + "optimization.py")]),
    P("C13", "Each constraint has one solver row per index with both bounds and all its terms",
      "For every component and model constraint of the selected part of the problem, one solver row exists per time step and scenario on which the constraint or one of its bounds depends; the row's "
      "lower and upper bounds are the bound values at that index minus the constant of the linearised expression, an absent side is infinite, and each variable coefficient is the sum of the coefficients of that variable in the linearised expression.",
      ["inputs"], "every constraint, index structure, block length and scenario count", "tests check objective values",
      [S + "optimization.py"], [("_create_constraint", S + "optimization.py"), ("_instantiate_model_expression", S + "optimization.py")]),
    P("C14", "The solver objective is the sum of all selected model objectives",
      "The objective of the built problem is, with nothing missing or counted twice, the sum over all components and nodes of the operational and/or investment objective that the build strategy selects, weighted as the risk strategy says (uniform: unchanged; expected value: times the given probability); every variable's cost coefficient accumulates all its "
      "contributions, constants go in the offset, and the problem is always a minimisation.",
      ["inputs"], "every network and build strategy", "tests check one objective value per study",
      [S + "optimization.py", S + "strategy.py"], [("_create_objective", S + "optimization.py"), ("_create_objectives", S + "optimization.py")]),
    P("C15", "Port connections carry each field from its one definition to every user",
      "Connecting two ports makes every field of the port type defined on one side available on the other: a sum over connections has one term per connection of that port whose master is the other side's definition in the component context of that definition, a reference to a port field designates its single connected definition, and connections "
      "between ports of different types, to unknown ports or components, with fields defined twice or not at all are rejected. The network never loses or duplicates components, nodes or connections.",
      ["inputs", "histories"], "every network topology and port type", "tests connect a few ports",
      [ST + "network.py", M + "port.py", S + "optimization.py", E + "port_resolver.py"], [("PortRef / PortsConnection / Network", ST + "network.py"), ("_register_connection_fields_definitions", S + "optimization.py")]),
    P("C16", "Parameters are read at the right component, time step and scenario",
      "The value of a parameter in any expression is the data registered for that component and parameter, read at the absolute time step of the block (block first step + offset, wrapped around the block in cyclic border mode and never otherwise) and at the scenario (mapped through the scenario group when there is one). Data indexed by time only, scenario only, both or none ignore exactly "
      "the indices they do not depend on; missing data, missing indices and out-of-range accesses are rejected.",
      ["inputs"], "every data structure, block, time step, scenario and shift", "tests read few indices",
      [ST + "data.py", S + "optimization.py"], [("AbstractDataStructure", ST + "data.py"), ("OptimizationContext", S + "optimization.py")]),
    P("C17", "Data inconsistent with the declared parameter structure is rejected",
      "Checking the requirements of a database against a network accepts it exactly when every parameter of every component and node has data whose time and scenario dependency does not exceed what the model declares for that parameter; otherwise it raises.",
      ["inputs"], "every network and database", "tests build few bad databases",
      [ST + "data.py"], [("DataBase.requirements_consistency", ST + "data.py"), ("check_requirement", ST + "data.py")]),
    P("C18", "Scenario groups map each year to the configured column, per parameter",
      "The data base built from an input system holds, for each parameter of each component and node, a structure with the declared value or the named series, with time and scenario dependency as declared. The scenario group that applies to a parameter is the one given at the parameter, otherwise the component's; a scenario read through a group uses the column that the scenario builder file "
      "assigns to that group and year, and no parameter is affected by another's group.",
      ["inputs"], "every input system, scenario builder and series file", "tests load few systems",
      [ST + "resolve_components.py", ST + "data.py"], [("build_data_base / build_scenarized_data_base", ST + "resolve_components.py"), ("Scenarization", ST + "data.py")]),
    P("C19", "Each build strategy selects exactly its share of the model",
      "The merged strategy keeps all variables and constraints and both objectives; the investment strategy keeps variables and constraints whose context is investment or coupling and the investment objective only; the operational strategy keeps operational and coupling ones and the operational objective only. Coupling variables thus appear in both, and no variable, constraint or objective of a model is "
      "lost by the split or counted in both objectives.",
      ["inputs"], "every model, every problem context", "tests use one or two models",
      [S + "strategy.py"], [("ModelSelectionStrategy", S + "strategy.py"), ("RiskManagementStrategy", S + "strategy.py")]),
    P("C20", "A decision tree carries its probabilities and couplings consistently",
      "A node's probability is its own (rejected outside [0, 1]) times its parent's; the leaf probability check holds exactly when the leaves of the tree sum to one within tolerance. Coupling an investment of a "
      "node to the same component of its parent creates, in that node's coupling network, exactly the variables and the balance constraint relating parent, child and node-added amounts, keeps every coupling "
      "constraint added, starts from zero at the root, is refused for components or variables that the parent's or the node's network does not have, and two trees never share coupling networks or constraints.",
      ["inputs", "histories"], "every tree shape, probability and sequence of coupling calls", "tests build two or three trees",
      [S + "decision_tree.py"], [("DecisionTreeNode", S + "decision_tree.py"), ("InterDecisionTimeScenarioConfig", S + "decision_tree.py")]),
    P("C21", "The decomposed problem exports exactly the masters, subproblems and couplings",
      "Building a Benders problem from a decision tree creates one master per tree node (investment share, expected-value objective weighted by that node's probability) and one subproblem per node and time block (operational share, same weight, all scenarios of the node), "
      "with the requested border management, and is refused unless leaf probabilities sum to one; the structure file lists, for the master and every subproblem, each coupling candidate with its column in that problem, no more and no less; files and options are "
      "written as requested, the run reports success exactly from the runner's status, and fusing several masters keeps every variable with its bounds and integrality, every constraint with its bounds and coefficients, "
      "objective coefficients and offset.",
      ["inputs"], "every decision tree, problem list and solver option", "tests run one or two trees through the external binary",
      [S + "benders_decomposed.py", S + "optimization.py"], [("build_benders_decomposed_problem", S + "benders_decomposed.py"), ("fusion_problems", S + "optimization.py"), ("BendersDecomposedProblem", S + "benders_decomposed.py")]),
    P("C22", "Output values report exactly what was solved or assigned",
      "The output of a solved problem associates to each component, variable, time step and scenario the solver value of exactly that variable; reading a value back gives what was assigned (scalar, per scenario, or per scenario and time step, with nothing of an "
      "earlier assignment left). Equality and closeness compare every component, variable and index both ways, within the tolerances given, skipping only what is marked as ignored. Benders solutions report the fields of the "
      "result file.",
      ["inputs", "histories"], "every solved problem and pair of outputs", "tests compare a few fixed outputs",
      [S + "output_values.py"], [("OutputValues", S + "output_values.py"), ("BendersSolution", S + "output_values.py")]),
    P("C23", "Library files resolve to the models they describe",
      "Resolving parsed libraries gives for each library one port type per declared port type, one model per declared model, with parameters, variables (type, bounds, dependencies), ports, port field definitions, constraints and objective exactly as written, "
      "expressions parsed with that model's identifiers. Dependencies are resolved before their dependents, their port types (and those of preloaded libraries) are visible, cycles, duplicate port types and duplicate model ids are rejected, and the result does not depend on the order of the files.",
      ["inputs"], "every set of library files", "tests resolve a few libraries",
      [M + "resolve_library.py", M + "library.py"], [("resolve_library", M + "resolve_library.py"), ("_resolve_model", M + "resolve_library.py"), ("library", M + "library.py")]),
    P("C29", "External solver runs are confined and their status reported",
      "Running an external binary happens in the given directory with the given arguments, reports its return code, and restores the caller's working directory whatever happens, including when the process cannot be started; nothing is started for a binary that does not exist; the Benders and merge runners pass exactly their "
      "documented command line.",
      ["inputs", "fault_sequences"], "every binary, argument list and failure of the started process", "tests run one command",
      [S + "runner.py"], [("CommandRunner", S + "runner.py")]),
    P("C30", "Replicating study objects changes only what was asked",
      "Replicating a network, component, model, model port, variable, constraint, parameter, port field or connection gives an object that differs from the original exactly in the requested attributes; the replica of a network holds the same nodes, components and connections, and adding to the replica leaves the original as it "
      "was. A new network starts empty and shares nothing with another one; nodes, components and connections are found again under the identifier or position they were added with.",
      ["inputs", "histories"], "every network and model object and every requested change", "tests replicate a handful of objects",
      [ST + "network.py", M + "model.py", M + "variable.py", M + "constraint.py", M + "parameter.py", M + "port.py"],
      [("Network.replicate", ST + "network.py"), ("replicate", M + "model.py")]),
    P("C24", "A system file resolves to the network it describes",
      "Resolving an input system gives one component (or node) per entry, with its id and the model of that library and name, and one connection per listed connection between exactly the two designated ports; references to unknown models, libraries, components or ports are rejected.",
      ["inputs"], "every input system", "tests resolve few files",
      [ST + "resolve_components.py"], [("resolve_system / network_components", ST + "resolve_components.py"), ("build_network", ST + "resolve_components.py")]),
    P("C25", "Input files are accepted exactly as documented, and fed through faithfully",
      "Library, system and scenario-builder files are read with their documented keys, defaults and required fields, in kebab-case; unknown keys are rejected rather than ignored; a malformed library is an error. The command line passes the given model, component and time-series paths, horizon and scenario count unchanged into "
      "resolution, consistency check, database, network and problem building, in that order, and duplicate library ids are refused. Path arguments of the converter are accepted exactly when they exist and are of the kind asked for (file, directory or either).",
      ["inputs", "configurations"], "every input file and command line", "tests parse few files",
      [M + "parsing.py", ST + "parsing.py", "src/andromede/main/main.py"],
      [("InputLibrary and parts", M + "parsing.py"), ("InputSystem and parts", ST + "parsing.py"), ("parse_cli", ST + "parsing.py"), ("main_cli", "src/andromede/main/main.py")]),
    P("C26", "An Antares study is converted object by object, none lost, none invented",
      "Converting an Antares study gives one node per area, one component per renewable cluster, thermal cluster, short-term storage and link, and one load, wind or solar component per area whose series file exists and is neither empty nor all zero, each with the documented model, with every parameter taken from the property or series file of "
      "that very object, and connected to its own area (links: in_port at the origin, out_port at the destination). Areas, thermals and links listed as legacy objects of the battery template are left out, and only those; batteries are produced for every area not excluded, skipping exactly those whose data are missing.",
      ["inputs"], "every Antares study and template configuration", "tests convert a study with at most two areas and one cluster of each kind",
      [IC + "converter.py", IC + "utils.py"], [("AntaresStudyConverter", IC + "converter.py"), ("check_dataframe_validity / transform_to_yaml", IC + "utils.py")]),
    P("C27", "A PyPSA network is converted completely and unsupported features are refused",
      "Converting a PyPSA network either refuses it (inactive components, committable generators, quadratic costs, non-cyclic storage, negative sign storage, other global constraints, several investment periods or weighted snapshots) or gives one component per generator, load, bus, link, storage unit, store and CO2 global constraint, with each parameter taken from that "
      "component's column (or, where time-dependent, its own written series), values clamped to +-1e20, fixed capacities as equal bounds with zero capital cost, each component connected to its own bus, and every emitting component attached to every CO2 constraint with its sense and quota.",
      ["inputs"], "every PyPSA network", "PyPSA tests convert a few small networks",
      [PC + "pypsa_converter.py", PC + "utils.py"], [("PyPSAStudyConverter", PC + "pypsa_converter.py"), ("any_to_float", PC + "utils.py")]),
    P("C28", "Derived thermal and battery data follow their definitions, per object",
      "The minimal cluster power is the row-wise minimum of the must-run modulation times nominal capacity times unit count and of the available power; minimal and maximal unit counts are ceilings of powers over nominal capacity; the maximal variations are the non-negative decreases (forward) and increases (backward) with respect to the previous step, cyclic inside each period; each is written to the series "
      "file its parameter refers to. Template values of battery parameters come from exactly the thermal, link or binding constraint they name, with the stated operation applied; values computed for one study never leak into another conversion, and the template itself is not modified.",
      ["inputs", "histories"], "every cluster, template and sequence of conversions", "tests use one cluster and one template per process",
      [IC + "data_preprocessing/thermal.py", IC + "data_preprocessing/binding_constraints.py", IC + "data_preprocessing/dataclasses.py"],
      [("ThermalDataPreprocessing", IC + "data_preprocessing/thermal.py"), ("BindingConstraintsPreprocessing", IC + "data_preprocessing/binding_constraints.py"), ("Operation.execute", IC + "data_preprocessing/dataclasses.py")]),
    P("C34", "A built problem contains the whole network, exactly as requested",
      "build_problem passes on unchanged the network, data, time block, scenario count, border mode, problem name, decision tree node, build and risk strategies it is given; the problem's variables, constraints and objectives range over all components and nodes, and port definitions and variables are registered before anything that uses them.",
      ["inputs"], "every argument combination of build_problem", "tests use default arguments",
      [S + "optimization.py"], [("build_problem", S + "optimization.py"), ("OptimizationProblem", S + "optimization.py")]),
    P("C35", "Separate objects share no state, and results do not depend on earlier calls",
      "Two networks, databases, models, problem contexts, sets of output values, evaluation contexts, coupling descriptions or linear expressions built separately share nothing: adding to one leaves the others as they were. Nothing is remembered across calls in a way that outlives a change of what it was computed from: replacing "
      "a parameter's data or adding to a network is seen by every later reading; results remembered by a function are looked up under all of the arguments they depend on; default arguments and class attributes are never modified.",
      ["inputs", "histories"], "every pair of objects and every sequence of calls", "each test builds its objects once, in a fresh process or module",
      [ST + "network.py", ST + "data.py", S + "optimization.py", S + "output_values.py", M + "model.py", S + "linear_expression.py", S + "decision_tree.py"],
      [("Network", ST + "network.py"), ("DataBase", ST + "data.py"), ("OptimizationContext", S + "optimization.py"), ("OutputValues", S + "output_values.py"), ("model", M + "model.py")]),
]

NOT_APPLICABLE = [
    (P("N01", "Solver optimality and numerical tolerance",
       "The optimum returned by the external solver for a built problem is the true optimum of the study within tolerance.",
       ["inputs"], "every study", "numerical", [S + "optimization.py"], [("solver.Solve", S + "optimization.py")]),
     "depends on the numerical behaviour of the external OR-Tools solvers at run time; no static argument over this repository can bound it"),
    (P("N02", "Decomposed resolution reaches the monolithic optimum",
       "Solving a multi-level investment study with the external Benders decomposition gives the same optimum as solving the fused problem.",
       ["inputs"], "every decision tree", "numerical convergence of an external binary", [S + "benders_decomposed.py"], [("BendersDecomposedProblem.run", S + "benders_decomposed.py")]),
     "convergence of an external binary's iterations is a run-time numerical quantity; the structural part (what is exported to it) is claimed by C21"),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p in PROPERTIES:
            if p["id"] in PROPS:
                fh.write(json.dumps(p) + "\n")
        for p, _ in NOT_APPLICABLE:
            fh.write(json.dumps(p) + "\n")
    have = {p["id"] for p in PROPERTIES}
    assert set(PROPS) <= have, set(PROPS) - have
    checks = []
    for p in PROPERTIES:
        c = PROPS.get(p["id"])
        if not c:
            continue
        tech = []
        if c.get("specs"):
            tech.append(VG)
        if c.get("rules"):
            tech.append(RULE)
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
            "technique": "; ".join(tech),
            "level": "other",
            "level_note": "Each obligation quantifies over all inputs of the analysed functions; equality of value graphs is decided by normalisation and case splits, "
                          "a definite difference is reported, undetermined obligations are listed in the evidence and never alarm.",
        })
    man = {"version": 1, "setup_cmd": "python3 -c 'import ast,sys; assert sys.version_info >= (3, 9)'", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": r} for p, r in NOT_APPLICABLE]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
