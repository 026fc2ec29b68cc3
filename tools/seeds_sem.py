DOM = """(define (domain d)
 (:types ta - tb tb - tc tc tu)
 (:constants k1 - ta k2 - tu)
 (:predicates (p ?x - tb) (q ?x - tb ?y - tu) (r))
 (:task t :parameters (?x - tb))
 (:task t0 :parameters ())
 (:method m :parameters (?x - tb) :task (t ?x) :ordered-subtasks (and (act1 ?x)))
 (:method m0 :parameters () :task (t0) :ordered-subtasks (and (act0)))
 (:action act1 :parameters (?v - tb) :precondition (and (p ?v)) :effect (and (not (p ?v))))
 (:action act0 :parameters () :precondition () :effect (and (r)))
 %s
)
"""
PROB = """(define (problem pr) (:domain d)
 (:objects o1 - ta o2 - tu %s)
 (:htn :parameters () :subtasks (and %s))
 (:init (p o1) (q o1 o2) %s)
 (:goal (and (r)))
)
"""


def demo(want, problem=False, verb="verify"):
    return """#!/bin/bash
# %s
D=$(cd "$(dirname "$0")" && pwd)
out=$(./target/debug/hddl_analyzer %s "$D/domain.hddl" %s 2>&1)
echo "$out"
echo "$out" | grep -q -- '%s'
""" % ("expects: " + want, verb, '-p "$D/problem.hddl"' if problem else "", want)


def prob(objs="", subs="(t o1)", init=""):
    return PROB % (objs, subs, init)


SA = "src/semantic_analyzer/"
SEEDS = [
 dict(id="sem-self-type", property="C13", needs="a type declared as its own supertype",
      breaks="edges from a type to itself are left out of the hierarchy, so the cycle is not reported",
      edits=[(SA + "type_checker/generic_type_checker.rs", "                            type_graph.add_edge(delcared_type.name, parent, ());", "                            if delcared_type.name != *parent {\n                                type_graph.add_edge(delcared_type.name, parent, ());\n                            }")],
      files={"demo.sh": demo("Error"), "domain.hddl": DOM.replace("tc tu)", "tw - tw tc tu)") % ""}),
 dict(id="sem-weighted", property="C10", needs="an undeclared predicate inside a probabilistic effect",
      breaks="formulae below a probability are no longer searched for undeclared predicates",
      edits=[(SA + "undefined_elements.rs", "        Formula::Weighted(_, new_formula) => {\n            return check_predicate_declarations(&*new_formula, declared_predicates);\n        }", "        Formula::Weighted(_, new_formula) => {\n            // outcomes without a weight were checked already\n            if let Formula::Weighted(_, inner) = &**new_formula {\n                return check_predicate_declarations(&*inner, declared_predicates);\n            }\n        }"),
             ("src/syntactic_analyzer/syntax_tree/nodes/formula.rs", "            Formula::Weighted(_, q) => {\n                predicates.extend(q.get_propositional_predicates().iter());\n            }", "            Formula::Weighted(_, q) => {\n                if let Formula::Weighted(_, inner) = &**q {\n                    predicates.extend(inner.get_propositional_predicates().iter());\n                }\n            }")],
      files={"demo.sh": demo("Error"), "domain.hddl": DOM % "(:action pa :parameters () :precondition () :effect (probabilistic 0.5 (nope)))"}),
 dict(id="sem-arity-init", property="C11", needs="an initial fact with more arguments than its predicate has parameters",
      breaks="surplus arguments of initial facts and goal atoms are accepted",
      edits=[(SA + "type_checker/problem_type_checker.rs", "if definition.variables.len() != predicate.variables.len() {", "if definition.variables.len() > predicate.variables.len() {")],
      files={"demo.sh": demo("Error", True), "domain.hddl": DOM % "", "problem.hddl": prob(init="(q o1 o2 o2)")}),
 dict(id="sem-arity-tn-task", property="C11", needs="a compound task of the initial task network with a missing argument",
      breaks="compound tasks of the initial network may have fewer terms than parameters",
      edits=[(SA + "type_checker/problem_type_checker.rs", "if task.parameters.len() != subtask.terms.len() {", "if task.parameters.len() < subtask.terms.len() {")],
      files={"demo.sh": demo("Error", True), "domain.hddl": DOM % "", "problem.hddl": prob(subs="(t)")}),
 dict(id="sem-warning-stop", property="C15", needs="two compound tasks that cannot be refined with a refinable one between them",
      breaks="the search for unrefinable tasks stops at the first refinable task behind a warning",
      edits=[(SA + "analyzers/domain_analyzer.rs", "                    symbol: task.name.to_string(),\n                    position: task.name_pos,\n                }));\n            }\n        }\n        let type_hierarchy", "                    symbol: task.name.to_string(),\n                    position: task.name_pos,\n                }));\n            } else if !warnings.is_empty() {\n                break;\n            }\n        }\n        let type_hierarchy")],
      files={"demo.sh": demo("z2"), "domain.hddl": DOM.replace(" (:task t :", " (:task z1 :parameters ())\n (:task t :").replace(" (:method m :", " (:task z2 :parameters ())\n (:method m :") % ""}),
 dict(id="sem-tn-undefined", property="C10", needs="an undeclared object as argument of an action in an initial task network without parameters",
      breaks="arguments of primitive tasks of the initial network need not be declared if the network has no parameters",
      edits=[(SA + "type_checker/problem_type_checker.rs", "                            None => {\n                                undefined = true;\n                            }\n                        }\n                        if undefined {", "                            None => {\n                                undefined = self.symbol_table.constants.contains(found);\n                            }\n                        }\n                        if undefined {")],
      nth={"                            None => {\n                                undefined = true;\n                            }\n                        }\n                        if undefined {": 0},
      files={"demo.sh": demo("Error", True), "domain.hddl": DOM % "", "problem.hddl": prob(subs="(act1 ghost)").replace(":parameters () ", "")}),
 dict(id="sem-task-type-first", property="C12", needs="a method whose decomposed task has several parameters, the second argument being ill-typed",
      breaks="only the first argument of a compound task is type-checked",
      edits=[(SA + "type_checker/domain_type_checker.rs", "found_types.iter().zip(expected.iter())", "found_types.iter().zip(expected.iter()).take(definition.parameters.len().min(1))")],
      files={"demo.sh": demo("Error"), "domain.hddl": DOM % "(:task t5 :parameters (?a - tb ?b - tu))\n (:method m5 :parameters (?a - tb) :task (t5 ?a ?a) :ordered-subtasks (and (act0)))"}),
 dict(id="sem-order-tn", property="C13", needs="a cyclic ordering in the initial task network of more than two subtasks where the cycle does not include the first ordering",
      breaks="only cycles through the first ordering constraint are found",
      edits=[("src/syntactic_analyzer/syntax_tree/nodes/htn.rs", "                match toposort(&ordering_graph, None) {\n                    Ok(_) => { true }\n                    Err(_) => {\n                        return false;\n                    }\n                }", "                match (toposort(&ordering_graph, None), orderings.first()) {\n                    (Ok(_), _) | (_, None) => { true }\n                    (Err(_), Some((first, second))) => {\n                        return !petgraph::algo::has_path_connecting(&ordering_graph, *second, *first, None);\n                    }\n                }")],
      files={"demo.sh": demo("Error"), "domain.hddl": DOM % "(:method m5 :parameters () :task (t0) :subtasks (and (a (act0)) (b (act0)) (c (act0))) :ordering (and (< a b) (< b c) (< c b)))"}),
]
