LEX = "src/lexical_analyzer/tokenizer.rs"
DP = "src/syntactic_analyzer/domain_parser/"
PP = "src/syntactic_analyzer/problem_parser/"
DOM = """(define (domain d)
 (:types ta - tb tb)
 (:predicates (p ?x - tb) (r))
 (:task t0 :parameters ())
 (:method m0 :parameters () :task (t0) :ordered-subtasks (and (act0)))
 (:action act0 :parameters () :precondition () :effect (and (r)))
 %s
)
"""


def demo(pattern, cmd="verify", neg=False, problem=False):
    return """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
out=$(./target/debug/hddl_analyzer %s "$D/domain.hddl" %s 2>&1 | tr -d ' \\n')
echo "$out"
%secho "$out" | grep -q -- '%s'
""" % (cmd, '-p "$D/problem.hddl"' if problem else "", "! " if neg else "", pattern)


PROB = """(define (problem pr) (:domain d)
 (:objects o1 - ta)
 (:htn :parameters () :subtasks (and (t0)))
 (:init (p o1))
%s
)
"""
SEEDS = [
 dict(id="lex-tab", property="C03", needs="a form feed or vertical tab inside a file",
      breaks="other control characters are silently skipped",
      edits=[(LEX, "            ' ' | '\\t' | '\\n' | '\\r' => true,", "            ' ' | '\\t' | '\\n' | '\\r' | '\\x0b' | '\\x0c' => true,")],
      files={"demo.sh": demo("Error"), "domain.hddl": (DOM % "").replace("(:types ta", "(:types\x0cta")}),
 dict(id="lex-line", property="C02", needs="a blank line directly behind another newline and then an error",
      breaks="of several newlines in a row only the first is counted when the next byte is a tab",
      edits=[(LEX, "            } else if current == '\\n' {", "            } else if current == '\\n' && self.program.get(self.cursor.get() + 1) != Some(&b'\\t') {")],
      files={"demo.sh": demo("line8"), "domain.hddl": (DOM % "").replace("\n (:", "\n\n\t(:", 1) .replace(" (:action", "\n (:action").replace("and (r)", "and r")}),
 dict(id="lex-peek", property="C04", needs="two reals behind each other, the second peeked at",
      breaks="peeking at an unknown keyword gives an identifier error instead of the keyword error",
      edits=[(LEX, "                            error_type: LexicalErrorType::InvalidKeyword,", "                            error_type: if peek {\n                                LexicalErrorType::InvalidIdentifier\n                            } else {\n                                LexicalErrorType::InvalidKeyword\n                            },")],
      files={"demo.sh": demo("invalidkeyword"), "domain.hddl": DOM % "(:action a1 :parameters () :precond () :effect (and (r)))"}),
 dict(id="lex-ge", property="C01", needs="'>=' directly at the end of the file or in front of a sign",
      breaks="'=' directly in front of '>' or '<' is dropped",
      edits=[(LEX, "            '=' => OperationType::Equal,\n", "            '=' => match next_char {\n                Some('>') if !peek => {\n                    self.cursor.set(self.cursor.get() + 1);\n                    OperationType::Equal\n                }\n                _ => OperationType::Equal,\n            },\n")],
      files={"demo.sh": demo("found'>'".replace("'", ".")), "domain.hddl": DOM % "(:action a1 :parameters () :precondition (=>) :effect (and (r)))"}),
 dict(id="syn-req", property="C06", needs="two :requirements blocks",
      breaks="a second requirements block replaces the first",
      edits=[(DP + "router.rs", "                            for requirement in requirements {", "                            syntax_tree.requirements.clear();\n                            for requirement in requirements {")],
      files={"demo.sh": demo("Hierarchy", "to_json"), "domain.hddl": DOM % "(:requirements :hierarchy)\n (:requirements :typing)"}),
 dict(id="syn-order-chain", property="C06", needs="an ordering constraint that names three or more tasks",
      breaks="an ordering with several successors becomes a chain",
      edits=[(PP + "init_tn_parser.rs", "                                                            orderings.push((t1, t2));", "                                                            let before = orderings.last().map_or(t1, |o: &(&'a str, &'a str)| o.1);\n                                                            orderings.push((before, t2));")],
      files={"demo.sh": demo('"a","c"', "to_json"), "domain.hddl": DOM % "(:method m1 :parameters () :task (t0) :subtasks (and (a (act0)) (b (act0)) (c (act0))) :ordering (< a b c))"}),
 dict(id="syn-not-close", property="C05", needs="a negation that is closed by something other than ')'",
      breaks="a negated formula may be left open",
      edits=[(DP + "formula_parser.rs", "                            token => {\n                                let error = SyntacticError {\n                                    expected: \"closing the not operator with ')'\".to_string(),", "                            Token::Punctuator(PunctuationType::Dash) => {\n                                return Ok(Formula::Not(Box::new(formula)));\n                            }\n                            token => {\n                                let error = SyntacticError {\n                                    expected: \"closing the not operator with ')'\".to_string(),")],
      files={"demo.sh": demo("Error"), "domain.hddl": DOM % "(:action a1 :parameters () :precondition (and (not (r) -) :effect (and (r)))"}),
 dict(id="syn-pos-early", property="C07", needs="a wrong token behind the parameters of a task on a later line than the task's name",
      breaks="the error is reported on the line of the task's name",
      edits=[(PP + "init_tn_parser.rs", """                                        expected: format!("either a term for {}, or ')'", term)
                                            .to_string(),
                                        found: token.to_string(),
                                        position: self.tokenizer.get_last_token_position(),""", """                                        expected: format!("either a term for {}, or ')'", term)
                                            .to_string(),
                                        found: token.to_string(),
                                        position: terms[0].name_pos,""")],
      files={"demo.sh": demo("line8"), "domain.hddl": DOM % "(:method m1 :parameters (?a) :task (t0) :subtasks (and (act0 ?a ?a\n ("}),
 dict(id="syn-classify", property="C08", needs="a file whose third token is not '('",
      breaks="the third token of the header is not checked",
      edits=[("src/syntactic_analyzer/parser.rs", "                if let Ok(Token::Punctuator(PunctuationType::LParentheses)) = self.tokenizer.get_token() {\n                    match", "                if let Ok(Token::Punctuator(_)) = self.tokenizer.get_token() {\n                    match")],
      files={"demo.sh": "", "domain.hddl": ""}),
]
SEEDS = [s for s in SEEDS if s["files"]["demo.sh"]]
