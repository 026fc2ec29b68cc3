LEX = "src/lexical_analyzer/tokenizer.rs"
SY = "src/syntactic_analyzer/"
SA = "src/semantic_analyzer/"
MAIN = "src/bin/hddl_analyzer/main.rs"
LS = "src/language_server/"
DOM = """(define (domain d)
 (:types ta - tb tb - tc tc tu)
 (:constants k1 - ta k2 - tu)
 (:predicates (p ?x - tb) (q ?x - tb ?y - tu) (r))
 (:task t :parameters (?x - tb))
 (:task t0 :parameters ())
 (:method m :parameters (?x - tb) :task (t ?x) :ordered-subtasks (and (act1 ?x)))
 (:method m0 :parameters () :task (t0) :ordered-subtasks (and (act0)))
 (:action act1 :parameters (?v - tb) :precondition (and (p ?v)) :effect (and (not (p ?v))))
 (:action act0 :parameters () :precondition () :effect (and (r)))
 %s
)
"""
PROB = """(define (problem pr) (:domain d)
 (:objects o1 - ta o2 - tu %s)
 (:htn :parameters () :subtasks (and (t o1)))
 (:init (p o1) (q o1 o2) %s)
 %s
)
"""


def sh(pattern, cmd="verify", problem=False, neg=False):
    return """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
out=$(timeout 20 ./target/debug/hddl_analyzer %s "$D/domain.hddl" %s 2>&1 | tr '\\n' ' ' | tr -s ' ')
echo "$out"
%secho "$out" | grep -q -- "%s"
""" % (cmd, '-p "$D/problem.hddl"' if problem else "", "! " if neg else "", pattern)


LSP = r'''
import json, subprocess, sys, os, tempfile, shutil
class Server:
    def __init__(self):
        self.p = subprocess.Popen(["./target/debug/language_server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.n = 0
        self.request("initialize", {"capabilities": {}})
        self.notify("initialized", {})
    def send(self, m):
        b = json.dumps(dict(m, jsonrpc="2.0")).encode()
        self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
        self.p.stdin.flush()
    def notify(self, method, params):
        self.send({"method": method, "params": params})
    def recv(self):
        n = None
        while True:
            l = self.p.stdout.readline()
            if not l:
                sys.exit("server ended")
            l = l.strip()
            if not l:
                break
            if l.lower().startswith(b"content-length:"):
                n = int(l.split(b":")[1])
        return json.loads(self.p.stdout.read(n))
    def request(self, method, params):
        self.n += 1
        self.send({"id": self.n, "method": method, "params": params})
        while True:
            m = self.recv()
            if m.get("id") == self.n:
                return m
    def open(self, uri, text, v=1):
        self.notify("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "hddl", "version": v, "text": text}})
        self.settle()
    def change(self, uri, texts, v=2):
        self.notify("textDocument/didChange", {"textDocument": {"uri": uri, "version": v}, "contentChanges": [{"text": t} for t in texts]})
        self.settle()
    def save(self, uri, text=None):
        p = {"textDocument": {"uri": uri}}
        if text is not None:
            p["text"] = text
        self.notify("textDocument/didSave", p)
        self.settle()
    def settle(self):
        import time
        time.sleep(0.3)
    def diagnostic(self, uri):
        m = self.request("textDocument/diagnostic", {"textDocument": {"uri": uri}})
        print(json.dumps(m)[:600])
        return m["result"]["items"] if "result" in m else None
    def close(self):
        self.p.kill()
'''


def lsp(body):
    return {"demo.sh": "#!/bin/bash\nD=$(cd \"$(dirname \"$0\")\" && pwd)\ntimeout 60 python3 \"$D/demo.py\"\n", "demo.py": LSP + body}


def lib(body):
    """a small program linked with the library that the build left in target/debug"""
    return {"demo.sh": """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp -d)
trap 'rm -rf "$O"' EXIT
lib=$(ls -t target/debug/libhddl_analyzer.rlib target/debug/deps/libhddl_analyzer-*.rlib 2>/dev/null | head -1)
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu rustc --crate-name prog --edition 2021 -o "$O/prog" "$D/prog.rs.txt" --extern hddl_analyzer="$lib" -L target/debug/deps 2>"$O/log" || { cat "$O/log"; exit 0; }
timeout 60 "$O/prog"
""", "prog.rs.txt": body}


SEEDS = [
 dict(id="lex-i32", property="C01", needs="an integer above 2147483647",
      breaks="large integers are rejected",
      edits=[(LEX, "match lexeme.parse::<i64>() {\n                Ok(value) => Ok((NumberType::Integer(value), cursor_pos)),", "match lexeme.parse::<i32>() {\n                Ok(value) => Ok((NumberType::Integer(value as i64), cursor_pos)),")],
      files={"demo.sh": sh("Ok"), "domain.hddl": DOM % "(:action pa :parameters () :precondition () :effect (probabilistic 3000000000 (r)))"}),
 dict(id="lex-cr", property="C02", needs="a file with CR LF line ends and an error",
      breaks="carriage returns are counted as lines too",
      edits=[(LEX, "} else if current == '\\n' {", "} else if current == '\\n' || current == '\\r' {")],
      files={"demo.sh": sh("line 3:"), "domain.hddl": "(define (domain d)\r\n (:types a)\r\n (:nokey x)\r\n)\r\n"}),
 dict(id="lex-dot", property="C01", needs="a number with two dots",
      breaks="a second dot is silently dropped into the number's lexeme",
      edits=[(LEX, "} else if c == '.' && !seen_dot {", "} else if c == '.' {"), (LEX, "match lexeme.parse::<f64>() {", "match lexeme.trim_end_matches('.').parse::<f64>() {")],
      files={"demo.sh": sh("Error"), "domain.hddl": DOM % "(:action pa :parameters () :precondition () :effect (probabilistic 0.5. (r)))"}),
 dict(id="syn-domain-eof", property="C05", needs="a domain file that ends before its last ')'",
      breaks="a domain may end without its closing parenthesis",
      edits=[(SY + "domain_parser/router.rs", "                Token::Punctuator(PunctuationType::RParentheses) => {\n                    return Ok(syntax_tree);", "                Token::EOF | Token::Punctuator(PunctuationType::RParentheses) => {\n                    return Ok(syntax_tree);")],
      files={"demo.sh": sh("Error"), "domain.hddl": (DOM % "").rstrip()[:-1]}),
 dict(id="syn-first-tn", property="C06", needs="a problem with two :htn blocks",
      breaks="the first :htn wins instead of the last",
      edits=[(SY + "syntax_tree/problem.rs", "        self.init_tn = Some(tn);", "        self.init_tn.get_or_insert(tn);")],
      files={"demo.sh": sh("Error", problem=True), "domain.hddl": DOM % "", "problem.hddl": PROB % ("", "", "(:htn :parameters () :subtasks (and (nope)))")}),
 dict(id="syn-trailing-type", property="C06", needs="an untyped name behind a typed one in the same list",
      breaks="names without a type at the end of a list get the last type of the list",
      edits=[(SY + "problem_parser/list_parser.rs", "        let mut result = vec![];", "        let mut result: Vec<Symbol<'a>> = vec![];"),
             (SY + "problem_parser/list_parser.rs", "                    for (object, object_pos) in objects {\n                        result.push(Symbol::new(object, object_pos, None, None));", "                    let (last, last_pos) = match result.last() {\n                        Some(x) if objects.len() > 1 => (x.symbol_type, x.type_pos),\n                        _ => (None, None),\n                    };\n                    for (object, object_pos) in objects {\n                        result.push(Symbol::new(object, object_pos, last, last_pos));")],
      files={"demo.sh": sh("Ok"), "domain.hddl": DOM % "(:predicates (s ?a ?b - ta ?c ?d))\n (:action sa :parameters (?a - ta ?c) :precondition (s ?a ?a ?c ?c) :effect ())"}),
 dict(id="syn-type-pos", property="C07", needs="a '-' at the end of a line followed by something that is not a type name",
      breaks="the error is reported for the line of the '-'",
      edits=[(SY + "problem_parser/list_parser.rs", "                    let object_type = self.tokenizer.get_token()?;\n                    let type_pos = self.tokenizer.get_last_token_position();", "                    let type_pos = self.tokenizer.get_last_token_position();\n                    let object_type = self.tokenizer.get_token()?;")],
      files={"demo.sh": sh("line 4:"), "domain.hddl": "(define (domain d)\n (:types a b -\n\n  ( c)\n)\n"}),
 dict(id="syn-classify", property="C08", needs="a file whose third token is not '('",
      breaks="files without the second '(' are taken for HDDL",
      edits=[(SY + "parser.rs", "                if let Ok(Token::Punctuator(PunctuationType::LParentheses)) = self.tokenizer.get_token() {\n                    match", "                if let Ok(Token::Punctuator(_)) = self.tokenizer.get_token() {\n                    match")],
      files=lsp('''
s = Server()
s.open("file:///nowhere/x.hddl", "(define ) domain d)")
r = s.diagnostic("file:///nowhere/x.hddl")
s.close()
sys.exit(0 if r == [] else 1)
''')),
 dict(id="sem-arity-less", property="C11", needs="a subtask of a method that gives an action too many arguments",
      breaks="surplus arguments of primitive subtasks are ignored",
      edits=[(SA + "type_checker/domain_type_checker.rs", "if task_terms.len() != expected_types.len() {", "if task_terms.len() < expected_types.len() {")],
      files={"demo.sh": sh("Error"), "domain.hddl": DOM % "(:method mm :parameters (?x - tb) :task (t0) :ordered-subtasks (and (act1 ?x ?x)))"}),
 dict(id="sem-param-pos", property="C14", needs="an undeclared argument of a subtask on another line than the subtask's name",
      breaks="the error is located at the task instead of the argument",
      edits=[(SA + "type_checker/domain_type_checker.rs", "                                    symbol: term.name.to_string(),\n                                    position: term.name_pos,", "                                    symbol: term.name.to_string(),\n                                    position: task.name_pos,")],
      files={"demo.sh": sh("line 12"), "domain.hddl": DOM % "(:method mm :parameters (?x - tb) :task (t0) :ordered-subtasks (and (act1\n ?y)))"}),
 dict(id="sem-warn-rev", property="C15", needs="a problem and a domain with two unrefinable tasks",
      breaks="with a problem the warnings come in reverse order",
      edits=[(SA + "analyzers/problem_analyzer.rs", "            .warnings\n            .iter()\n            .cloned()", "            .warnings\n            .iter()\n            .rev()\n            .cloned()")],
      files={"demo.sh": sh("z1.*z2", problem=True), "domain.hddl": DOM % "(:task z1 :parameters ())\n(:task z2 :parameters ())", "problem.hddl": PROB % ("", "", "")}),
 dict(id="json-constraints", property="C16", needs="a task network without constraints",
      breaks="the constraints member is left out when there are none",
      edits=[(SY + "syntax_tree/nodes/htn.rs", "    pub constraints: Option<Vec<Constraint<'a>>>, ", "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub constraints: Option<Vec<Constraint<'a>>>, ")],
      files={"demo.sh": sh("constraints", "to_json"), "domain.hddl": DOM % ""}),
 dict(id="json-functions", property="C16", needs="a domain with functions",
      breaks="the variables of functions are written as their number",
      edits=[(SY + "syntax_tree/nodes/function.rs", "    pub variables: Vec<Symbol<'a>>\n}", "    #[serde(serialize_with = \"count\")]\n    pub variables: Vec<Symbol<'a>>\n}\n\nfn count<S: serde::Serializer>(v: &Vec<Symbol>, s: S) -> Result<S::Ok, S::Error> {\n    s.serialize_u64(v.len() as u64)\n}")],
      files={"demo.sh": sh("fvar", "to_json"), "domain.hddl": DOM % "(:functions (f ?fvar - ta))"}),
 dict(id="pure-cache", property="C17", needs="two calls of the library in one process with files of the same length",
      breaks="verdicts are remembered by the length of the files",
      edits=[("src/lib.rs", "        let lexer = LexicalAnalyzer::new(&domain);\n        let domain_parser = syntactic_analyzer::Parser::new(lexer);\n        let domain_ast = domain_parser.parse()?;\n        if let", "        thread_local! {\n            static SEEN: std::cell::Cell<usize> = std::cell::Cell::new(0);\n        }\n        if problem.is_none() && SEEN.with(|s| s.get()) == domain.len() {\n            return Ok(vec![]);\n        }\n        let lexer = LexicalAnalyzer::new(&domain);\n        let domain_parser = syntactic_analyzer::Parser::new(lexer);\n        let domain_ast = domain_parser.parse()?;\n        SEEN.with(|s| s.set(domain.len()));\n        if let")],
      files=lib('''
use hddl_analyzer::HDDLAnalyzer;
fn main() {
    let a = b"(define (domain d) (:types a - b))".to_vec();
    let b = b"(define (domain d) (:types a - a))".to_vec();
    let first = HDDLAnalyzer::verify(&a, None).is_ok();
    let second = HDDLAnalyzer::verify(&b, None).is_ok();
    println!("{} {}", first, second);
    std::process::exit(if first && !second { 0 } else { 1 });
}
''')),
 dict(id="hash-init", property="C18", needs="two faulty facts in the initial state",
      breaks="which fault is reported depends on the order of a hash table",
      edits=[(SA + "analyzers/problem_analyzer.rs", "for predicate in self.problem.init_state.iter() {", "let facts: std::collections::HashSet<(&str, usize)> = self.problem.init_state.iter().enumerate().map(|(i, x)| (x.name, i)).collect();\n        for predicate in facts.iter().map(|(_, i)| &self.problem.init_state[*i]) {")],
      files={"demo.sh": """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
for i in $(seq 60); do ./target/debug/hddl_analyzer verify "$D/domain.hddl" -p "$D/problem.hddl" 2>&1; done | sort -u > /tmp/hash-init.$$
cat /tmp/hash-init.$$
n=$(grep -c Error /tmp/hash-init.$$)
rm -f /tmp/hash-init.$$
[ "$n" = 1 ]
""", "domain.hddl": DOM % "", "problem.hddl": PROB % ("", "(x1) (x2) (x3) (x4) (x5)", "")}),
 dict(id="cli-fallback", property="C19", needs="verify with a problem file that cannot be read",
      breaks="an unreadable problem is ignored and the domain alone is reported Ok",
      edits=[(MAIN, "                            Err(read_error) => {\n                                eprintln!(\"{}[Error]{} {}\", red, reset, read_error)\n                            }\n                        }\n                    }\n                    None => {\n                        let output = HDDLAnalyzer::verify(&domain_content, None);", "                            Err(_) => match HDDLAnalyzer::verify(&domain_content, None) {\n                                Ok(_) => println!(\"{}[Ok]{}\", green, reset),\n                                Err(parsing_error) => {\n                                    eprintln!(\"{}[Error]{} {}\", red, reset, parsing_error)\n                                }\n                            },\n                        }\n                    }\n                    None => {\n                        let output = HDDLAnalyzer::verify(&domain_content, None);")],
      files={"demo.sh": """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
out=$(./target/debug/hddl_analyzer verify "$D/domain.hddl" -p "$D/missing.hddl" 2>/dev/null)
echo "$out"
! echo "$out" | grep -q Ok
""", "domain.hddl": DOM % ""}),
 dict(id="cli-write", property="C19", needs="to_json with an output file that cannot be written",
      breaks="a failed write is reported as success",
      edits=[(MAIN, "                                            Err(err) => {\n                                                eprintln!(\"{}[Error]{} {}\", red, reset, err)\n                                            }\n                                        }\n                                    }\n                                }\n                            }\n                            Err(parsing_error) => {\n                                eprintln!(\"{}[Error]{} {}\", red, reset, parsing_error)\n                            }\n                        }\n                    }\n                },", "                                            Err(_) => {\n                                                println!(\"Result written to {}\", output_file)\n                                            }\n                                        }\n                                    }\n                                }\n                            }\n                            Err(parsing_error) => {\n                                eprintln!(\"{}[Error]{} {}\", red, reset, parsing_error)\n                            }\n                        }\n                    }\n                },")],
      files={"demo.sh": """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
out=$(./target/debug/hddl_analyzer to_json "$D/domain.hddl" -o "$D/missing/out.json" 2>/dev/null)
echo "$out"
[ -z "$out" ]
""", "domain.hddl": DOM % ""}),
 dict(id="lsp-reopen", property="C20", needs="a document that is opened again with another text",
      breaks="the second open keeps the old text",
      edits=[(LS + "request_handler.rs", "    async fn did_open(&self, params: DidOpenTextDocumentParams) {\n        self.sync(", "    async fn did_open(&self, params: DidOpenTextDocumentParams) {\n        if self.documents.read().await.contains_key(&params.text_document.uri) {\n            return;\n        }\n        self.sync(")],
      files=lsp('''
s = Server()
u = "file:///nowhere/x.hddl"
s.open(u, "(define (domain d) )")
s.open(u, "(define (domain d) (:nokey))", 2)
r = s.diagnostic(u)
s.close()
sys.exit(0 if r else 1)
''')),
 dict(id="lsp-save-text", property="C20", needs="a save notification that carries the text",
      breaks="an empty saved text is ignored",
      edits=[(LS + "request_handler.rs", "        // sync the file\n        self.sync(", "        if text.is_empty() {\n            return;\n        }\n        // sync the file\n        self.sync(")],
      files=lsp('''
s = Server()
u = "file:///nowhere/x.hddl"
s.open(u, "(define (domain d) (:nokey))")
s.save(u, "")
r = s.diagnostic(u)
s.close()
sys.exit(0 if r == [] else 1)
''')),
 dict(id="lsp-arity-line", property="C21", needs="an arity error",
      breaks="arity errors are located one line too low",
      edits=[(LS + "diagnostic_utils.rs", "start: Position { line: arity_error.position.line - 1, character: 0 },\n                                end: Position { line: arity_error.position.line, character: 0 }", "start: Position { line: arity_error.position.line, character: 0 },\n                                end: Position { line: arity_error.position.line + 1, character: 0 }")],
      files=lsp('''
s = Server()
u = "file:///nowhere/x.hddl"
s.open(u, "(define (domain d)\\n (:predicates (p))\\n (:action a :parameters (?x) :precondition (p ?x) :effect ())\\n)")
r = s.diagnostic(u)
s.close()
sys.exit(0 if r and r[0]["range"]["start"]["line"] == 2 else 1)
''')),
 dict(id="lsp-problem-error", property="C21", needs="an invalid domain beside a problem that has a syntax error",
      breaks="the error of the problem is not shown when the domain is invalid",
      edits=[(LS + "diagnostic_utils.rs", "        Ok(_) => {}\n        Err(parsing_error) => {\n            items.push(parsing_error.into());\n        }\n    }\n    DocumentDiagnosticReportResult::Report(\n        DocumentDiagnosticReport::Full(\n            RelatedFullDocumentDiagnosticReport {\n                // TODO", "        Ok(_) => {}\n        Err(_) if !items.is_empty() => {}\n        Err(parsing_error) => {\n            items.push(parsing_error.into());\n        }\n    }\n    DocumentDiagnosticReportResult::Report(\n        DocumentDiagnosticReport::Full(\n            RelatedFullDocumentDiagnosticReport {\n                // TODO")],
      files=lsp('''
d = tempfile.mkdtemp()
open(d + "/domain.hddl", "w").write("(define (domain d) (:nokey))")
s = Server()
u = "file://" + d + "/p.hddl"
s.open(u, "(define (problem p) (:domain d) (:nokey))")
r = s.diagnostic(u)
s.close()
shutil.rmtree(d)
sys.exit(0 if r is not None and len(r) == 2 else 1)
''')),
 dict(id="panic-ordering-pos", property="C22", needs="a single cyclic ordering constraint written without (and ...)",
      breaks="the position of the ordering is only recorded for conjunctions, and reporting the cycle then fails an unwrap",
      edits=[(SY + "problem_parser/init_tn_parser.rs", "                            ordering_pos = Some(self.tokenizer.get_last_token_position());\n                            match self.tokenizer.get_token()? {", "                            let keyword_pos = self.tokenizer.get_last_token_position();\n                            match self.tokenizer.get_token()? {"),
             (SY + "problem_parser/init_tn_parser.rs", "Token::Operator(OperationType::And) => loop {\n                                            match self.tokenizer.get_token()? {\n                                                Token::Punctuator(\n                                                    PunctuationType::LParentheses,\n                                                ) => {\n                                                    orderings", "Token::Operator(OperationType::And) => loop {\n                                            ordering_pos = Some(keyword_pos);\n                                            match self.tokenizer.get_token()? {\n                                                Token::Punctuator(\n                                                    PunctuationType::LParentheses,\n                                                ) => {\n                                                    orderings")],
      files={"demo.sh": sh("cyclic"), "domain.hddl": DOM % "(:method mm :parameters () :task (t0) :subtasks (and (i1 (act0)) (i2 (act0))) :ordering (< i1 i1))"}),
 dict(id="loop-formula-eof", property="C23", needs="a file that ends inside a conjunction",
      breaks="the end of the file is taken for an empty formula, so reading a conjunction never ends",
      edits=[(SY + "domain_parser/formula_parser.rs", "                }\n            }\n            token => {\n                let error = SyntacticError {\n                    expected: \"a (potentially empty) boolean formula definition\".to_string(),", "                }\n            }\n            Token::EOF => Ok(Formula::Empty),\n            token => {\n                let error = SyntacticError {\n                    expected: \"a (potentially empty) boolean formula definition\".to_string(),")],
      files={"demo.sh": """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
ulimit -v 2000000
out=$(timeout 10 ./target/debug/hddl_analyzer verify "$D/domain.hddl" 2>&1)
rc=$?
echo "$out" | head -3
[ $rc = 0 ]
""", "domain.hddl": "(define (domain d) (:predicates (p)) (:action a :parameters () :precondition (and (p)"}),
 dict(id="stage-order", property="C24", needs="a domain with a semantic error and a problem with a syntax error",
      breaks="the problem is parsed before the domain is checked, so the wrong error is returned",
      edits=[("src/lib.rs", "            let domain_semantic_verifier = DomainSemanticAnalyzer::new(&d);\n            let symbol_table = domain_semantic_verifier.verify_domain()?;\n            match problem {\n                Some(p) => {\n                    let lexer = LexicalAnalyzer::new(p);\n                    let problem_parser = syntactic_analyzer::Parser::new(lexer);\n                    let problem_ast = problem_parser.parse()?;\n                    match problem_ast {\n                        AbstractSyntaxTree::Problem(p_ast) => {\n                            let", "            let domain_semantic_verifier = DomainSemanticAnalyzer::new(&d);\n            match problem {\n                Some(p) => {\n                    let lexer = LexicalAnalyzer::new(p);\n                    let problem_parser = syntactic_analyzer::Parser::new(lexer);\n                    let problem_ast = problem_parser.parse()?;\n                    match problem_ast {\n                        AbstractSyntaxTree::Problem(p_ast) => {\n                            let symbol_table = domain_semantic_verifier.verify_domain()?;\n                            let"),
             ("src/lib.rs", "None => Ok(symbol_table.warnings),", "None => Ok(domain_semantic_verifier.verify_domain()?.warnings),")],
      files={"demo.sh": sh("cyclic", problem=True), "domain.hddl": DOM.replace("tc tu)", "tc tu tw - tw)") % "", "problem.hddl": "(define (problem p) (:domain d) (:nokey))"}),
 dict(id="meta-methods", property="C25", needs="a method with an empty task network",
      breaks="methods without subtasks are not counted",
      edits=[("src/lib.rs", "n_methods: d.methods.len() as u32,", "n_methods: d.methods.iter().filter(|m| !m.tn.subtasks.is_empty()).count() as u32,")],
      files={"demo.sh": sh("methods: 3", "metadata"), "domain.hddl": DOM % "(:method mm :parameters () :task (t0) :subtasks ())"}),
 dict(id="meta-long", property="C25", needs="more than ten nullable tasks",
      breaks="only the first ten nullable tasks are listed",
      edits=[("src/output/metadata.rs", "for nullable in self.nullables.iter() {", "for nullable in self.nullables.iter().take(10) {")],
      files={"demo.sh": sh("e23", "metadata"), "domain.hddl": DOM % "\n".join("(:task e%d :parameters ())\n(:method me%d :parameters () :task (e%d) :subtasks ())" % (i, i, i) for i in range(10, 25))}),
 dict(id="text-arity", property="C26", needs="a predicate with a wrong number of arguments",
      breaks="expected and found number are exchanged in the message",
      edits=[("src/output/errors/semantic.rs", "\"line {}: predicate {} takes {} parameters, but {} are given.\",\n                    ar_error.position.line, ar_error.symbol, ar_error.expected_arity, ar_error.found_arity", "\"line {}: predicate {} takes {} parameters, but {} are given.\",\n                    ar_error.position.line, ar_error.symbol, ar_error.found_arity, ar_error.expected_arity")],
      files={"demo.sh": sh("takes 1 parameters, but 2"), "domain.hddl": DOM % "(:action pa :parameters (?x - ta) :precondition (p ?x ?x) :effect ())"}),
 dict(id="text-type", property="C26", needs="an argument without a type where one is declared",
      breaks="the message for a missing type names the variable instead of the expected type",
      edits=[("src/output/errors/semantic.rs", "\"Expected object of type '{}', but did not find any typing.\",\n                    expected\n", "\"Expected object of type '{}', but did not find any typing.\",\n                    expected.to_lowercase()\n")],
      files={"demo.sh": sh("type 'TB'"), "domain.hddl": (DOM.replace("tb", "TB")) % "(:action pa :parameters (?x) :precondition (p ?x) :effect ())"}),
 dict(id="graph-any-nullable", property="C27", needs="a task that is not nullable but reaches a nullable one",
      breaks="a task counts as nullable as soon as it reaches a nullable task",
      edits=[(SA + "tdg.rs", "            nullable: nullables.contains(task_name),", "            nullable: compounds_nullable,"),
             (SA + "tdg.rs", "        ReachableSet {\n            primitives,", "        let compounds_nullable = compounds.iter().any(|x| nullables.contains(x));\n        ReachableSet {\n            primitives,")],
      files={"demo.sh": sh("Warning"), "domain.hddl": DOM % "(:task z :parameters ())\n(:task y :parameters ())\n(:method my :parameters () :task (y) :subtasks ())\n(:method mz :parameters () :task (z) :ordered-subtasks (and (y) (z)))"}),
 dict(id="graph-suffix", property="C28", needs="a cycle through two methods of which only the first has something behind the next task",
      breaks="only what stands behind the last step of a cycle counts",
      edits=[(SA + "tdg.rs", "suffix.extend(self.get_suffix(*t_id, m_id));", "suffix = self.get_suffix(*t_id, m_id);")],
      files={"demo.sh": sh("Empty recursion", "metadata", neg=True), "domain.hddl": DOM % "(:task z :parameters ())\n(:task y :parameters ())\n(:method my :parameters () :task (y) :ordered-subtasks (and (z)))\n(:method mz :parameters () :task (z) :ordered-subtasks (and (y) (act0)))"}),
 dict(id="sem-dup-param-type", property="C09", needs="an action with two parameters of the same name and different types",
      breaks="parameters of an action are told apart by name and type",
      edits=[(SA + "analyzers/domain_analyzer.rs", "            for param in action.parameters.iter() {\n                if !declared_params.insert(param) {", "            for param in action.parameters.iter() {\n                if !declared_params.insert((param.name, param.symbol_type)) {")],
      files={"demo.sh": sh("Error"), "domain.hddl": DOM % "(:action pa :parameters (?x - ta ?x - tu) :precondition () :effect ())"}),
 dict(id="sem-const-shadow", property="C12", needs="a task network parameter with the name of a constant of another type",
      breaks="a constant hides the parameter of the same name in the initial task network",
      edits=[(SA + "type_checker/problem_type_checker.rs", "                            Some(params) => match params.iter().find(|x| &x.name == &found.name) {\n                                Some(param) => {", "                            Some(params) => match params.iter().find(|x| {\n                                &x.name == &found.name && !self.symbol_table.constants.contains(found)\n                            }) {\n                                Some(param) => {")],
      files={"demo.sh": sh("Ok", problem=True), "domain.hddl": DOM % "", "problem.hddl": "(define (problem pr) (:domain d)\n (:objects o1 - ta)\n (:htn :parameters (?k2 - ta) :subtasks (and (act1 ?k2)))\n (:init )\n)\n"}),
 dict(id="sem-type-case", property="C12", needs="two types whose names differ only in case",
      breaks="type names are compared ignoring case",
      edits=[(SA + "type_checker/generic_type_checker.rs", "                if found_typing == defined_typing {", "                if found_typing.eq_ignore_ascii_case(defined_typing) {")],
      files={"demo.sh": sh("Error"), "domain.hddl": DOM.replace("tc tu)", "tc tu TU)") % "(:action pa :parameters (?x - ta ?y - TU) :precondition (q ?x ?y) :effect ())"}),
 dict(id="sem-pred-pos", property="C14", needs="a fact of the initial state whose faulty argument is on another line than its predicate",
      breaks="the undefined object is located at the predicate",
      edits=[(SA + "type_checker/problem_type_checker.rs", "                            None => {\n                                return Err(SemanticErrorType::UndefinedObject(\n                                    UndefinedSymbolError {\n                                        symbol: found.name.to_string(),\n                                        position: found.name_pos,", "                            None => {\n                                return Err(SemanticErrorType::UndefinedObject(\n                                    UndefinedSymbolError {\n                                        symbol: found.name.to_string(),\n                                        position: predicate.name_pos,")],
      files={"demo.sh": sh("line 5", problem=True), "domain.hddl": DOM % "", "problem.hddl": PROB % ("", "(p \n nope)", "")}),
 dict(id="panic-empty-cycle", property="C22", needs="metadata of a domain with a long list of parameters",
      breaks="the predicate's text is sliced past its end when it has no variables",
      edits=[("src/syntactic_analyzer/syntax_tree/nodes/predicate.rs", "        for var in self.variables.iter() {\n            s.push_str(var.name);\n            s.push(',');\n        }\n        s.push(')');\n        s", "        for var in self.variables.iter() {\n            s.push_str(&var.name[..1]);\n            s.push_str(&var.name[1..]);\n            s.push(',');\n        }\n        s.push(')');\n        s")],
      files={"demo.sh": sh("Error\\|Ok"), "domain.hddl": DOM.replace("?v", "?\u00fa").replace("?x", "?\u00fa") % ""}),
]
