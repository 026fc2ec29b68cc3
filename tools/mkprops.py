"""Writes /verif/properties.jsonl (kept as a script because JSON lines are unpleasant to edit)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                               hook_needed=None)))


LEX = "src/lexical_analyzer/tokenizer.rs"
SYN = "src/syntactic_analyzer/"
SEM = "src/semantic_analyzer/"

p("C01", "Every lexeme becomes exactly the token it denotes",
  "For every file content, reading a token yields the token that the longest lexeme at that place denotes: each documented keyword and requirement (including the spelling variants tasks/subtasks, ordered-tasks/ordered-subtasks, order/ordering), each operator word, each punctuation and comparison sign, integer and real numbers, and identifiers and ?variables with exactly their spelling. Every other lexeme is reported as a lexical error of the matching kind (unknown :keyword, malformed identifier, malformed number) that quotes the lexeme; no lexeme is silently turned into something else.",
  ["inputs"], "all byte sequences and all positions in them",
  "The lexer tests feed a few hand-written snippets; the mapping has over forty entries and must hold at every offset, at the end of the file and next to any other byte.",
  [LEX, "src/lexical_analyzer/token_types.rs"],
  [("keyword / operator tables", LEX + " LexicalAnalyzer::parse, is_operator, ordering_type"),
   ("lexeme and number scanning", LEX + " peek_lexeme, peek_number")],
  [("program/cursor", "input bytes and read position", LEX)], ["LexicalAnalyzer::get_token"])
p("C02", "Line numbers are exact",
  "The line recorded with every token and every lexical error equals one plus the number of newline characters before the token, whatever mixture of blank lines, carriage returns, tabs and comments precedes it, and whether the token was read or only peeked at first.",
  ["inputs"], "all byte sequences and all tokens in them",
  "Tests compare lines for a handful of snippets; a line can be lost or counted twice only on particular mixtures of comments, peeks and newlines.",
  [LEX], [("newline counting", LEX + " skip_whitespaces")],
  [("last_token_pos", "line of the last token", LEX)], ["LexicalAnalyzer::get_last_token_position", "every error position"])
p("C03", "Whitespace and comments only separate tokens",
  "Blanks, tabs, carriage returns, newlines and comments (from ';' to the end of the line or of the file) never become part of a token, never change which tokens follow, and are skipped completely before the next token; no other byte is skipped.",
  ["inputs"], "all byte sequences", "Tests contain few comments and none at the end of a file or directly behind a token.",
  [LEX], [("skipping", LEX + " skip_whitespaces")], (), ["LexicalAnalyzer::get_token"])
p("C04", "Peeking and reading agree, and peeking consumes nothing",
  "At every position, peeking at the next token gives the same result (token or error) as reading it, and afterwards the same token can still be read; reading advances past exactly the bytes of that token, so every byte of the input belongs to at most one token and none is skipped or read twice.",
  ["inputs", "histories"], "all inputs and all interleavings of peeks and reads",
  "Tests peek at one or two token kinds; the parser relies on it for every kind of token.",
  [LEX], [("parse(peek)", LEX)], [("cursor", "read position", LEX)],
  ["LexicalAnalyzer::lookahead", "LexicalAnalyzer::get_token"])
p("C05", "Exactly the supported HDDL grammar is accepted",
  "A file is accepted by the parser if and only if its token sequence is derivable from the supported HDDL grammar of domains (requirements, types, constants, predicates, functions, tasks, methods, actions in any order and number) and problems (requirements, objects, htn, init, goal), including formulae, parameter lists, task networks, orderings and constraints; every block must be closed by its own ')' (only a problem's last ')' may be missing at the end of the file).",
  ["inputs"], "all token sequences",
  "Tests and benchmark domains exercise a few well-formed files and a few single mistakes; the guarantee is about every token at every place of the grammar.",
  [SYN + "parser.rs", SYN + "domain_parser", SYN + "problem_parser"],
  [("recursive descent", SYN + "*_parser"), ("block router", SYN + "domain_parser/router.rs, problem_parser/router.rs")],
  (), ["HDDLAnalyzer::verify", "HDDLAnalyzer::to_json", "Parser::parse"])
p("C06", "The syntax tree says exactly what the file says",
  "For every accepted file, the syntax tree contains every declared element exactly once, in source order, with its own name, line, parameters and types (a type applies to all names listed before it since the previous type), formula operators with all their operands in order, subtask ids, tasks and terms, orderings with their direction, and constraints with their sign; nothing is dropped, merged, swapped or invented (only a later :htn, :init, :goal or :constraints section replaces an earlier one).",
  ["inputs"], "all accepted files",
  "Tests look at a few fields of a few trees.",
  [SYN + "parser.rs", SYN + "domain_parser", SYN + "problem_parser", SYN + "syntax_tree"],
  [("tree construction", SYN + "*_parser"), ("AST builders", SYN + "syntax_tree")], (), ["Parser::parse", "HDDLAnalyzer::to_json"])
p("C07", "Syntax errors point at the first offending token",
  "When a file is rejected by the parser, the error is the lexical error of the first unreadable lexeme, or a syntax error that shows the first token with which no supported file can continue and the line of that token, whichever comes first.",
  ["inputs"], "all rejected files",
  "Tests check a few positions; every one of the roughly ninety error sites must agree.",
  [SYN + "parser.rs", SYN + "domain_parser", SYN + "problem_parser"], [("SyntacticError construction", SYN + "*_parser")], (),
  ["ParsingError::Syntactic", "ParsingError::Lexiacal"])
p("C08", "File classification looks at the header only",
  "A file is classified as a domain exactly if its first four tokens are '(' define '(' domain, as a problem exactly if they are '(' define '(' problem, and as neither in every other case (including unreadable or truncated files); classification never fails and leaves the reader at the start of the file.",
  ["inputs"], "all file contents", "No test covers truncated or unreadable headers.",
  [SYN + "parser.rs"], [("Parser::classify", SYN + "parser.rs")], (), ["Parser::classify", "language server diagnostics"])
p("C09", "Every duplicate declaration is reported",
  "Verification succeeds only if no two requirements, predicates, compound tasks, actions, methods, constants, parameters of one action, parameters of one method, or objects of the problem have the same name.",
  ["inputs"], "all domains and problems",
  "Tests contain one duplicate each, at fixed places; the guarantee covers every pair of positions in lists of any length.",
  [SEM + "analyzers"], [("declared_* sets", SEM + "analyzers/domain_analyzer.rs"), ("object_types map", SEM + "analyzers/problem_analyzer.rs")],
  (), ["HDDLAnalyzer::verify"])
p("C10", "Every use of an undeclared name is reported",
  "Verification succeeds only if every predicate used in a precondition, effect (also below quantifiers), initial state or goal atom, every type of a constant, parameter or object, every task a method decomposes, every subtask, and every term outside quantified formulae is declared in the scope it is used in (parameters of the enclosing action or method, constants of the domain, objects of the problem, parameters of the initial task network).",
  ["inputs"], "all domains and problems", "Tests contain one undefined name per kind at a fixed place and depth.",
  [SEM + "analyzers", SEM + "undefined_elements.rs", SEM + "type_checker"],
  [("check_predicate_declarations", SEM + "undefined_elements.rs"), ("check_type_declarations", SEM + "type_checker/generic_type_checker.rs"),
   ("is_task_consistent / check_subtask_instantiation", SEM + "type_checker")], (), ["HDDLAnalyzer::verify"])
p("C11", "Every wrong number of arguments is reported",
  "Verification succeeds only if every predicate atom (in preconditions, effects, initial state and goal), every task that a method decomposes, every subtask of a method and every subtask of the initial task network has exactly as many arguments as its declaration has parameters.",
  ["inputs"], "all domains and problems", "Tests use one arity mismatch per site.",
  [SEM + "undefined_elements.rs", SEM + "analyzers/domain_analyzer.rs", SEM + "type_checker"],
  [("arity comparisons", SEM)], (), ["HDDLAnalyzer::verify"])
p("C12", "Arguments must have the declared type or a subtype of it",
  "Verification succeeds only if every argument of a predicate atom outside quantifiers and of a (sub)task has the declared type of the parameter it is passed for or a transitive subtype of it (untyped only for untyped), where the argument's type is the one declared for it in the scope of use.",
  ["inputs"], "all domains and problems", "Tests use shallow hierarchies and one mismatch per site.",
  [SEM + "type_checker"], [("is_var_type_consistent", SEM + "type_checker/generic_type_checker.rs"), ("argument loops", SEM + "type_checker")],
  (), ["HDDLAnalyzer::verify"])
p("C13", "Cyclic type hierarchies and orderings are reported",
  "Verification succeeds only if the declared subtype relation has no cycle and neither the ordering constraints of any method nor those of the initial task network have a cycle; conversely a cycle is reported only if there is one.",
  ["inputs"], "all domains and problems", "Tests contain two or three small cycles.",
  [SEM + "type_checker/generic_type_checker.rs", SYN + "syntax_tree/nodes/htn.rs", SEM + "analyzers"],
  [("verify_type_hierarchy, is_acyclic", "toposort")], (), ["HDDLAnalyzer::verify"])
p("C14", "Semantic errors are true and name the culprit",
  "Every semantic error that verification reports holds of the given files: a reported duplicate really is declared twice (the error carries its name and the lines of the first and of the offending declaration), a reported undefined name really is undeclared, a reported arity or type mismatch really exists and carries the expected and found arity or type, and symbol and line are those of the offending occurrence.",
  ["inputs"], "all domains and problems", "Tests check the payload of a few errors; swapped or stale fields show up only for particular inputs.",
  [SEM], [("error construction", SEM)], (), ["ParsingError::Semantic"])
p("C15", "Unrefinable compound tasks are reported, in order, and only they",
  "A successful verification returns, in declaration order, one warning per compound task from which the task decomposition graph reaches no primitive task and which is not nullable, with that task's name and line, and no other warnings; verifying a problem returns the warnings of its domain.",
  ["inputs"], "all domains and problems", "Tests contain one such domain.",
  [SEM + "analyzers/domain_analyzer.rs", SEM + "analyzers/problem_analyzer.rs"], [("warning loop", SEM + "analyzers/domain_analyzer.rs")],
  (), ["HDDLAnalyzer::verify"])
p("C16", "JSON export contains the whole syntax tree",
  "The JSON export contains the complete syntax tree of the domain under 'domain' and, if a problem is given, that of the problem under 'problem': every field of every node under its own name, with only absent types omitted.",
  ["inputs"], "all accepted files", "No test looks at the JSON output.",
  ["src/lib.rs", SYN + "syntax_tree", "src/lexical_analyzer/token_types.rs"], [("Serialize derives", SYN + "syntax_tree"), ("to_json", "src/lib.rs")],
  (), ["HDDLAnalyzer::to_json"])
p("C17", "Analysis is pure",
  "Verifying, describing or exporting given file contents performs no input or output, starts no thread, reads no clock, environment or global mutable state and never ends the process: the result depends on the given bytes only.",
  ["inputs", "histories"], "all inputs and all sequences of calls", "A test observes return values, not side effects.",
  ["src/lib.rs", "src/lexical_analyzer", "src/syntactic_analyzer", "src/semantic_analyzer", "src/output"],
  [("no I/O below the library API", "call graph of HDDLAnalyzer::{verify,get_metadata,to_json}")], (), ["process effects"])
p("C18", "Results do not depend on hash order",
  "Two runs on the same input give the same result, in the same order and wording: no warning list, error choice, JSON text or metadata text depends on the iteration order of a hash table.",
  ["inputs", "schedules"], "all inputs and all hash seeds", "A test run samples one seed and mostly one-element tables.",
  ["src/lib.rs", SEM, "src/output"], [("ordered containers where order is observable", SEM + "tdg.rs, src/lib.rs")], (), ["all results"])
p("C19", "The command line reports the library's verdict faithfully",
  "The verify, metadata and to_json commands pass exactly the named files to the library; on success they print the warnings followed by an Ok line (verify), the description (metadata) or the JSON (to_json, to the named output file if one is given), and on any unreadable file, write failure or analysis error they print only an error line carrying that error to standard error (the exit status carries no information), and never report success. No command writes any file except the to_json output.",
  ["inputs", "configurations", "fault_sequences"], "all arguments, file contents and file system failures",
  "There are no tests of the command line.",
  ["src/bin/hddl_analyzer/main.rs"], [("main", "src/bin/hddl_analyzer/main.rs")], (), ["standard output, standard error, output file"])
p("C20", "The server diagnoses the latest synchronised text",
  "After any sequence of open, change and save notifications, handled one after another, the text stored for a document is the text of its latest notification (the last content change wins; a save without text re-reads the file and keeps the old text if that fails), other documents are untouched, and a diagnostic request uses exactly the stored text of the requested document, failing only if it was never synchronised.",
  ["histories", "fault_sequences"], "all sequences of notifications and requests",
  "There are no tests of the language server.",
  ["src/language_server/request_handler.rs"], [("sync, did_open, did_change, did_save, diagnostic", "src/language_server/request_handler.rs")],
  [("documents", "uri -> text", "src/language_server/request_handler.rs")], ["LanguageServer trait methods"])
p("C21", "Diagnostics carry the analyser's verdict and line",
  "A domain document yields a diagnostic for exactly the error that parsing or verifying it gives, none if there is none; a problem document one for the error of its domain (found among the files of its folder), if that is invalid, and one for its own (its parse error alone if there is no domain); a document that is neither yields none. Each diagnostic is located on the line of that error (counted from zero), has its message, and for a duplicate also points to the first declaration.",
  ["inputs"], "all documents", "There are no tests of the language server.",
  ["src/language_server/diagnostic_utils.rs"], [("From<ParsingError> for Diagnostic, diagnose_domain, diagnose_problem", "src/language_server/diagnostic_utils.rs")],
  (), ["textDocument/diagnostic response"])
p("C22", "No input makes the analyser panic",
  "For every byte content of the files (nested no deeper than the stack allows), lexing, parsing, verifying, describing, exporting and diagnosing return normally: no index out of range, failed unwrap, arithmetic overflow, unreachable or unfinished branch is reached.",
  ["inputs"], "all byte sequences", "Tests use text files without stray bytes; a panic needs a particular position of the end of the file or a particular construct.",
  ["src"], [("checked accesses", "src")], (), ["process does not abort"])
p("C23", "Reading and parsing always make progress",
  "Every loop and every recursion of the lexer, the parser and the semantic analysis of a file consumes input or walks a finite structure, so analysing any file terminates.",
  ["inputs"], "all byte sequences", "A test cannot show termination for all inputs.",
  ["src/lexical_analyzer", "src/syntactic_analyzer", SEM], [("token consumption on every cycle", SYN)], (), ["termination"])
p("C24", "The stages are combined correctly",
  "Verification of a domain with an optional problem returns the first failure of: parsing the domain, checking the domain, parsing the problem, checking the problem against that domain; it succeeds otherwise. A file that is a problem where a domain is expected, or the other way round, is an error and never a success or a crash; the same holds for metadata (which parses and checks the domain) and JSON export (which only parses).",
  ["inputs", "configurations"], "all pairs of files", "Tests call single stages with matching files.",
  ["src/lib.rs"], [("HDDLAnalyzer", "src/lib.rs")], (), ["HDDLAnalyzer::{verify,get_metadata,to_json}"])
p("C25", "Metadata counts are the declared counts",
  "The metadata of a domain states exactly the number of its actions, compound tasks and methods, lists exactly the tasks computed to be nullable, each once, in alphabetical order, and states the recursion class computed from the decomposition graph.",
  ["inputs"], "all domains", "No test looks at the metadata of the library API.",
  ["src/lib.rs", "src/output/metadata.rs"], [("get_metadata, Display", "src/lib.rs, src/output/metadata.rs")], (), ["HDDLAnalyzer::get_metadata", "metadata command"])
p("C26", "Error messages state what and where",
  "The text of every error and warning states the data the error carries: its line (where the error has one), the offending symbol or token, and the expected and found arity, type or construct, in the right roles, and the wording for different kinds of errors names the right kind of entity.",
  ["inputs"], "all errors and warnings", "Tests match on error values, not on messages.",
  ["src/output"], [("Display implementations", "src/output/errors, src/output/warnings.rs")], (), ["Display of ParsingError, WarningType, MetaData"])
p("C27", "Nullable and reachable tasks are the least fixed points",
  "A task is listed as nullable exactly if it can be decomposed into the empty task network, and the tasks reachable from a task are exactly itself and those occurring in some decomposition of it.",
  ["inputs"], "all domains", "Tests use a handful of small graphs.",
  [SEM + "tdg.rs"], [("compute_nullables, reachable", SEM + "tdg.rs")], (), ["metadata", "warnings"])
p("C28", "The recursion class is the strongest that applies",
  "The recursion class reported by metadata is non-recursive exactly if no task can be decomposed into a network containing itself, and otherwise names a real cycle of (task, method) steps that ends at its first task. A cycle is classed by what stands before the next task of the cycle in each of its methods (before its first occurrence in a totally ordered method; in a partially ordered one the subtasks ordered, transitively, before the occurrence with the fewest of them) and by the rest: recursive if something before is not nullable, otherwise empty recursion if there is no rest, grow-and-shrink if the whole rest is nullable, and growing with empty prefix if not. Of all cycles the reported class is the highest of grow-and-shrink, empty, growing with empty prefix, recursive.",
  ["inputs"], "all domains", "Tests use a handful of small graphs.",
  [SEM + "tdg.rs"], [("get_recursion_type", SEM + "tdg.rs")], (), ["metadata"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
