"""which module decides which property"""
CHECKS = {
    "C17": ("effects", "check", "other"),
}
for _p in ("C09", "C10", "C11", "C12", "C13", "C14", "C15"):
    CHECKS[_p] = ("semantic", "check", "other")
for _p in ("C05", "C06", "C07"):
    CHECKS[_p] = ("parsing", "check", "other")
CHECKS["C08"] = ("parsing", "check_classify", "other")
for _p in ("C01", "C02", "C03", "C04"):
    CHECKS[_p] = ("lexing", "check", "other")
CHECKS["C26"] = ("texts", "check", "other")
EXPLAIN = {
    "C17": "effect analysis: no function reachable (resolved call graph, closures, trait impls of local types) from "
           "verify, get_metadata and to_json calls an input/output, thread, clock, environment or process function, "
           "or touches a mutable global or thread-local",
}
ASSUME = {
    "*": ["the MIR produced by the pinned nightly compiler for the library and the binaries is the program",
          "the models of std, petgraph, serde, tokio and tower-lsp functions listed in DESIGN.md"],
}
TECH = {
    "*": "static analysis: abstract interpretation of the MIR",
    "C17": "static analysis: effect analysis over the resolved call graph (MIR)",
}
_sem = ("abstract interpretation of HDDLAnalyzer::verify (MIR, all callees) on families of abstract syntax trees whose names "
        "and lines are symbols: %s; every abstract path must end in one of the errors that are true of the family, or in success if there is none; "
        "a part of the families is also written as token sequences and interpreted from the parser on")
EXPLAIN["C09"] = _sem % "repeated declarations at every pair of positions of every kind of list"
EXPLAIN["C10"] = _sem % "undeclared predicates, terms, types, tasks in every place, below every operator"
EXPLAIN["C11"] = _sem % "too many and too few arguments in every place, below every operator"
EXPLAIN["C12"] = _sem % "arguments of super-, sibling, unrelated and missing types in every place"
EXPLAIN["C13"] = _sem % "cyclic and acyclic type hierarchies and orderings of every small shape"
EXPLAIN["C14"] = _sem % "all of the families of C09 to C13 and valid ones"
EXPLAIN["C15"] = _sem % "valid domains, the answers of the decomposition graph being unknowns; warnings are compared on each path"
_par = ("abstract interpretation of Parser::parse (MIR, all callees, the lexer replaced by its interface: a stream of tokens whose "
        "names, lines and the token behind a prefix are symbols) on every token prefix of the class G of sentences derived from a reference "
        "grammar, followed by one arbitrary token or lexical error: %s")
EXPLAIN["C05"] = _par % "the parser must go on exactly if the reference grammar can, and accept exactly at its ends"
EXPLAIN["C06"] = _par % "the tree returned for a complete sentence must equal the reference tree"
EXPLAIN["C07"] = _par % "the error for a token that cannot follow must carry that token and its line; a lexical error is passed on unchanged"
EXPLAIN["C08"] = ("abstract interpretation of Parser::classify on an arbitrary stream of tokens and lexical errors: for each header the answer "
                  "is the one stated and the cursor, line and every other field of the lexer are back at the start")
_lex = ("abstract interpretation of LexicalAnalyzer::{get_token, lookahead, get_last_token_position} (MIR, all callees; bytes are sets of "
        "values) on families of files in which bytes are known or arbitrary, under scripts of peeks and reads, against a reference lexer on byte sets: %s")
EXPLAIN["C01"] = _lex % "every token read must be the one its lexeme denotes, every malformed lexeme the matching error quoting it"
EXPLAIN["C02"] = _lex % "the position after every read and peek, and in every error, must be one plus the newlines before the token"
EXPLAIN["C03"] = _lex % "tokens behind every mixture of separators and comments must be those without them"
EXPLAIN["C04"] = _lex % "a peek must give what the read gives, and change nothing that is read later; a read ends where its lexeme ends"
EXPLAIN["C26"] = ("abstract interpretation of the Display implementations (MIR) of every kind of error, warning and token on values whose data are "
                  "symbols: the resulting text, a concatenation of literals and symbols, must state every datum, in its role, and the kind of entity")
NOTE = {}
NA = {}
CHECKS["C24"] = ("stages", "check", "other")
EXPLAIN["C24"] = ("abstract interpretation of HDDLAnalyzer::{verify, get_metadata, to_json} (MIR) with Parser::parse, verify_domain and verify_problem replaced "
                  "by each combination of the outcomes they can have: the result must be that of the first failing stage, or success")
CHECKS["C25"] = ("stages", "metadata", "other")
EXPLAIN["C25"] = ("abstract interpretation of HDDLAnalyzer::get_metadata (MIR) on domains whose lists have given lengths and opaque elements, with the analyses "
                  "of the decomposition graph replaced by given answers in an unsorted order, and of the Display of the description on symbolic data: every field and "
                  "every line must be the right one; whole domains, written as token sequences, are interpreted from the parser to the description")
CHECKS["C16"] = ("jsonexp", "check", "other")
EXPLAIN["C16"] = ("abstract interpretation of the Serialize implementation (MIR, as generated by the compiler) of every type of the syntax tree on values whose parts are "
                  "symbols, present or absent, and of HDDLAnalyzer::to_json with given trees: the members written must be exactly the fields, under their names")
CHECKS["C19"] = ("cli", "check", "other")
EXPLAIN["C19"] = ("abstract interpretation of main of the command line program (MIR) for every command, with file reads and writes and the library replaced by "
                  "each combination of the outcomes they can have: the calls of the library, the text on standard output and error and the files written are compared with those stated")
CHECKS["C20"] = ("lsp", "check", "other")
EXPLAIN["C20"] = ("abstract interpretation of the notification and request handlers of the language server (MIR, the coroutines of the async functions) on all "
                  "short sequences of notifications with symbolic texts: the text that a following diagnostic request analyses must be that of the latest notification, and no lock is requested while held")
CHECKS["C21"] = ("lsp", "diagnostics", "other")
EXPLAIN["C21"] = ("abstract interpretation of LanguageServer::diagnostic (MIR, coroutines) with the analysis stages, the folder and the files replaced by each combination "
                  "of the outcomes they can have, and of From<ParsingError> for Diagnostic on every kind of error with symbolic data: reported errors, ranges, messages and pointers are compared with those stated")
_gr = ("abstract interpretation of TDG::{new, %s} (MIR, all callees) on families of domains given by the shape of their decomposition graph, names and lines "
       "being symbols: %s; shapes are also written as token sequences and interpreted from the parser to the metadata")
CHECKS["C27"] = ("graph", "check", "other")
EXPLAIN["C27"] = _gr % ("compute_nullables, reachable", "the nullable and the reachable tasks must be the least fixed points computed by a reference")
CHECKS["C28"] = ("graph", "check", "other")
EXPLAIN["C28"] = _gr % ("get_recursion_type", "the class must be the one computed by a reference from all simple cycles, and the cycle a real one of that class")
_rob = ("abstract interpretation (MIR) of the lexer on byte families, of Parser::parse on token prefixes, of the analysis on syntax trees with symbolic names and of the "
        "decomposition graph on shapes, of whole token sequences from the parser to the result%s")
CHECKS["C22"] = ("robust", "check", "other")
EXPLAIN["C22"] = _rob % ", of the server, the export and the texts on every kind of value: no abstract path may end in a panic (failed assertion, unwrap, index, overflow, unreachable code)"
CHECKS["C23"] = ("robust", "check", "other")
EXPLAIN["C23"] = _rob % ", all visits of a loop kept apart: no loop may reach a state again, and no loop or recursion may outgrow the explicit input"
CHECKS["C18"] = ("hashes", "check", "other")
EXPLAIN["C18"] = ("relational abstract interpretation (MIR): verify, the decomposition graph, get_metadata, to_json and the server are interpreted twice on the same abstract input, "
                  "with hash tables that hand out their elements in the order of insertion and in the reverse of it (both are possible orders): the results must be equal")
