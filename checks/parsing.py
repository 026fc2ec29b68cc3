"""C05-C08: abstract interpretation of the parser over token sequences.

The lexer is replaced by an abstract token stream: a known prefix (its names and lines are symbols) followed by one
arbitrary token, which is refined only by what the parser asks about it.  The reference is the grammar below: at every
point it says which tokens may follow and, when the file is complete, which syntax tree it denotes."""
import os, traceback
import absint, par, astb
from astb import struct, enum, vec, nm, pos
from terms import *
from seqs import *
from absint import Budget


# ------------------------------------------------------------------ tokens
class Tok:
    def __init__(self, cls, i, text=None):
        self.cls, self.i, self.text = cls, i, text

    def name(self):
        return mk("nm", "%s@%d" % (self.text or "id", self.i)) if self.text is None or not self.text.startswith("=") else mk("nm", self.text)

    def pos(self):
        return pos("token %d" % self.i)

    def term(self):
        c = self.cls
        if c == "id":
            return enum("Token", "Identifier", self.name())
        if c == "num":
            return enum("Token", "Number", mk("sym", "number@%d" % self.i))
        if c in PUNCT:
            return enum("Token", "Punctuator", enum("PunctuationType", PUNCT[c]))
        if c == "eof":
            return enum("Token", "EOF")
        k, v = c.split(":", 1)
        if k == "kw":
            return enum("Token", "Keyword", enum("KeywordName", v))
        if k == "op":
            return enum("Token", "Operator", enum("OperationType", v))
        if k == "req":
            return enum("Token", "Requirement", enum("RequirementType", v))
        raise KeyError(c)


PUNCT = {"(": "LParentheses", ")": "RParentheses", "-": "Dash"}
WORDS = {"define": "kw:Define", "domain": "kw:Domain", "problem": "kw:Problem", "and": "op:And", "or": "op:Or", "oneof": "op:Xor",
         "not": "op:Not", "forall": "op:ForAll", "exists": "op:Exists", "imply": "op:Implication", "probabilistic": "op:Probabilistic",
         "=": "op:Equal", "<": "op:LessThan", ">": "op:GreaterThan", "<=": "op:LessThanOrEqual", ">=": "op:GreaterThanOrEqual"}
KWS = {"requirements": "Requirements", "objects": "Objects", "types": "Types", "constants": "Constants", "predicates": "Predicates",
       "functions": "Functions", "init": "Init", "htn": "HTN", "task": "Task", "action": "Action", "parameters": "Parameters",
       "method": "Method", "precondition": "Precondition", "effect": "Effect", "subtasks": "Subtasks",
       "ordered-subtasks": "OrderedSubtasks", "ordering": "Ordering", "constraints": "Constraints", "goal": "Goal"}


def classes():
    out = list(PUNCT) + ["id", "num", "eof", "err"]
    for e, k in (("KeywordName", "kw"), ("OperationType", "op"), ("RequirementType", "req")):
        out += ["%s:%s" % (k, v["name"]) for v in astb.info(e)["variants"]]
    return out


def toks(text):
    out = []
    reqs = [v["name"] for v in astb.info("RequirementType")["variants"]]
    nreq = 0
    for w in text.replace("(", " ( ").replace(")", " ) ").split():
        i = len(out)
        if w in PUNCT:
            out.append(Tok(w, i))
        elif w in WORDS:
            out.append(Tok(WORDS[w], i))
        elif w == ":req":
            out.append(Tok("req:" + reqs[nreq % len(reqs)], i))
            nreq += 1
        elif w.startswith(":"):
            out.append(Tok("kw:" + KWS[w[1:]], i))
        elif w[0].isdigit():
            out.append(Tok("num", i))
        else:
            out.append(Tok("id", i, w))
    return out


# ------------------------------------------------------------------ the grammar
class Need(Exception):
    """the prefix is exhausted; these classes may follow"""
    def __init__(self, cls):
        self.cls = cls


class Bad(Exception):
    pass


class G:
    def __init__(self, ts):
        self.ts, self.i = ts, 0

    def look(self, *cls):
        """the class of the next token, which must be one of cls"""
        want = set()
        for c in cls:
            want |= set(ALL_REQ) if c == "req" else {c}
        if self.i >= len(self.ts):
            raise Need(want)
        c = self.ts[self.i].cls
        if c not in want:
            raise Bad()
        return c

    def take(self, *cls):
        self.look(*cls)
        self.i += 1
        return self.ts[self.i - 1]

    # file := '(' define '(' (domain ... | problem ...)
    def file(self):
        self.take("(")
        self.take("kw:Define")
        self.take("(")
        if self.take("kw:Domain", "kw:Problem").cls == "kw:Domain":
            return ok(enum("AbstractSyntaxTree", "Domain", self.domain()))
        return ok(enum("AbstractSyntaxTree", "Problem", self.problem()))

    def domain(self):
        name = self.take("id").name()
        self.take(")")
        d = dict(types=None, constants=None, requirements=[], predicates=[], compound_tasks=[], methods=[], actions=[], functions=[])
        while self.take("(", ")").cls == "(":
            k = self.take("kw:Predicates", "kw:Functions", "kw:Task", "kw:Method", "kw:Action", "kw:Requirements", "kw:Types",
                          "kw:Constants").cls[3:]
            if k == "Predicates":
                d["predicates"] += self.atoms("Predicate")
            elif k == "Functions":
                d["functions"] += self.atoms("Function")
            elif k == "Requirements":
                d["requirements"] += self.reqs()
            elif k in ("Types", "Constants"):
                xs = self.args()
                if xs:
                    d[k.lower()] = (d[k.lower()] or []) + xs
            elif k == "Task":
                d["compound_tasks"].append(self.task("Task"))
                self.take(")")
            elif k == "Action":
                d["actions"].append(self.action())
            else:
                d["methods"].append(self.method())
        return struct("DomainAST", name=name, types=NONE if d["types"] is None else some(vec(*d["types"])),
                      constants=NONE if d["constants"] is None else some(vec(*d["constants"])),
                      **{k: vec(*d[k]) for k in ("requirements", "predicates", "compound_tasks", "methods", "actions", "functions")})

    def problem(self):
        self.take("id")
        self.take(")")
        self.take("(")
        self.take("kw:Domain")
        self.take("id")
        self.take(")")
        p = dict(requirements=[], init_tn=NONE, init_state=[], goal=NONE, objects=[])
        while self.take("(", ")", "eof").cls == "(":
            k = self.take("kw:Requirements", "kw:Objects", "kw:HTN", "kw:Goal", "kw:Init").cls[3:]
            if k == "Requirements":
                p["requirements"] += self.reqs()
            elif k == "Objects":
                p["objects"] += self.args()
            elif k == "HTN":
                p["init_tn"] = some(self.init_tn())
            elif k == "Init":
                p["init_state"] = self.atoms("Predicate")
            else:
                f = self.formula()
                self.take(")")
                p["goal"] = some(f)
        for k in ("requirements", "init_state", "objects"):
            p[k] = vec(*p[k])
        return struct("ProblemAST", **p)

    def reqs(self):
        out = []
        while True:
            t = self.take("req", ")")
            if t.cls == ")":
                return out
            out.append(enum("RequirementType", t.cls[4:]))

    # args := { id | '-' id } ')'
    def args(self):
        out, pend = [], []
        while True:
            t = self.take("id", "-", ")")
            if t.cls == "id":
                pend.append(t)
            elif t.cls == "-":
                ty = self.take("id")
                out += [struct("Symbol", name=x.name(), name_pos=x.pos(), symbol_type=some(ty.name()), type_pos=some(ty.pos())) for x in pend]
                pend = []
            else:
                return out + [self.plain(x) for x in pend]

    def plain(self, x):
        return struct("Symbol", name=x.name(), name_pos=x.pos(), symbol_type=NONE, type_pos=NONE)

    # atoms := { '(' id args } ')'
    def atoms(self, kind):
        out = []
        while self.take("(", ")").cls == "(":
            out.append(self.atom(kind))
        return out

    def atom(self, kind):
        n = self.take("id")
        return struct(kind, name=n.name(), name_pos=n.pos(), variables=vec(*self.args()))

    def task(self, kind):
        n = self.take("id")
        self.take("kw:Parameters")
        self.take("(")
        return struct("Task", name=n.name(), name_pos=n.pos(), parameters=vec(*self.args()))

    def action(self):
        n = self.take("id")
        self.take("kw:Parameters")
        self.take("(")
        ps = self.args()
        pre = eff = NONE
        if self.look("kw:Precondition", "kw:Effect", ")") == "kw:Precondition":
            self.take("kw:Precondition")
            pre = some(self.formula())
        if self.look("kw:Effect", ")") == "kw:Effect":
            self.take("kw:Effect")
            eff = some(self.formula())
        self.take(")")
        return struct("Action", name=n.name(), name_pos=n.pos(), parameters=vec(*ps), preconditions=pre, effects=eff)

    def method(self):
        n = self.take("id")
        self.take("kw:Parameters")
        self.take("(")
        ps = self.args()
        self.take("kw:Task")
        self.take("(")
        t = self.take("id")
        terms = self.args()
        pre = NONE
        if self.look("kw:Precondition", "kw:Subtasks", "kw:OrderedSubtasks") == "kw:Precondition":
            self.take("kw:Precondition")
            pre = some(self.formula())
        tn = self.htn()
        return struct("Method", name=self.plain(n), task=self.plain(t), task_terms=vec(*terms), params=vec(*ps), precondition=pre, tn=tn)

    def init_tn(self):
        k = self.look("kw:Parameters", "kw:Subtasks", "kw:OrderedSubtasks", ")")
        ps = NONE
        if k == "kw:Parameters":
            self.take(k)
            self.take("(")
            ps = some(vec(*self.args()))
        return struct("InitialTaskNetwork", parameters=ps, tn=self.htn())

    def htn(self):
        def make(subs, op, total, orders, cons):
            o = enum("TaskOrdering", "Total") if total else enum("TaskOrdering", "Partial", vec(*orders))
            return struct("HTN", subtasks=vec(*subs), ordering_pos=op, orderings=o, constraints=cons)
        k = self.take(")", "kw:Subtasks", "kw:OrderedSubtasks").cls
        if k == ")":
            return make([], NONE, False, [], NONE)
        subs = self.subtasks()
        cons = NONE
        if k == "kw:OrderedSubtasks":
            if self.take(")", "kw:Constraints").cls == "kw:Constraints":
                cons = some(vec(*self.constraints()))
                self.take(")")
            return make(subs, NONE, True, [], cons)
        op, orders = NONE, []
        while True:
            t = self.take(")", "kw:Ordering", "kw:Constraints")
            if t.cls == ")":
                return make(subs, op, False, orders, cons)
            if t.cls == "kw:Constraints":
                cons = some(vec(*self.constraints()))
                continue
            op = some(t.pos())
            self.take("(")
            u = self.take("op:And", "op:LessThan", ")").cls
            if u == "op:And":
                while self.take("(", ")").cls == "(":
                    self.take("op:LessThan")
                    orders += self.ordering()
            elif u == "op:LessThan":
                orders += self.ordering()

    def ordering(self):
        a = self.take("id")
        out = []
        while True:
            b = self.take("id", ")")
            if b.cls == ")":
                return out
            out.append(tup(a.name(), b.name()))

    def subtasks(self):
        self.take("(")
        k = self.take("op:And", "id", ")")
        if k.cls == ")":
            return []
        if k.cls == "id":
            return [self.subtask(k)]
        out = []
        while self.take("(", ")").cls == "(":
            out.append(self.subtask(self.take("id")))
        return out

    def subtask(self, first):
        t = self.take("(", "id", ")")
        terms = []
        if t.cls == "(":
            task = self.take("id")
            while True:
                t = self.take("id", ")")
                if t.cls == ")":
                    break
                terms.append(self.plain(t))
            self.take(")")
            return struct("Subtask", id=some(self.plain(first)), task=self.plain(task), terms=vec(*terms))
        while t.cls == "id":
            terms.append(self.plain(t))
            t = self.take("id", ")")
        return struct("Subtask", id=NONE, task=self.plain(first), terms=vec(*terms))

    def constraints(self):
        self.take("(")
        k = self.look(")", "op:And", "op:Not", "op:Equal")
        if k == ")":
            self.take(")")
            return []
        if k != "op:And":
            return [self.constraint()]
        self.take("op:And")
        out = []
        while self.take("(", ")").cls == "(":
            out.append(self.constraint())
        return out

    def constraint(self):
        if self.take("op:Not", "op:Equal").cls == "op:Equal":
            a, b = self.take("id"), self.take("id")
            self.take(")")
            return enum("Constraint", "Equal", a.name(), b.name())
        self.take("(")
        self.take("op:Equal")
        a, b = self.take("id"), self.take("id")
        self.take(")")
        self.take(")")
        return enum("Constraint", "NotEqual", a.name(), b.name())

    FIRST = ("op:Not", "op:And", "op:Xor", "op:Or", "op:Equal", "op:ForAll", "op:Exists", "op:Probabilistic", "id")

    def formula(self, empty=True):
        self.take("(")
        t = self.take(*(self.FIRST + ((")",) if empty else ())))
        k = t.cls
        if k == ")":
            return enum("Formula", "Empty")
        if k == "id":
            return enum("Formula", "Atom", struct("Predicate", name=t.name(), name_pos=t.pos(), variables=vec(*self.args())))
        if k == "op:Not":
            f = self.formula()
            self.take(")")
            return enum("Formula", "Not", f)
        if k in ("op:And", "op:Or", "op:Xor"):
            fs = []
            while self.look("(", ")") == "(":
                fs.append(self.formula())
            self.take(")")
            return enum("Formula", k[3:], vec(*fs))
        if k == "op:Equal":
            a, b = self.take("id"), self.take("id")
            self.take(")")
            return enum("Formula", "Equals", a.name(), b.name())
        if k in ("op:ForAll", "op:Exists"):
            self.take("(")
            vs = self.args()
            f = self.formula()
            self.take(")")
            return enum("Formula", k[3:], vec(*vs), f)
        fs = []
        while True:
            w = self.take("num", ")")
            if w.cls == ")":
                return enum("Formula", "And", vec(*fs))
            f = self.formula(empty=False)
            fs.append(enum("Formula", "Weighted", w.term().a[2][0], f))


ALL_REQ = []


def expectation(prefix):
    """('need', classes) or None if the prefix is not viable"""
    g = G(prefix)
    try:
        g.file()
    except Need as n:
        return n.cls
    except Bad:
        return None
    return None


def tree(ts):
    g = G(ts)
    try:
        return g.file(), g.i
    except (Need, Bad):
        return None, g.i


# ------------------------------------------------------------------ sentences
FORMULAE = [
    "( p )", "( p ?x )", "( p ?x - t k )", "( )", "( not ( p ?x ) )", "( and )", "( and ( p ) )", "( and ( p ?x ) ( q ) ( ) )",
    "( or ( p ) ( not ( q ?x ) ) )", "( or )", "( oneof ( p ) ( q ) ( r ) )", "( oneof )", "( = ?x ?y )", "( forall ( ?x - t ?y ) ( p ?x ) )",
    "( exists ( ) ( or ( p ) ) )", "( exists ( ?x ?y - t ) ( exists ( ?z ) ( p ?z ) ) )", "( probabilistic 1 ( p ) 2 ( not ( q ) ) )",
    "( probabilistic )", "( and ( forall ( ?x ) ( and ( p ) ) ) ( = ?a ?b ) ( probabilistic 5 ( and ( r ) ) ) )",
    "( not ( forall ( ?x ) ( not ( p ?x ) ) ) )", "( and ( and ( and ( p ) ( q ) ) ( or ) ) ( oneof ( p ?x ?y ) ) )",
    "( not ( ) )", "( forall ( ) ( ) )", "( not ( = ?x ?y ) )", "( probabilistic 1 ( probabilistic 2 ( p ) ) )",
    "( exists ( ?x ) ( and ( p ?x ) ( q ) ) )", "( not ( not ( p ) ) )", "( not ( and ) )", "( or ( and ( p ) ) ( exists ( ) ( q ) ) ( = ?x ?y ) )",
    "( oneof ( or ( p ) ) ( and ( q ) ( r ) ) ( not ( s ) ) )",
]
TNS = [
    ")", ":subtasks ( ) )", ":subtasks ( t ) )", ":subtasks ( t ?x ?y ) )", ":subtasks ( and ) )", ":subtasks ( a ( t ?x ) ) )",
    ":subtasks ( and ( a ( t ) ) ( u ?x ) ( b ( v ?x ?y ) ) ( w ) ) )", ":subtasks ( a ( t ) ) :ordering ( ) )",
    ":subtasks ( and ( a ( t ) ) ( b ( t ) ) ( c ( t ) ) ) :ordering ( and ( < a b ) ( < b c ) ) )",
    ":subtasks ( and ( a ( t ) ) ) :ordering ( < a b c ) )", ":subtasks ( ) :ordering ( and ( < a b c d ) ( < e ) ) )",
    ":subtasks ( ) :ordering ( and ) )", ":subtasks ( ) :constraints ( ) )", ":subtasks ( ) :constraints ( = ?x ?y ) )",
    ":subtasks ( ) :constraints ( not ( = ?x ?y ) ) )",
    ":subtasks ( ) :constraints ( and ( = ?x ?y ) ( not ( = ?a ?b ) ) ( = ?c ?d ) ) )", ":subtasks ( ) :constraints ( and ) )",
    ":subtasks ( ) :ordering ( < a b ) :constraints ( and ( not ( = ?x ?y ) ) ) )",
    ":subtasks ( ) :constraints ( = ?x ?y ) :ordering ( < a b ) )", ":subtasks ( ) :ordering ( < a b ) :ordering ( < b c ) )",
    ":ordered-subtasks ( ) )", ":ordered-subtasks ( t ?x ) )", ":ordered-subtasks ( a ( t ?x ?y ?z ) ) )",
    ":ordered-subtasks ( and ( a ( t ) ) ( u ?x ) ) )", ":ordered-subtasks ( and ( t ) ) :constraints ( = ?x ?y ) )",
    ":ordered-subtasks ( ) :constraints ( and ( not ( = ?x ?y ) ) ( = ?a ?b ) ) )", ":ordered-subtasks ( ) :constraints ( ) )",
    ":subtasks ( ) :ordering ( < a ) )",
]
ARGS = ["", "a", "a b c", "a - t", "a b - t", "a - t b - u", "a - t b c", "a b - t c d - u e", "a b - t c - u d e - v", "- t", "a - t - u"]


def sentences(deep):
    H = "( define ( domain d ) "
    P = "( define ( problem p ) ( domain d ) "
    yield H + ")"
    yield P + ")"
    long_args = " ".join("x%d%s" % (i, " - t%d" % i if i % 7 == 6 else "") for i in range(40))
    for a in ARGS + [long_args]:
        yield H + "( :types %s ) )" % a
        yield H + "( :constants %s ) )" % a
        yield H + "( :predicates ( p %s ) ) )" % a
        yield H + "( :functions ( f %s ) ) )" % a
        yield H + "( :task t :parameters ( %s ) ) )" % a
        yield H + "( :action t :parameters ( %s ) ) )" % a
        yield H + "( :method m :parameters ( %s ) :task ( t ) :subtasks ( ) ) )" % a
        yield H + "( :method m :parameters ( ) :task ( t %s ) :subtasks ( ) ) )" % a
        yield H + "( :action t :parameters ( ) :precondition ( p %s ) ) )" % a
        yield H + "( :action t :parameters ( ) :effect ( forall ( %s ) ( q ) ) ) )" % a
        yield P + "( :objects %s ) )" % a
        yield P + "( :init ( p %s ) ) )" % a
        yield P + "( :htn :parameters ( %s ) ) )" % a
    for f in FORMULAE:
        yield H + "( :action a :parameters ( ) :precondition %s ) )" % f
        yield H + "( :action a :parameters ( ) :effect %s ) )" % f
        yield H + "( :method m :parameters ( ) :task ( t ) :precondition %s ) )" % f
        yield P + "( :goal %s ) )" % f
    for t in TNS:
        if t != ")":
            yield H + "( :method m :parameters ( ) :task ( t ) " + t + " )"
        yield H + "( :method m :parameters ( ) :task ( t ) :precondition ( p ) " + t + " )"
        yield P + "( :htn " + t + " )"
        yield P + "( :htn :parameters ( ) " + t + " )"
    yield H + "( :requirements :req :req :req :req :req :req :req ) )"
    yield H + "( :requirements ) )"
    yield P + "( :requirements :req :req ) )"
    yield H + "( :predicates ) ( :functions ) ( :types ) ( :constants ) )"
    yield H + "( :predicates ( p ) ( q ?x ?y - t ) ( r ) ) ( :functions ( f ) ( g ?x ) ( h ) ) )"
    sec = ["( :requirements :req )", "( :types a - b c )", "( :constants k - a l )", "( :predicates ( p ?x ) ( q ) )", "( :functions ( f ) )",
           "( :task t :parameters ( ?x ) )", "( :method m :parameters ( ?x ) :task ( t ?x ) :subtasks ( and ( a ( u ) ) ( b ( v ) ) ) :ordering ( < a b ) )",
           "( :action u :parameters ( ?z ) :precondition ( p ?z ) :effect ( not ( p ?z ) ) )"]
    yield H + " ".join(sec) + " )"
    yield H + " ".join(reversed(sec)) + " )"
    for s in sec:
        yield H + s + " " + s + " )"
        yield H + s + " " + s + " " + s + " )"
    psec = ["( :requirements :req )", "( :objects a - b c )", "( :htn :parameters ( ?x - t ) :subtasks ( and ( a ( u ) ) ( b ( v ?x ) ) ) :ordering ( < a b ) )",
            "( :init ( p ) ( q a b ) )", "( :goal ( and ( p ) ( not ( q a ) ) ) )"]
    yield P + " ".join(psec) + " )"
    yield P + " ".join(reversed(psec)) + " )"
    for s in psec:
        yield P + s + " " + s + " )"


# ------------------------------------------------------------------ running the parser
def body_of(world, ty, name):
    bs = [b for b in world.lib.bodies.values() if b.name == name and b.kind == "fn" and b.impl is not None
          and world.lib.peel(b.impl).get("path", "").split("::")[-1] == ty]
    if len(bs) != 1:
        raise KeyError("%s::%s" % (ty, name))
    return bs[0]


TOK = mk("sym", "TOKEN")


class PRun:
    def __init__(self, world, prefix, entry="parse", unknown=True, steps=200000, ends=False, tries=False):
        """ends: the file ends behind the prefix, otherwise one arbitrary token follows; tries: every visit of a loop is kept apart"""
        self.e = e = absint.Eng(world, steps)
        if ends or tries:
            e.unroll, e.maxdepth = True, absint.DEEP
        elif len(prefix) > 100:
            e.maxdepth = 400
        self.prefix = prefix
        n = len(prefix)
        self.beyond = []
        self.peeked_beyond = False
        e.hooks[("Display", "Token")] = lambda call, st, v: [(st, mk("disp", v))]
        e.hooks[("Display", "Formula")] = lambda call, st, v: [(st, mk("disp", v))]
        e.sites = ("SyntacticError",)
        e.world_shape = lambda st, name, v: v.n if isinstance(v, T) else v
        terms = [t.term() for t in prefix]
        self.lexerr = lexerr = struct("LexicalError", error_type=mk("sym", "LEXERR"), lexeme=mk("sym", "LEXEME"), position=pos("token %d" % n))

        def read(call, peek):
            st = call.st
            i = st.world["cur"].a[0]
            if ends and i >= n:
                st.world["last"] = I(n)
                return [(st, ok(enum("Token", "EOF")))]
            if i > n or not unknown and i >= n:
                if peek:
                    self.peeked_beyond = True
                self.beyond.append((st, i))
                return []
            if i < n:
                v = [(st, ok(terms[i]))]
            else:
                if st.world.get("lexerr") is None:
                    s2 = st.copy()
                    s2.world["lexerr"] = TRUE
                    st.world["lexerr"] = FALSE
                    v = [(st, ok(TOK)), (s2, err(lexerr))]
                elif st.world["lexerr"] is TRUE:
                    v = [(st, err(lexerr))]
                else:
                    v = [(st, ok(TOK))]
            for s, _ in v:
                s.world["last"] = I(i)
                if not peek:
                    s.world["cur"] = I(i + 1)
            return v
        e.hooks[("LexicalAnalyzer", "get_token")] = lambda call: read(call, False)
        e.hooks[("LexicalAnalyzer", "lookahead")] = lambda call: read(call, True)

        def last(call):
            i = call.st.world["last"].a[0]
            return call.ret(pos("token %d" % i) if i >= 0 else pos("start"))
        e.hooks[("LexicalAnalyzer", "get_last_token_position")] = last

        def reset(call):
            call.st.world["cur"] = I(0)
            return call.ret(UNIT)
        e.hooks[("LexicalAnalyzer", "reset_cursor")] = reset
        st = absint.St()
        st.world["cur"], st.world["last"] = I(0), I(-1)
        names = [x[0] for x in astb.info("Parser")["variants"][0]["fields"]]
        p = struct("Parser", **{names[0]: mk("sym", "LEXER")})
        b = body_of(world, "Parser", entry)
        for nme in ("get_token", "lookahead", "get_last_token_position"):
            body_of(world, "LexicalAnalyzer", nme)
        k = e.new_cell(st, p)
        e.pinned.append(k)
        self.outs = e.call_body(st, b, [mk("ptr", k, ())], 0)


def possible(e, st, n, cls):
    """can the unknown token be of this class on this path?"""
    lx = st.world.get("lexerr")
    if cls == "err":
        return lx is TRUE or lx is None
    if lx is TRUE:
        return False
    t = Tok(cls, n).term()
    s = st.copy()
    for k, d in list(s.dom.items()):
        k2 = subst(k, {TOK: t}, {})
        if k2.op == "adt" and k2.a[5] not in d:
            return False
    try:
        return s.subst({TOK: t}) is not False
    except Exception:
        return True


def disp_ok(e, st, got, t):
    """does the text show the token?"""
    if got.op == "disp" and got.a[0] is t:
        return True
    if got.op == "str":
        c = {v: k for k, v in PUNCT.items()}
        if t.op == "adt" and t.a[5] == "Punctuator":
            return got.a[0] == c[t.a[2][0].a[5]]
        return False if t.op == "adt" else None
    if got.op == "disp" and got.a[0].op == "adt" and t.op == "adt":
        return e.truth(st, eq(got.a[0], t))
    return None


def judge(world, prefix, text):
    res, n_ok, n_un, why = [], 0, 0, set()
    n = len(prefix)
    accept = expectation(prefix)
    if accept is None:
        return res, 0, 0, why, 0
    r = PRun(world, prefix)
    e = r.e
    cl = classes()
    outs = [("beyond", st, None) for st, i in r.beyond] + [("done", st, v) for st, v in r.outs]
    shown = text_of(prefix)
    for kind, st, v in outs:
        if st.taint or st.lossy:
            n_un += 1
            why.add("imprecise path: " + ("; ".join(sorted(map(str, st.taint))) or "joined facts"))
            continue
        poss = [c for c in cl if possible(e, st, n, c)]
        where = "%s (%s)" % (st.via[0], st.via[2]) if st.via else parser_where(world)
        touched = st.world["cur"].a[0] > n or st.world.get("lexerr") is not None
        if kind == "beyond":
            bad = [c for c in poss if c not in accept and c != "err"]
            if "err" in poss and st.world.get("lexerr") is TRUE:
                res.append(("C07", "lexical error ignored", parser_where(world), "the parser reads on after an unreadable lexeme following: " + shown))
            elif bad:
                if r.peeked_beyond:
                    n_un += 1
                    why.add("looks beyond an unchecked token")
                else:
                    res.append(("C05", "accepts %s after: %s" % (bad[0], tail(prefix)), reader(world, st), "the parser reads on although %s cannot follow: %s" % (
                        ", ".join(bad[:5]), shown)))
            else:
                n_ok += 1
            continue
        if v.op != "adt" or v.a[5] not in ("Ok", "Err"):
            n_un += 1
            why.add("result not determined")
            continue
        if v.a[5] == "Ok":
            for c in poss:
                if c == "err":
                    if touched:
                        res.append(("C07", "lexical error ignored", parser_where(world), "success despite an unreadable lexeme after: " + shown))
                    continue
                t = Tok(c, n)
                exp, used = tree(list(prefix) + [t])
                if exp is None:
                    if not touched:
                        # finished without looking at the token: accepted too early
                        pass
                    res.append(("C05", "complete after: %s %s" % (tail(prefix), c), parser_where(world), "the parser accepts the incomplete or malformed file: %s %s" % (shown, c)))
                    break
                s = st.copy()
                s.subst({TOK: t.term()})
                got = subst(v, {TOK: t.term()}, {})
                got = resolve(e, s, got)
                tv = same(e, s, got, exp)
                if tv is True:
                    n_ok += 1
                elif tv is False:
                    res.append(("C06", "tree of: %s" % tail(prefix), parser_where(world), "the file %s %s denotes %s but the parser gives %s" % (
                        shown, c, show(exp)[:700], diff(e, s, got, exp))))
                    break
                else:
                    n_un += 1
                    why.add("tree not determined: " + diff(e, s, got, exp)[:120])
            continue
        x = v.a[2][0]
        for c in poss:
            if c == "err":
                want = err(enum("ParsingError", next(v["name"] for v in astb.info("ParsingError")["variants"] if v["name"].startswith("Lex")), r.lexerr))
                tv = e.truth(st, eq(v, want))
                if st.world.get("lexerr") is not TRUE:
                    # rejected without looking at the token
                    res.append(("C07", "early rejection after: " + tail(prefix), where, "rejected before the offending token is read: " + shown))
                    break
                if tv is False:
                    res.append(("C07", "lexical error replaced after: " + tail(prefix), where, "an unreadable lexeme after '%s' gives %s" % (shown, show(v)[:300])))
                elif tv is True:
                    n_ok += 1
                else:
                    n_un += 1
                    why.add("error not determined")
                continue
            if c in accept:
                res.append(("C05", "rejects %s after: %s" % (c, tail(prefix)), where, "the parser rejects %s after: %s" % (c, shown)))
                break
            t = Tok(c, n).term()
            s = st.copy()
            s.subst({TOK: t})
            xx = resolve(e, s, subst(x, {TOK: t}, {}))
            if not (xx.op == "adt" and xx.a[5] == "Syntactic" and xx.a[2][0].op == "adt"):
                if xx.op == "adt" and xx.a[5] != "Syntactic":
                    res.append(("C07", "wrong kind of error after: " + tail(prefix), where, "%s after '%s' gives %s" % (c, shown, show(xx)[:300])))
                    break
                n_un += 1
                why.add("error not determined")
                continue
            se = xx.a[2][0]
            f = dict(zip(se.a[4], se.a[2]))
            got_f, got_p = f.get("found"), f.get("position")
            d = disp_ok(e, s, got_f, t) if got_f is not None else None
            # lines of different tokens are different unknowns: a file with a newline between them tells them apart
            pp = same(e, s, got_p, pos("token %d" % n)) if got_p is not None else None
            if d is False or pp is False:
                res.append(("C07", "error after: " + tail(prefix), where, "%s after '%s' is reported as found=%s position=%s" % (c, shown, show(got_f), show(got_p))))
                break
            if d is None or pp is None:
                n_un += 1
                why.add("error text not determined: %s" % show(got_f)[:100])
            else:
                n_ok += 1
    for st, stk, sp, what in e.panics:
        if not (st.taint or st.lossy):
            b = stk[-1] if stk else None
            res.append(("C22", "panic in %s: %s" % (b.short() if b else "?", what), "%s (%s)" % (b.short() if b else "?", sp), "reached after: " + shown))
    return res, n_ok, n_un, why, len(e.functions)


def resolve(e, st, v):
    return v


def same(e, st, a, b):
    """deep comparison of a result with the expected tree"""
    a = e.deref(st, a) if a.op == "ptr" else a
    if a is b:
        return True
    if a.op == "adt" and b.op == "adt":
        if a.a[5] != b.a[5] or len(a.a[2]) != len(b.a[2]):
            return False
        r = True
        for x, y in zip(a.a[2], b.a[2]):
            t = same(e, st, x, y)
            if t is False:
                return False
            if t is None:
                r = None
        return r
    if a.op == "coll" and b.op == "coll":
        if any(k != "e" for k, _ in a.a[1] + b.a[1]):
            return None
        if len(a.a[1]) != len(b.a[1]):
            return False
        r = True
        for (_, x), (_, y) in zip(a.a[1], b.a[1]):
            t = same(e, st, x, y)
            if t is False:
                return False
            if t is None:
                r = None
        return r
    if a.op == "tup" and b.op == "tup":
        r = True
        for x, y in zip(a.a[0], b.a[0]):
            t = same(e, st, x, y)
            if t is False:
                return False
            if t is None:
                r = None
        return r
    if a.op in ("nm", "line", "sym", "str", "int") and b.op in ("nm", "line", "sym", "str", "int"):
        if a.op == "sym" or b.op == "sym":
            return None if a.op != b.op else a is b
        return a is b
    return e.truth(st, eq(a, b))


def diff(e, st, a, b, path=""):
    if same(e, st, a, b) is True:
        return ""
    if a.op == "adt" and b.op == "adt" and a.a[5] == b.a[5]:
        for n, x, y in zip(a.a[4] or range(9), a.a[2], b.a[2]):
            if same(e, st, x, y) is not True:
                return diff(e, st, x, y, path + "." + str(n))
    if a.op == "coll" and b.op == "coll" and len(a.a[1]) == len(b.a[1]):
        for i, ((_, x), (_, y)) in enumerate(zip(a.a[1], b.a[1])):
            if same(e, st, x, y) is not True:
                return diff(e, st, x, y, path + "[%d]" % i)
    return "%s = %s instead of %s" % (path, show(a)[:250], show(b)[:250])


def text_of(p):
    out = []
    for t in p:
        c = t.cls
        out.append(t.text if c == "id" else c.split(":")[-1])
    return " ".join(out)


def tail(p):
    return text_of(p[-6:])


def parser_where(world):
    b = body_of(world, "Parser", "parse")
    return "%s (%s)" % (b.short(), b.span)


def reader(world, st):
    return parser_where(world)


_G = {}


def work(i):
    try:
        return i, judge(_G["world"], _G["todo"][i], None)
    except Budget as ex:
        return i, ("stop", str(ex))
    except Exception as ex:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return i, ("stop", "%s: %s" % (type(ex).__name__, ex))


def prefixes(deep):
    seen = set()
    out = []
    for s in sentences(deep):
        ts = toks(s)
        for i in range(len(ts)):
            key = tuple((t.cls, t.text) for t in ts[:i])
            # names differ in nothing but their spelling: one representative
            key = tuple(t.cls for t in ts[:i])
            if key in seen:
                continue
            seen.add(key)
            if expectation(ts[:i]) is None:
                raise ValueError("sentence not in the grammar: " + s + " at %d" % i)
            out.append(ts[:i])
    return out


def many(n, f, sep=" "):
    return sep.join(f(i) for i in range(n))


def deep_formula(n, how):
    op, cl = {"not": ("( not ", " )"), "and": ("( and ( q ) ", " )"), "or": ("( or ", " ( q ) )"), "oneof": ("( oneof ", " )"),
              "forall": ("( forall ( ?x - t ) ", " )"), "exists": ("( exists ( ?x ?y ) ", " )"), "probabilistic": ("( probabilistic 1 ", " )")}[how]
    return op * n + "( p ?a )" + cl * n


def long_sentences(n=70, m=300, deep=60):
    """long lists and deep formulae: no length and no depth is special"""
    H = "( define ( domain d ) "
    P = "( define ( problem p ) ( domain d ) "
    names = many(m, lambda i: "x%d" % i)
    typed = many(n, lambda i: "x%d - t%d" % (i, i))
    ending = names + " - t"
    for a in (names, typed, ending):
        for pat in (H + "( :types %s ) )", H + "( :constants %s ) )", H + "( :predicates ( p %s ) ) )", H + "( :functions ( f %s ) ) )",
                    H + "( :task t :parameters ( %s ) ) )", H + "( :action t :parameters ( %s ) ) )",
                    H + "( :method m :parameters ( %s ) :task ( t ) :subtasks ( ) ) )", H + "( :method m :parameters ( ) :task ( t %s ) :subtasks ( ) ) )",
                    H + "( :action t :parameters ( ) :precondition ( p %s ) ) )", H + "( :action t :parameters ( ) :effect ( exists ( %s ) ( q ) ) ) )",
                    P + "( :objects %s ) )", P + "( :init ( p %s ) ) )", P + "( :htn :parameters ( %s ) ) )"):
            yield pat % a
    for k in (":subtasks", ":ordered-subtasks"):
        yield H + "( :method m :parameters ( ) :task ( t ) %s ( and %s ) ) )" % (k, many(n, lambda i: "( t%d ?x )" % i))
        yield H + "( :method m :parameters ( ) :task ( t ) %s ( and %s ) ) )" % (k, many(n, lambda i: "( i%d ( t%d ?x ) )" % (i, i)))
        yield H + "( :method m :parameters ( ) :task ( t ) %s ( a ( t %s ) ) ) )" % (k, names)
        yield H + "( :method m :parameters ( ) :task ( t ) %s ( t %s ) ) )" % (k, names)
        yield P + "( :htn %s ( and %s ) ) )" % (k, many(n, lambda i: "( t%d ?x )" % i))
        yield P + "( :htn %s ( ) :constraints ( and %s ) ) )" % (k, many(n, lambda i: "( not ( = ?a%d ?b ) )" % i if i % 2 else "( = ?a%d ?b )" % i))
    yield H + "( :method m :parameters ( ) :task ( t ) :subtasks ( ) :ordering ( and %s ) ) )" % many(n, lambda i: "( < a%d b%d )" % (i, i))
    yield P + "( :htn :subtasks ( ) :ordering ( < %s ) ) )" % names
    yield P + "( :htn :subtasks ( ) %s ) )" % many(40, lambda i: ":ordering ( < a b )")
    yield H + "( :requirements %s ) )" % many(n, lambda i: ":req")
    yield H + "( :predicates %s ) )" % many(n, lambda i: "( p%d )" % i)
    yield H + "( :functions %s ) )" % many(n, lambda i: "( p%d )" % i)
    yield P + "( :init %s ) )" % many(n, lambda i: "( p%d ?x )" % i)
    for s in ("( :task t :parameters ( ) )", "( :action t :parameters ( ) )", "( :method m :parameters ( ) :task ( t ) :subtasks ( ) )",
              "( :predicates ( p ) )", "( :types a - b )", "( :constants k )", "( :requirements :req )"):
        yield H + many(n, lambda i: s) + " )"
    for s in ("( :objects a )", "( :init ( p ) )", "( :htn :subtasks ( t ) )", "( :goal ( p ) )"):
        yield P + many(n, lambda i: s) + " )"
    for op in ("and", "or", "oneof"):
        yield H + "( :action a :parameters ( ) :precondition ( %s %s ) ) )" % (op, many(n, lambda i: "( p%d )" % i))
    yield H + "( :action a :parameters ( ) :effect ( probabilistic %s ) ) )" % many(n, lambda i: "1 ( p%d )" % i)
    for op in ("not", "and", "or", "oneof", "forall", "exists", "probabilistic"):
        f = deep_formula(deep, op)
        yield H + "( :action a :parameters ( ) :precondition %s ) )" % f
        yield H + "( :action a :parameters ( ) :effect %s ) )" % f
        yield H + "( :method m :parameters ( ) :task ( t ) :precondition %s :subtasks ( ) ) )" % f
        yield P + "( :goal %s ) )" % f


def long_prefixes():
    """the whole sentence but its last token, and one that ends within its long part"""
    out = []
    for s in long_sentences():
        ts = toks(s)
        for i in (len(ts) - 1, len(ts) - 9):
            if expectation(ts[:i]) is None:
                raise ValueError("sentence not in the grammar: %s at %d" % (s[:100], i))
            out.append(ts[:i])
    return out


def check(cx):
    astb.setup(cx.world)
    ALL_REQ[:] = ["req:" + v["name"] for v in astb.info("RequirementType")["variants"]]
    todo = prefixes(cx.tier == "thorough") + long_prefixes()
    run(cx, todo, work)


def run(cx, todo, work):
    _G["world"], _G["todo"] = cx.world, todo
    cx.world.prelude
    nf = 0
    for i, r in par.each(cx, work, len(todo), 8):
        name = text_of(todo[i])
        cx.count("token prefixes analysed")
        if r[0] == "stop":
            cx.undec("%s: %s" % (name[-80:], r[1]))
            continue
        res, n_ok, n_un, why, k = r
        nf = max(nf, k)
        for q, key, where, text in res:
            if q == cx.pid:
                cx.find(key, where, text)
        cx.count("abstract paths decided", n_ok)
        if n_un:
            cx.count("abstract paths undecided", n_un)
            cx.undec("after '%s': %d paths (%s)" % (name[-60:], n_un, "; ".join(sorted(why))[:200]))
        else:
            cx.ok({"prefix": name[-100:], "decided": n_ok})
    cx.count("functions analysed", nf)


# ------------------------------------------------------------------ classification (C08)
def check_classify(cx):
    astb.setup(cx.world)
    w = cx.world
    cl = classes()
    b = body_of(w, "Parser", "classify")
    where = "%s (%s)" % (b.short(), b.span)
    header = ["(", "define", "(", "domain"]
    for kind, last in (("Domain", "domain"), ("Problem", "problem")):
        full = toks("( define ( %s" % last)
        for i in range(len(full) + 1):
            prefix = full[:i]
            r = PRun(w, prefix, entry="classify")
            e = r.e
            name = text_of(prefix)
            want_next = {0: {"("}, 1: {"kw:Define"}, 2: {"("}, 3: {"kw:Domain", "kw:Problem"}}.get(i)
            good = True
            outs = [(st, v, True) for st, v in r.outs] + [(st, None, False) for st, _ in r.beyond]
            for st, v, done in outs:
                if st.taint or st.lossy:
                    cx.undec("after '%s': imprecise path %s" % (name, "; ".join(sorted(map(str, st.taint)))))
                    good = False
                    continue
                poss = [c for c in cl if possible(e, st, i, c)]
                for c in poss:
                    if not done:
                        # reads on: right only before the header is complete
                        if i < 3 and c in want_next:
                            continue
                        if i == 4:
                            cx.find("reads behind the header", where, "classification reads behind '%s'" % name)
                            good = False
                            continue
                        if i < 3:
                            cx.find("reads on after %s" % c, where, "after '%s' and %s the file is neither a domain nor a problem, but reading goes on" % (name, c))
                        else:
                            cx.find("reads behind the header", where, "classification reads behind '%s %s'" % (name, c))
                        good = False
                        continue
                    if i == 4:
                        exp = kind
                    elif i == 3 and c in want_next:
                        exp = c[3:]
                    elif i < 3 and c in want_next:
                        cx.find("early answer after '%s'" % name, where, "classification ends before the header is read")
                        good = False
                        break
                    else:
                        exp = "MaybeNotHDDL"
                    x = v if v.op == "adt" else None
                    if x is None:
                        cx.undec("after '%s': result not determined" % name)
                        good = False
                    elif x.a[5] != exp:
                        cx.find("%s instead of %s" % (x.a[5], exp), where, "'%s %s' is classified as %s, not as %s" % (name, c if i < 4 else "...", x.a[5], exp))
                        good = False
                        break
                if done and st.world["cur"].a[0] != 0:
                    cx.find("reader not at the start", where, "after classifying '%s' the reader stands at token %d" % (name, st.world["cur"].a[0]))
                    good = False
            for st, stk, sp, what in e.panics:
                if not (st.taint or st.lossy):
                    cx.find("panic in classification", where, "panic (%s) after '%s'" % (what, name))
                    good = False
            if good:
                cx.ok({"header prefix": name, "outcomes": len(outs)})
            cx.count("header prefixes analysed")
    # the reset really brings the reader back: interpreted on an arbitrary reader state
    rb = body_of(w, "LexicalAnalyzer", "reset_cursor")
    nb = body_of(w, "LexicalAnalyzer", "new")
    e = absint.Eng(w, 50000)
    st = absint.St()
    outs = e.call_body(st, nb, [mk("sym", "PROGRAM")], 0)
    ok_ = len(outs) == 1
    if ok_:
        st, fresh_lexer = outs[0]
        start = snapshot(e, st, fresh_lexer)
        for x in walk(fresh_lexer):
            if x.op == "cell":
                old = st.mem[x.a[0]]
                st.mem[x.a[0]] = struct("TokenPosition", line=mk("sym", "LINE")) if old.op == "adt" else mk("sym", "CURSOR")
        for s2, _ in e.call_body(st, rb, [fresh_lexer], 0):
            if s2.taint or s2.lossy:
                ok_ = False
                continue
            t = snapshot(e, s2, fresh_lexer)
            for (k, v0), (_, v1) in zip(start, t):
                tv = e.truth(s2, eq(v0, v1))
                if tv is False or (tv is None and any(x.op == "sym" and x.a[0] in ("LINE", "CURSOR") for x in walk(v1))):
                    cx.find("reset does not restore %s" % k, "%s (%s)" % (rb.short(), rb.span), "after resetting, %s is %s instead of %s" % (k, show(v1), show(v0)))
                elif tv is None:
                    ok_ = False
    if ok_:
        cx.ok({"reset": "cursor and line are those of a new reader"})
    else:
        cx.undec("resetting the reader")


def snapshot(e, st, v):
    out = []
    for n, x in zip(v.a[4], v.a[2]):
        if x.op == "cell":
            out.append((n, st.mem[x.a[0]]))
    return out
