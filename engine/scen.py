"""Scenarios for the semantic analysis: families of domains and problems described by an abstract syntax tree in which
names and lines are symbolic and the parts that do not matter are arbitrary (summarised) lists."""
import copy, itertools
from terms import *
from seqs import *
import astb
from astb import nm, pos, struct, enum, vec, opt

_c = itertools.count(1)


class Line:
    def __init__(self, hint=""):
        self.id = "%s#%d" % (hint, next(_c))

    def term(self):
        return pos(self.id)


class R:
    """any number of arbitrary elements"""
    def __init__(self, label):
        self.label = label

    def term(self):
        return ("s", mk("rest", self.label))


class Node:
    def __init__(self, **k):
        self.__dict__.update(k)


def Sy(name, ty=None):
    return Node(k="sym", name=name, ty=ty, line=Line(name), tline=Line(name + ":type"))


def Syms(*xs):
    """'a:t' strings"""
    out = []
    for x in xs:
        if isinstance(x, str):
            n, _, t = x.partition(":")
            out.append(Sy(n, t or None))
        else:
            out.append(x)
    return out


def Pr(name, *vs):
    return Node(k="pred", name=name, line=Line(name), vars=Syms(*vs))


def Tk(name, *vs):
    return Node(k="task", name=name, line=Line(name), vars=Syms(*vs))


def Ac(name, params, pre=None, eff=None):
    return Node(k="action", name=name, line=Line(name), params=Syms(*params), pre=pre, eff=eff)


def Me(name, task, terms, params, subtasks=(), pre=None, order="total"):
    return Node(k="method", name=Sy(name), task=Sy(task), terms=Syms(*terms), params=Syms(*params), pre=pre,
                subtasks=list(subtasks), order=order, opos=Line("ordering"))


def St_(task, *terms, id=None):
    return Node(k="subtask", task=Sy(task), terms=Syms(*terms), id=Sy(id) if id else None)


def low(x):
    if isinstance(x, (R, Line)):
        return x.term()
    k = x.k
    if k == "sym":
        return struct("Symbol", name=nm(x.name), name_pos=x.line.term(), symbol_type=NONE if x.ty is None else some(nm(x.ty)),
                      type_pos=NONE if x.ty is None else some(x.tline.term()))
    if k == "pred":
        return struct("Predicate", name=nm(x.name), name_pos=x.line.term(), variables=lows(x.vars))
    if k == "task":
        return struct("Task", name=nm(x.name), name_pos=x.line.term(), parameters=lows(x.vars))
    if k == "action":
        return struct("Action", name=nm(x.name), name_pos=x.line.term(), parameters=lows(x.params), preconditions=lowf(x.pre),
                      effects=lowf(x.eff))
    if k == "method":
        return struct("Method", name=low(x.name), task=low(x.task), task_terms=lows(x.terms), params=lows(x.params),
                      precondition=lowf(x.pre), tn=htn(x))
    if k == "subtask":
        return struct("Subtask", id=NONE if x.id is None else some(low(x.id)), task=low(x.task), terms=lows(x.terms))
    raise KeyError(k)


def htn(x):
    if x.order == "total":
        o, p = enum("TaskOrdering", "Total"), NONE
    else:
        o = enum("TaskOrdering", "Partial", vec(*[y.term() if isinstance(y, R) else tup(nm(y[0]), nm(y[1])) for y in x.order]))
        p = some(x.opos.term())
    return struct("HTN", subtasks=lows(x.subtasks), ordering_pos=p, orderings=o, constraints=NONE)


def lows(xs):
    return vec(*[low(x) for x in xs])


def lowf(f):
    return NONE if f is None else some(form(f))


def form(f):
    if isinstance(f, T):
        return f
    if isinstance(f, Node):
        return enum("Formula", "Atom", low(f))
    k = f[0]
    if k == "any":
        return mk("rest", "formula " + f[1])

    def fs(xs):
        return vec(*[x.term() if isinstance(x, R) else form(x) for x in xs])
    if k in ("And", "Or", "Xor"):
        return enum("Formula", k, fs(f[1]))
    if k == "Not":
        return enum("Formula", k, form(f[1]))
    if k == "Imply":
        return enum("Formula", k, fs(f[1]), fs(f[2]))
    if k in ("Exists", "ForAll"):
        return enum("Formula", k, lows(f[1]), form(f[2]))
    if k == "Weighted":
        return enum("Formula", k, mk("sym", "weight"), form(f[1]))
    if k == "Equals":
        return enum("Formula", k, nm(f[1]), nm(f[2]))
    if k == "Empty":
        return enum("Formula", k)
    raise KeyError(k)


class Dom:
    def __init__(self):
        self.types = []
        self.constants = []
        self.reqs = []
        self.preds, self.tasks, self.methods, self.actions = [], [], [], []
        # problem
        self.objects, self.init, self.goal, self.tn, self.tnparams = [], [], None, None, None

    def copy(self):
        return copy.deepcopy(self)

    def domain(self):
        return struct("DomainAST", name=nm("domain"), types=some(lows(self.types)) if self.types is not None else NONE,
                      constants=some(lows(self.constants)) if self.constants is not None else NONE,
                      requirements=vec(*[x.term() if isinstance(x, R) else x for x in self.reqs]),
                      predicates=lows(self.preds), compound_tasks=lows(self.tasks), methods=lows(self.methods),
                      actions=lows(self.actions), functions=EMPTY)

    def problem(self):
        tn = NONE
        if self.tn is not None:
            tn = some(struct("InitialTaskNetwork", parameters=NONE if self.tnparams is None else some(lows(self.tnparams)),
                             tn=htn(self.tn)))
        return struct("ProblemAST", requirements=EMPTY, init_tn=tn, init_state=lows(self.init), goal=lowf(self.goal),
                      objects=lows(self.objects))


def TN(subtasks, order="total"):
    return Node(k="tn", subtasks=list(subtasks), order=order, opos=Line("ordering"))


# ------------------------------------------------------------------ errors
def sem(variant, *payload):
    return err(enum("ParsingError", "Semantic", enum("SemanticErrorType", variant, *payload)))


def dup(variant, name, l1, l2):
    return sem("Duplicate%sDeclaration" % variant, struct("DuplicateError", symbol=nm(name), first_pos=l1.term(), second_pos=l2.term()))


def undef(variant, name, l):
    return sem("Undefined" + variant, struct("UndefinedSymbolError", symbol=nm(name), position=l.term()))


def arity(variant, name, exp, found, l):
    return sem("Inconsistent%sArity" % variant, struct("ArityError", symbol=nm(name), expected_arity=I(exp), found_arity=I(found),
                                                       position=l.term()))


def tyerr(variant, var, exp, found, l):
    return sem("Inconsistent%sArgType" % variant, struct(
        "TypeError", expected=NONE if exp is None else some(nm(exp)), found=NONE if found is None else some(nm(found)),
        var_name=nm(var) if isinstance(var, str) else var, position=l.term()))


# ------------------------------------------------------------------ running the analysis
def decide_names(st, t):
    """distinct names of a scenario are different strings; summarised elements have names of their own"""
    if t.op == "eq":
        a, b = t.a
        ra, rb = origin(a), origin(b)
        if ra and rb and ra != rb:
            return False
    return None


def origin(t):
    """what declares this name: a scenario name, or a summarised list"""
    if t.op == "nm":
        return ("n", t.a[0])
    if t.op == "fld":
        x = t
        while x.op in ("fld", "el", "idx"):
            x = x.a[0]
        if x.op == "rest":
            return ("r", x.a[0])
    return None


def opaque_formula(eng):
    fpath = astb.info("Formula")["path"]

    def f(call_self, st, body, args):
        for i, a in enumerate(args):
            t = body.prog.peel(body.locals[i + 1])
            if t["k"] == "adt" and t["path"] == fpath:
                v = eng.deref(st, a)
                if v.op not in ("adt",):
                    return True
        return False
    return f


class Run:
    """one abstract run of HDDLAnalyzer::verify (or another entry) on a scenario"""

    def __init__(self, world, dom, problem=True, entry="verify", decide=decide_names, steps=400000, disjuncts=24, unroll=False, tdg=True):
        import absint
        self.e = e = absint.Eng(world, steps)
        astb.setup(world)
        e.decide = decide
        e.disjuncts = disjuncts
        if unroll:
            e.unroll, e.maxdepth = True, absint.DEEP
        else:
            e.maxdepth = 250
        e.sites = ("SemanticErrorType",)
        self.D, self.P = dom.domain(), dom.problem()
        of = opaque_formula(e)
        e.opaque_call = lambda st, body, args: of(None, st, body, args)
        AST = "AbstractSyntaxTree"

        def parse(call):
            s = call.val(0)
            which = {x.a[0] for x in walk(s) if x.op == "sym" and x.a[0] in ("DOMAIN", "PROBLEM")}
            # the text may sit in a cell
            for x in walk(s):
                if x.op == "cell":
                    which |= {y.a[0] for y in walk(call.st.mem.get(x.a[0], UNIT)) if y.op == "sym" and y.a[0] in ("DOMAIN", "PROBLEM")}
            if which == {"DOMAIN"}:
                return call.ret(ok(enum(AST, "Domain", self.D)))
            if which == {"PROBLEM"}:
                return call.ret(ok(enum(AST, "Problem", self.P)))
            return None
        e.hooks[("Parser", "parse")] = parse
        if tdg:
            e.hooks[("TDG", "new")] = lambda call: call.ret(mk("tdg", call.val(0)))

        def reachable(call):
            n = call.val(1)
            g = call.val(0)
            b = [b for b in world.lib.bodies.values() if b.name == "reachable" and b.kind == "fn"][0]
            t = b.prog.peel(b.locals[0])
            a = world.lib.adt_by_path[t["path"]]
            v = a["variants"][0]
            fs = []
            for fn, fty in v["fields"]:
                ty = b.prog.ty(fty)
                fs.append(mk("tdgq", fn, n))
            return call.ret(adt(a["path"], 0, fs, [f[0] for f in v["fields"]], v["name"]))
        if tdg:
            e.hooks[("TDG", "reachable")] = reachable
        st = absint.St()
        args = [mk("sym", "DOMAIN"), some(mk("sym", "PROBLEM")) if problem else NONE]
        body = [b for b in world.lib.bodies.values() if b.name == entry and b.kind == "fn" and b.impl is not None
                and world.lib.peel(b.impl).get("path", "").split("::")[-1] == "HDDLAnalyzer"]
        if len(body) != 1:
            raise KeyError("entry point HDDLAnalyzer::" + entry)
        self.outs = e.call_body(st, body[0], args, 0)
        self.panics = e.panics
