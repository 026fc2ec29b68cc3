"""Whole files: scenarios of the semantic analysis written out as token sequences, and the abstract runs of
HDDLAnalyzer::verify on them, from the parser to the result (only the lexer is replaced by the token sequence).

Names are symbols (all that is known is which are equal) and lines are the numbers of tokens."""
import absint, astb, oracle, scen, semantic, parsing
from astb import struct, enum, vec, nm, pos
from parsing import PUNCT, WORDS, KWS
from scen import *
from terms import *
from seqs import *


class No(Exception):
    """this cannot be written"""


class W:
    """writes a file; the lines of the nodes become those of their tokens"""
    def __init__(self, label):
        self.label, self.out = label, []

    def here(self):
        return "%s token %d" % (self.label, len(self.out))

    def t(self, text):
        for w in text.split():
            if w in PUNCT:
                self.out.append(enum("Token", "Punctuator", enum("PunctuationType", PUNCT[w])))
            elif w in WORDS:
                k, v = WORDS[w].split(":")
                self.out.append(enum("Token", "Keyword", enum("KeywordName", v)) if k == "kw" else enum("Token", "Operator", enum("OperationType", v)))
            elif w.startswith(":"):
                self.out.append(enum("Token", "Keyword", enum("KeywordName", KWS[w[1:]])))
            else:
                raise KeyError(w)

    def name(self, n, line=None):
        if line is not None:
            line.id = self.here()
        self.out.append(enum("Token", "Identifier", nm(n)))

    def lst(self, xs):
        open_ = False
        for x in xs or []:
            if isinstance(x, R):
                raise No()
            if x.ty is None:
                open_ = True
            elif open_:
                raise No()      # would be given the type
            self.name(x.name, x.line)
            if x.ty is not None:
                self.t("-")
                self.name(x.ty, x.tline)

    def pred(self, p):
        self.t("(")
        self.name(p.name, p.line)
        self.lst(p.vars)
        self.t(")")

    def formula(self, f):
        if isinstance(f, Node):
            return self.pred(f)
        if isinstance(f, T) or f[0] in ("any", "Imply"):
            raise No()
        k = f[0]
        self.t("(")
        if k in ("And", "Or", "Xor"):
            self.t({"And": "and", "Or": "or", "Xor": "oneof"}[k])
            for x in f[1]:
                self.formula(x)
        elif k == "Not":
            self.t("not")
            self.formula(f[1])
        elif k in ("Exists", "ForAll"):
            self.t(k.lower() + " (")
            self.lst(f[1])
            self.t(")")
            self.formula(f[2])
        elif k == "Weighted":
            self.t("probabilistic")
            self.out.append(enum("Token", "Number", mk("sym", "weight")))
            self.formula(f[1])
        elif k == "Equals":
            self.t("=")
            self.name(f[1])
            self.name(f[2])
        elif k != "Empty":
            raise No()
        self.t(")")

    def network(self, m, brief):
        total = m.order == "total"
        self.t(":ordered-subtasks (" if total else ":subtasks (")
        one = brief and len(m.subtasks) == 1

        def task(s):
            if s.id is not None:
                self.name(s.id.name, s.id.line)
                self.t("(")
            self.name(s.task.name, s.task.line)
            self.lst(s.terms)
            if s.id is not None:
                self.t(")")
        if m.subtasks:
            if one:
                task(m.subtasks[0])
            else:
                self.t("and")
                for s in m.subtasks:
                    self.t("(")
                    task(s)
                    self.t(")")
        self.t(")")
        if not total and m.order:
            m.opos.id = self.here()
            self.t(":ordering (")
            if brief and len(m.order) == 1:
                self.t("<")
                self.name(m.order[0][0])
                self.name(m.order[0][1])
            else:
                self.t("and")
                for a, b in m.order:
                    self.t("( <")
                    self.name(a)
                    self.name(b)
                    self.t(")")
            self.t(")")

    def reqs(self, rs):
        if rs:
            self.t("( :requirements")
            for r in rs:
                if isinstance(r, R):
                    raise No()
                self.out.append(enum("Token", "Requirement", r))
            self.t(")")


def tidy(xs):
    """in a list of names those without a type come last"""
    if xs and all(isinstance(x, Node) for x in xs):
        xs[:] = [x for x in xs if x.ty is not None] + [x for x in xs if x.ty is None]


def write(dom, brief=False):
    """the tokens of the domain and the problem (dom gets their lines)"""
    for xs in (dom.types, dom.constants, dom.objects):
        tidy(xs)
    w = W("domain")
    w.t("( define ( domain")
    w.name("d")
    w.t(")")
    w.reqs(dom.reqs)
    for kw, xs in ((":types", dom.types), (":constants", dom.constants)):
        if xs is not None:
            w.t("( " + kw)
            w.lst(xs)
            w.t(")")
    if dom.preds:
        w.t("( :predicates")
        for p in dom.preds:
            w.pred(p)
        w.t(")")
    for x in dom.tasks:
        w.t("( :task")
        w.name(x.name, x.line)
        w.t(":parameters (")
        w.lst(x.vars)
        w.t(") )")
    for m in dom.methods:
        w.t("( :method")
        w.name(m.name.name, m.name.line)
        w.t(":parameters (")
        w.lst(m.params)
        w.t(") :task (")
        w.name(m.task.name, m.task.line)
        w.lst(m.terms)
        w.t(")")
        if m.pre is not None:
            w.t(":precondition")
            w.formula(m.pre)
        w.network(m, brief)
        w.t(")")
    for a in dom.actions:
        w.t("( :action")
        w.name(a.name, a.line)
        w.t(":parameters (")
        w.lst(a.params)
        w.t(")")
        for kw, f in ((":precondition", a.pre), (":effect", a.eff)):
            if f is not None:
                w.t(kw)
                w.formula(f)
        w.t(")")
    w.t(")")
    v = W("problem")
    v.t("( define ( problem")
    v.name("pb")
    v.t(") ( domain")
    v.name("d")
    v.t(") ( :objects")
    v.lst(dom.objects)
    v.t(")")
    if dom.tn is not None:
        v.t("( :htn")
        if dom.tnparams is not None:
            v.t(":parameters (")
            v.lst(dom.tnparams)
            v.t(")")
        v.network(dom.tn, brief)
        v.t(")")
    v.t("( :init")
    for p in dom.init:
        if not isinstance(p, Node):
            raise No()
        v.pred(p)
    v.t(")")
    if dom.goal is not None:
        v.t("( :goal")
        v.formula(dom.goal)
        v.t(")")
    v.t(")")
    return w.out, v.out


class Run:
    """HDDLAnalyzer::<entry> on token sequences"""
    def __init__(self, world, tokens, problem, entry="verify", steps=3000000):
        self.e = e = absint.Eng(world, steps)
        e.decide = scen.decide_names
        e.unroll, e.maxdepth = True, absint.DEEP
        e.sites = ("SemanticErrorType", "SyntacticError")
        which = {"DOMAIN": 0, "PROBLEM": 1}
        labels = ("domain", "problem")

        def new(call):
            s = call.val(0)
            found = {x.a[0] for x in walk(s) if x.op == "sym" and x.a[0] in which}
            for x in walk(s):
                if x.op == "cell":
                    found |= {y.a[0] for y in walk(call.st.mem.get(x.a[0], UNIT)) if y.op == "sym" and y.a[0] in which}
            if len(found) != 1:
                return None
            k = which[found.pop()]
            call.st.world["cur%d" % k], call.st.world["last%d" % k] = I(0), I(-1)
            return call.ret(mk("lexer", k))

        def read(call, peek):
            st, lx = call.st, call.val(0)
            if lx.op != "lexer":
                return None
            k = lx.a[0]
            i = st.world["cur%d" % k].a[0]
            ts = tokens[k]
            st.world["last%d" % k] = I(min(i, len(ts)))
            if not peek:
                st.world["cur%d" % k] = I(i + 1)
            return [(st, ok(ts[i] if i < len(ts) else enum("Token", "EOF")))]

        def last(call):
            lx = call.val(0)
            if lx.op != "lexer":
                return None
            i = call.st.world["last%d" % lx.a[0]].a[0]
            return call.ret(pos("%s token %d" % (labels[lx.a[0]], i) if i >= 0 else "start"))

        def reset(call):
            lx = call.val(0)
            if lx.op != "lexer":
                return None
            call.st.world["cur%d" % lx.a[0]] = I(0)
            return call.ret(UNIT)
        L = "LexicalAnalyzer"
        for n, f in (("new", new), ("get_token", lambda c: read(c, False)), ("lookahead", lambda c: read(c, True)), ("get_last_token_position", last),
                     ("reset_cursor", reset)):
            parsing.body_of(world, L, n)
            e.hooks[(L, n)] = f
        st = absint.St()
        body = parsing.body_of(world, "HDDLAnalyzer", entry)
        self.body = body
        self.outs = e.call_body(st, body, [mk("sym", "DOMAIN"), some(mk("sym", "PROBLEM")) if problem else NONE], 0)
        self.panics = e.panics


def warnings(dom):
    """tasks that can neither vanish nor be refined into actions"""
    acts = {a.name for a in dom.actions}
    ms = {}
    for m in dom.methods:
        ms.setdefault(m.task.name, []).append([s.task.name for s in m.subtasks])
    null, grew = set(), True
    while grew:
        grew = False
        for t, bodies in ms.items():
            if t not in null and any(all(x in null for x in b) for b in bodies):
                null.add(t)
                grew = True

    def prims(t):
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            for b in ms.get(x, ()) if x not in acts else ():
                for y in b:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
        return seen & acts
    return [enum("WarningType", "NoPrimitiveRefinement", struct("WarningInfo", symbol=nm(t.name), position=t.line.term()))
            for t in dom.tasks if t.name not in null and not prims(t.name)]


def judge(world, name, dom, problem, brief):
    """findings, reason why nothing is known (or None)"""
    dom = dom.copy()
    try:
        toks = write(dom, brief)
    except No:
        return [], None, 0
    r = Run(world, toks, problem)
    e = r.e
    exp = oracle.errors(dom, problem)
    req = [x for x in exp if x[1]]
    res, why = [], None
    at = "%s (%s)" % (r.body.short(), r.body.span)
    for st, stk, sp, what in r.panics:
        if not (st.taint or st.lossy):
            b = stk[-1] if stk else None
            res.append(("C22", "panic in %s: %s" % (b.short() if b else "?", what), "%s (%s)" % (b.short() if b else "?", sp), "reached by: " + name))
        else:
            why = "panic not excluded: " + what
    for st, b, head in e.stuck:
        if not (st.taint or st.lossy):
            res.append(("C23", "loop in " + b.short(), "%s (%s)" % (b.short(), b.span), "never ends on " + name))
    for st, v in r.outs:
        if st.taint or st.lossy or v.op != "adt" or v.a[5] not in ("Ok", "Err"):
            why = "; ".join(sorted(map(str, st.taint))) or "result not determined"
            continue
        e.decide = lambda s, t: scen.decide_names(s, t) if semantic.other_line(t) is None else False
        where = "%s (%s)" % (st.via[0], st.via[2]) if st.via else at
        if v.a[5] == "Ok":
            for q in sorted({x[0] for x in req}):
                res.append((q, "accepted: " + name, at, "verification succeeds although the files contain: %s" % semantic.show_err(req[0][2])))
            if not req:
                t = e.truth(st, eq(e.deref(st, v.a[2][0]), vec(*warnings(dom))))
                if t is False:
                    res.append(("C15", "warnings: " + name, at, "expected warnings %s, got %s" % (show(vec(*warnings(dom))), show(v.a[2][0]))))
                elif t is None:
                    why = "warnings not determined: " + show(v.a[2][0])[:100]
            continue
        ts = [e.truth(st, eq(v, x[2])) for x in exp]
        if any(t is True for t in ts):
            continue
        if all(t is False for t in ts):
            text = "verification reports %s, which is not true of the files%s" % (
                semantic.show_err(v), "; true is " + semantic.show_err(exp[0][2]) if exp else " (they are valid)")
            res.append(("C14", "wrong error: " + name, where, text))
            if "Cyclic" in semantic.show_err(v):
                res.append(("C13", "false cycle: " + name, where, text))
        else:
            why = "error value not determined: " + semantic.show_err(v)[:150]
    if not r.outs and not res:
        why = "no result"
    return res, why, e.steps


def metadata(world, sh):
    """the metadata of a domain of this shape, from its tokens: (findings, results compared, what is not known)"""
    dom = sh.dom()
    dom.constants = dom.types = None
    r = Run(world, write(dom), False, "get_metadata")
    e, fs, und, n = r.e, [], [], 0
    at = "%s (%s)" % (r.body.short(), r.body.span)
    for st, stk, sp, what in r.panics:
        if st.taint or st.lossy:
            und.append("panic not excluded: " + what)
        else:
            b = stk[-1] if stk else None
            fs.append(("C22", "panic in %s: %s" % (b.short() if b else "?", what), "%s (%s)" % (b.short() if b else "?", sp), "the metadata of %s panics" % sh.show()))
    for st, b, head in e.stuck:
        if not (st.taint or st.lossy):
            fs.append(("C23", "loop in " + b.short(), "%s (%s)" % (b.short(), b.span), "the metadata never ends on " + sh.show()))

    def text(st, x):
        x = e.deref(st, x)
        if x.op not in ("str", "nm"):
            raise KeyError(show(x)[:60])
        return x.a[0]
    for st, v in r.outs:
        if st.taint or st.lossy or v.op != "adt":
            und.append("; ".join(map(str, st.taint)) or "result not determined: " + show(v)[:80])
            continue
        if v.a[5] != "Ok":
            fs.append(("C25", "metadata: error", at, "the metadata of %s is refused: %s" % (sh.show(), show(v)[:150])))
            continue
        m = e.deref(st, v.a[2][0])
        try:
            f = dict(zip(m.a[4], m.a[2]))
            nl = e.deref(st, f["nullables"])
            nul = [text(st, x) for k, x in (nl.a[0] if nl.op == "sorted" else nl).a[1]]
            rec = e.deref(st, f["recursion"])
            cyc = [tuple(text(st, y) for y in e.deref(st, x).a[0]) for k, x in e.deref(st, rec.a[2][0]).a[1]] if rec.a[2] else []
            cnt = [e.deref(st, f[k]).a[0] for k in ("n_actions", "n_tasks", "n_methods")]
        except (KeyError, AttributeError, IndexError, TypeError) as ex:
            und.append("not determined: %s" % ex)
            continue
        want = [len(sh.actions), len(sh.tasks), len(sh.methods)]
        if cnt != want:
            fs.append(("C25", "metadata: counts", at, "the metadata of %s counts %s instead of %s actions, tasks and methods" % (sh.show(), cnt, want)))
        if sorted(nul) != sorted(sh.nullables()):
            fs.append(("C27", "nullable tasks", at, "the metadata of %s names the nullable tasks {%s} instead of {%s}" % (
                sh.show(), " ".join(nul), " ".join(sorted(sh.nullables())))))
        cls = sh.recursion()
        if rec.a[5] != cls:
            fs.append(("C28", "class %s for %s" % (rec.a[5], cls), at, "the metadata of %s gives the class %s instead of %s" % (sh.show(), rec.a[5], cls)))
        elif cls != "NonRecursive":
            bad = sh.bad_cycle([(t, int(x[1:]) if x[1:].isdigit() else -1) for t, x in cyc[:-1]] + [(cyc[-1][0], -1)] if cyc else [], cls)
            if bad:
                fs.append(("C28", "cycle: " + bad[:20], at, "in the metadata of %s the class is %s, but the cycle %s %s" % (
                    sh.show(), cls, " ".join("%s-(%s)" % x for x in cyc), bad)))
        n += 4
    return fs, n, und
