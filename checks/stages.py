"""C24, C25: how verify, get_metadata and to_json combine their stages; the stages are replaced by every outcome they can have."""
import itertools, re
import absint, astb, texts
from astb import struct, enum, vec, nm
from terms import *
from seqs import *
from absint import Budget
from parsing import body_of, same

DOMAIN, PROBLEM = mk("sym", "DOMAIN"), mk("sym", "PROBLEM")


def reach_syms(call, v, want):
    """which of the symbols occur in v, looking through pointers and cells"""
    seen, out, todo = set(), set(), [v]
    while todo:
        x = todo.pop()
        for y in walk(x):
            if y in want:
                out.add(y)
            k = y.a[0] if y.op in ("cell", "ptr") else None
            if k is not None and k not in seen:
                seen.add(k)
                if k in call.st.mem:
                    todo.append(call.st.mem[k])
    return out


class Stage:
    """one run of an entry point under one choice of the outcomes of the stages"""

    def __init__(self, world, entry, choice, problem, lens=(3, 5, 7), steps=60000):
        self.choice = choice
        self.used = []
        self.wrong = []
        e = self.e = absint.Eng(world, steps)
        astb.setup(world)
        na, nt, nm_ = lens

        def lst(k, n):
            return vec(*[mk("sym", "%s%d" % (k, i)) for i in range(n)])
        self.D = struct("DomainAST", actions=lst("action", na), compound_tasks=lst("task", nt), methods=lst("method", nm_), types=NONE, constants=NONE)
        self.P = struct("ProblemAST", requirements=vec(), objects=vec(), init_state=vec(), init_tn=NONE)
        self.dtag = mk("sym", "DomainAST.predicates")
        self.ptag = mk("sym", "ProblemAST.goal")
        sets = {n: coll("set", ()) for n, _ in astb.info("SymbolTable")["variants"][0]["fields"] if n in ("constants", "predicates", "tasks", "actions")}
        self.table = struct("SymbolTable", warnings=mk("sym", "WARNINGS"), **sets)
        self.results = {
            "err": lambda w: err(mk("sym", "PARSE-ERROR-" + w)),
            "domain": lambda w: ok(enum("AbstractSyntaxTree", "Domain", self.D)),
            "problem": lambda w: ok(enum("AbstractSyntaxTree", "Problem", self.P)),
        }

        def parse(call):
            w = reach_syms(call, call.args[0], {DOMAIN, PROBLEM})
            if len(w) != 1:
                call.st.add_taint("a parser of an unknown text")
                return call.ret(mk("fresh", 0))
            n = list(w)[0].a[0]
            self.used.append("parse " + n)
            return call.ret(self.results[choice["parse " + n]](n))

        def verify_domain(call):
            self.used.append("verify_domain")
            if self.dtag not in reach_syms(call, call.args[0], {self.dtag}):
                call.st.add_taint("the domain that is checked is not known")
            if choice["verify_domain"] == "err":
                return call.ret(err(mk("sym", "DOMAIN-ERROR")))
            return call.ret(ok(self.table))

        def verify_problem(call):
            self.used.append("verify_problem")
            w = mk("sym", "WARNINGS")
            got = reach_syms(call, call.args[0], {self.ptag, w})
            if self.ptag not in got:
                call.st.add_taint("the problem that is checked is not known")
            if choice["verify_problem"] == "err":
                return call.ret(err(mk("sym", "PROBLEM-ERROR")))
            return call.ret(ok(w))
        e.hooks[("Parser", "parse")] = parse
        e.hooks[("DomainSemanticAnalyzer", "verify_domain")] = verify_domain
        e.hooks[("ProblemSemanticAnalyzer", "verify_problem")] = verify_problem
        e.hooks[("TDG", "new")] = lambda call: call.ret(mk("tdg", call.val(0)))
        self.nullables = choice.get("nullables", ())
        e.hooks[("TDG", "compute_nullables")] = lambda call: call.ret(coll("set", [("e", x) for x in self.nullables]))
        e.hooks[("TDG", "get_recursion_type")] = lambda call: call.ret(mk("sym", "RECURSION"))
        b = body_of(world, "HDDLAnalyzer", entry)
        self.body = b
        self.outs = e.call_body(absint.St(), b, [DOMAIN, some(PROBLEM) if problem else NONE], 0)


STAGES = (("Parser", "parse"), ("DomainSemanticAnalyzer", "verify_domain"), ("ProblemSemanticAnalyzer", "verify_problem"))


def have(cx, what=STAGES):
    for t, n in what:
        if len(cx.world.fn(t, n)) != 1:
            cx.undec("no unique %s::%s" % (t, n))
            return False
    return True


def expected(entry, ch, problem):
    """('err', term or None) or ('ok',)"""
    pe = lambda s: enum("ParsingError", "Semantic", mk("sym", s))
    if ch["parse DOMAIN"] == "err":
        return ("err", mk("sym", "PARSE-ERROR-DOMAIN"), "the error of parsing the domain")
    if ch["parse DOMAIN"] == "problem":
        return ("err", None, "an error, for the domain file is a problem")
    if entry != "to_json" and ch["verify_domain"] == "err":
        return ("err", pe("DOMAIN-ERROR"), "the error of checking the domain")
    if not problem or entry == "get_metadata":
        return ("ok",)
    if ch["parse PROBLEM"] == "err":
        return ("err", mk("sym", "PARSE-ERROR-PROBLEM"), "the error of parsing the problem")
    if ch["parse PROBLEM"] == "domain":
        return ("err", None, "an error, for the problem file is a domain")
    if entry == "verify" and ch["verify_problem"] == "err":
        return ("err", pe("PROBLEM-ERROR"), "the error of checking the problem")
    return ("ok",)


def describe(ch, problem):
    return ", ".join("%s: %s" % kv for kv in sorted(ch.items()) if kv[0] != "nullables") + (", with a problem" if problem else ", without a problem")


def check(cx):
    astb.setup(cx.world)
    if not have(cx):
        return
    K = ("err", "domain", "problem")
    for entry in ("verify", "get_metadata", "to_json"):
        for problem in ((False, True) if entry != "get_metadata" else (False,)):
            for pd, vd, pp, vp in itertools.product(K, ("ok", "err"), K if problem else ("err",), ("ok", "err") if problem else ("ok",)):
                ch = {"parse DOMAIN": pd, "verify_domain": vd, "parse PROBLEM": pp, "verify_problem": vp}
                one(cx, entry, ch, problem)


def one(cx, entry, ch, problem):
    name = "%s (%s)" % (entry, describe(ch, problem))
    try:
        r = Stage(cx.world, entry, ch, problem)
    except (Budget, KeyError) as ex:
        cx.undec("%s: %s" % (name, ex))
        return
    cx.count("runs")
    cx.count("functions analysed", len(r.e.functions))
    e, good = r.e, True
    at = "HDDLAnalyzer::%s (%s)" % (entry, r.body.span)
    exp = expected(entry, ch, problem)
    for st, stk, sp, what in e.panics:
        if st.taint or st.lossy:
            cx.undec("%s: panic not excluded: %s" % (name, what))
        else:
            cx.find("panic: " + name, "%s (%s)" % (stk[-1].short() if stk else at, sp), "%s panics (%s)" % (name, what))
        good = False
    for st, v in r.outs:
        if st.taint or st.lossy or v.op != "adt" or v.a[5] not in ("Ok", "Err"):
            cx.undec("%s: %s" % (name, "; ".join(map(str, st.taint)) or "result not determined: " + show(v)[:100]))
            good = False
            continue
        if exp[0] == "err" and v.a[5] == "Ok":
            cx.find(name, at, "%s succeeds; expected is %s" % (name, exp[2]))
            good = False
        elif exp[0] == "ok" and v.a[5] == "Err":
            cx.find(name, at, "%s fails with %s; expected is success" % (name, show(v)[:200]))
            good = False
        elif exp[0] == "err" and exp[1] is not None:
            t = same(e, st, v.a[2][0], exp[1])
            if t is False:
                cx.find(name, at, "%s gives the error %s; expected is %s" % (name, show(v.a[2][0])[:200], exp[2]))
            elif t is None:
                cx.undec("%s: error not determined: %s" % (name, show(v)[:200]))
            good = good and t is True
        elif exp[0] == "ok" and entry == "verify":
            t = same(e, st, v.a[2][0], mk("sym", "WARNINGS"))
            if t is not True:
                cx.undec("%s: warnings not determined: %s" % (name, show(v)[:200]))
                good = False
    if not r.outs and not e.panics:
        cx.undec("%s: no path ends" % name)
        good = False
    if good:
        cx.ok({"case": name, "expected": exp[2] if exp[0] == "err" else "success"})


# ------------------------------------------------------------------ C25
def meta(cx):
    astb.setup(cx.world)
    if not have(cx, STAGES[:2] + (("TDG", "new"), ("TDG", "compute_nullables"), ("TDG", "get_recursion_type"))):
        return
    long = ["t%d" % (i * 7 % 41) for i in range(41)]
    names = [[], ["t"], ["b", "a"], ["b", "c", "a"], ["a", "b"], ["t10", "t2", "T", "t1"], ["b", "a", "d", "c", "e"], long[:12], long]
    for lens in ((3, 5, 7), (0, 0, 0), (7, 3, 5), (1, 0, 2), (130, 70, 300)):
        for ns in (names if lens == (3, 5, 7) else names[:3]):
            one_meta(cx, lens, ns)
    shown(cx)


def metadata(cx):
    import graph
    meta(cx)
    cx.world.prelude
    graph.metadata(cx)


def one_meta(cx, lens, ns):
    name = "metadata with %d actions, %d tasks, %d methods, nullable %s" % (lens + (ns,))
    ch = {"parse DOMAIN": "domain", "verify_domain": "ok", "nullables": [S(n) for n in ns]}
    try:
        r = Stage(cx.world, "get_metadata", ch, False, lens)
    except (Budget, KeyError) as ex:
        cx.undec("%s: %s" % (name, ex))
        return
    cx.count("runs")
    e, good, at = r.e, True, "HDDLAnalyzer::get_metadata (%s)" % r.body.span
    exp = {"n_actions": I(lens[0]), "n_tasks": I(lens[1]), "n_methods": I(lens[2]), "nullables": vec(*[S(n) for n in sorted(ns)]),
           "recursion": mk("sym", "RECURSION")}
    for st, stk, sp, what in e.panics:
        good = False
        cx.undec("%s: panic not excluded: %s" % (name, what))
    for st, v in r.outs:
        if st.taint or st.lossy or v.op != "adt" or v.a[5] != "Ok" or v.a[2][0].op != "adt":
            cx.undec("%s: %s" % (name, "; ".join(map(str, st.taint)) or "result not determined: " + show(v)[:100]))
            good = False
            continue
        m = v.a[2][0]
        for f, x in exp.items():
            if f not in (m.a[4] or ()):
                cx.undec("%s: no field %s" % (name, f))
                good = False
                continue
            got = m.a[2][m.a[4].index(f)]
            if f == "nullables" and got.op == "coll":
                got = coll("vec", [(k, e.deref(st, y)) for k, y in got.a[1]])
            t = same(e, st, got, x)
            if t is False:
                cx.find("%s" % f, at, "%s: %s is %s instead of %s" % (name, f, show(got)[:150], show(x)[:150]))
            elif t is None:
                cx.undec("%s: %s not determined: %s" % (name, f, show(got)[:150]))
            good = good and t is True
    if good and r.outs:
        cx.ok({"case": name})


def shown(cx):
    """the text of the description"""
    A, T_, M, R = "‹actions›", "‹tasks›", "‹methods›", "‹recursion›"
    num = lambda n: mk("sym", n)
    N = [nm("n%d" % i) for i in range(40)]
    names = {num("A"): A, num("T"): T_, num("M"): M}
    names.update({n: "‹n%d›" % i for i, n in enumerate(N)})
    at = texts.where(cx.world, "MetaData")
    pair = lambda a, b: tup(nm(a), nm(b))
    for i in range(40):
        names[nm("k%d" % i)] = "‹k%d›" % i
        names[nm("d%d" % i)] = "‹d%d›" % i
    CLASS = {"NonRecursive": r"non-?recursive", "Recursive": r"(?<!non-)(?<!non)recursive", "EmptyRecursion": r"empty recursi",
             "GrowingEmptyPrefixRecursion": r"growing empty prefix recursi", "GrowAndShrinkRecursion": r"grow and shrink recursi"}
    recs = []
    for v in astb.info("RecursionType")["variants"]:
        if not v["fields"]:
            recs.append((v["name"], enum("RecursionType", v["name"]), 0))
        else:
            for k in (1, 2, 3, 4, 12, 40):
                recs.append((v["name"], enum("RecursionType", v["name"], vec(*[pair("k%d" % i, "d%d" % i) for i in range(k)])), k))
    for rn, rv, k in recs:
        for nn in (0, 1, 2, 3, 12, 40):
            if nn not in (0, 2) and rn != "NonRecursive":
                continue
            name = "description: %s with %d tasks, %d nullable" % (rn, k, nn)
            v = struct("MetaData", recursion=rv, nullables=vec(*N[:nn]), n_actions=num("A"), n_tasks=num("T"), n_methods=num("M"), domain_name=S(""))
            try:
                outs, e = texts.texts(cx.world, v)
            except Budget as ex:
                cx.undec("%s: %s" % (name, ex))
                continue
            good = bool(outs)
            for st, stk, sp, what in e.panics:
                good = False
                if not st.taint and not st.lossy:
                    cx.find(name + ": panic", "%s (%s)" % (stk[-1].short() if stk else at, sp), "%s panics (%s)" % (name, what))
            for st, t in outs:
                s = texts.flat(t, names)
                if st.taint or st.lossy or s is None:
                    cx.undec("%s: text not determined: %s" % (name, show(t)[:300]))
                    good = False
                    continue
                bad = []
                for lab, x in (("actions", A), (r"(abstract|compound)?\s*tasks", T_), ("methods", M)):
                    if not re.search(r"(?i)%s[^\n‹]*%s" % (lab, x), s):
                        bad.append("the number of " + lab.split("*")[-1])
                if re.findall(r"‹n\d+›", s) != ["‹n%d›" % i for i in range(nn)]:
                    bad.append("the nullable tasks, each once, in order")
                if not re.search("(?i)" + CLASS.get(rn, "."), s):
                    bad.append("the class of the hierarchy")
                want = []
                for i in range(k):
                    want.append("‹k%d›" % i)
                    if i < k - 1:
                        want.append("‹d%d›" % i)
                if re.findall(r"‹[kd]\d+›", s) != want:
                    bad.append("the cycle")
                for b in bad:
                    cx.find("description: " + b, at, "%s does not state %s: %s" % (name, b, s))
                    good = False
            if good:
                cx.ok({"case": name})
