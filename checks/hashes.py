"""C18: the abstract runs of the analysis are made twice, with hash tables that hand out their elements in the order of insertion
and in the reverse of it; both are orders that a hash table can have, so every result must be the same."""
import os, traceback
import absint, astb, par, scen
import semantic, graph, stages, jsonexp, lsp
from scen import *
from absint import Budget
from callgraph import CallGraph
from mir import strip_generics
from parsing import same
from robust import Quiet, at
from terms import *

_G = {}


# ------------------------------------------------------------------ families with several flaws at once
def several():
    base = semantic.base
    add = lambda xs, *ys: xs + list(ys)

    def mod(name, f, prob=True):
        d = base()
        f(d)
        return ("C18", name, d, prob)
    yield ("C18", "valid domain and problem", base(), True)
    yield mod("two cycles of types", lambda d: setattr(d, "types", d.types + Syms("c1:c2", "c2:c1", "e1:e2", "e2:e1")))
    yield mod("three undefined supertypes", lambda d: setattr(d, "types", d.types + Syms("x1:u1", "x2:u2", "x3:u3")))
    yield mod("a type with two parents, one undefined twice", lambda d: setattr(d, "types", d.types + Syms("x1:u1", "x1:tb", "x1:u2")))
    yield mod("a cycle and an undefined supertype", lambda d: setattr(d, "types", d.types + Syms("c1:c2", "c2:c1", "x1:u1")))
    yield mod("constants of undefined types", lambda d: setattr(d, "constants", d.constants + Syms("x1:u1", "x2:u2", "x3:u3")))
    yield mod("objects of undefined types", lambda d: setattr(d, "objects", d.objects + Syms("x1:u1", "x2:u2", "x3:u3")))
    yield mod("predicates of undefined types", lambda d: setattr(d, "preds", add(d.preds, Pr("w1", "?a:u1"), Pr("w2", "?a:u2", "?b:u3"))))
    yield mod("tasks of undefined types", lambda d: setattr(d, "tasks", add(d.tasks, Tk("w1", "?a:u1"), Tk("w2", "?a:u2", "?b:u3"))))
    yield mod("actions of undefined types", lambda d: setattr(d, "actions", add(d.actions, Ac("w1", ["?a:u1"]), Ac("w2", ["?a:u2", "?b:u3"]))))
    yield mod("methods of undefined types", lambda d: setattr(d, "methods", add(d.methods, Me("w1", "t0", [], ["?a:u1"]), Me("w2", "t0", [], ["?a:u2", "?b:u3"]))))
    yield mod("duplicate constants", lambda d: setattr(d, "constants", d.constants + Syms("x1", "x2", "x3", "x2", "x1", "x3")))
    yield mod("duplicate objects", lambda d: setattr(d, "objects", d.objects + Syms("x1", "x2", "x3", "x2", "x1", "x3")))
    yield mod("duplicate predicates", lambda d: setattr(d, "preds", add(d.preds, Pr("x1"), Pr("x2"), Pr("x2"), Pr("x1"))))
    yield mod("duplicate tasks", lambda d: setattr(d, "tasks", add(d.tasks, Tk("x1"), Tk("x2"), Tk("x2"), Tk("x1"))))
    yield mod("duplicate actions", lambda d: setattr(d, "actions", add(d.actions, Ac("x1", []), Ac("x2", []), Ac("x2", []), Ac("x1", []))))
    yield mod("duplicate methods", lambda d: setattr(d, "methods", add(d.methods, Me("x1", "t0", [], []), Me("x2", "t0", [], []), Me("x2", "t0", [], []), Me("x1", "t0", [], []))))
    yield mod("duplicate parameters", lambda d: setattr(d, "actions", add(d.actions, Ac("x1", ["?a", "?b", "?b", "?a"]), Ac("x2", ["?a", "?a"]))))
    yield mod("duplicate parameters of methods", lambda d: setattr(d, "methods", add(d.methods, Me("x1", "t0", [], ["?a", "?b", "?b", "?a"]), Me("x2", "t0", [], ["?a", "?a"]))))
    two = [("a", "b"), ("b", "a"), ("c", "d"), ("d", "c")]
    yield mod("two cycles of orderings", lambda d: setattr(d, "methods", add(d.methods, Me("x1", "t0", [], [], [St_("act0", id=i) for i in "abcd"], order=two))))
    yield mod("orderings with undefined ids", lambda d: setattr(d, "methods", add(d.methods, Me("x1", "t0", [], [], [St_("act0", id=i) for i in "abcd"], order=[("a", "z1"), ("z2", "b"), ("z3", "z4")]))))
    yield mod("two cycles of orderings in the initial network", lambda d: setattr(d, "tn", TN([St_("act0", id=i) for i in "abcd"], order=two)))
    yield mod("undefined subtasks", lambda d: setattr(d, "methods", add(d.methods, Me("x1", "t0", [], [], [St_("u1"), St_("u2"), St_("u3")]))))
    yield mod("undefined tasks of methods", lambda d: setattr(d, "methods", add(d.methods, Me("x1", "u1", [], []), Me("x2", "u2", [], []))))
    yield mod("undefined tasks in the initial network", lambda d: setattr(d, "tn", TN([St_("u1"), St_("u2"), St_("u3")])))
    yield mod("undefined parameters of subtasks", lambda d: setattr(d, "methods", add(d.methods, Me("x1", "t0", [], [], [St_("act", "?u1", "?u2"), St_("t", "?u3")]))))
    for pl, put, x, y in semantic.PLACES:
        bad = [(n, b) for p, n, b in semantic.bad_atoms(x, y) if n in ("undefined predicate", "too few arguments", "undefined last term", "wrong type second", "swapped types")]
        for n1, b1 in bad:
            for n2, b2 in bad:
                d = base()
                if pl.startswith("init"):
                    d.init = [b1(), b2()] + d.init
                else:
                    put(d, ("And", [b1(), ("Or", [b2(), Pr("nope2")])]))
                yield ("C18", "%s and %s in %s" % (n1, n2, pl), d, True)
    for t1, t2 in ((2, 5), (5, 5), (3, 4)):
        d = Dom()
        d.types = d.constants = None
        d.tasks = [Tk("t%d" % i) for i in range(t1 + t2)]
        d.actions = [Ac("a", []), Ac("b", [])]
        d.methods = [Me("m%d" % i, "t%d" % i, [], [], [St_("a")] if i % 2 else []) for i in range(t1)]
        d.methods += [Me("r%d" % i, "t%d" % (t1 + i), [], [], [St_("t%d" % (t1 + (i + 1) % t2))]) for i in range(t2 - 1)]
        yield ("C18", "%d tasks without primitive refinement" % t2, d, False)


def outcome(world, sc, rev, **k):
    absint.HASH_REV = rev
    try:
        r = scen.Run(world, sc[2], problem=sc[3], steps=300000, decide=scen.decide_names, **k)
    finally:
        absint.HASH_REV = False
    outs = [(st, v) for st, v in r.outs if not (st.taint or st.lossy)]
    return r, outs, len(outs) == len(r.outs)


def two_sem(world, sc, tdg=False):
    """[(key, where, text)], undecided or None, sites"""
    k = dict(tdg=False, unroll=True)
    r1, o1, c1 = outcome(world, sc, False, **k)
    r2, o2, c2 = outcome(world, sc, True, **k)
    hs = r1.e.hash_iter | r2.e.hash_iter
    if not (c1 and c2) or len(o1) != 1 or len(o2) != 1:
        why = "; ".join(sorted({str(t) for r in (r1, r2) for st, _ in r.outs for t in st.taint})) or "%d and %d outcomes" % (len(o1), len(o2))
        return [], why, hs
    (s1, v1), (s2, v2) = o1[0], o2[0]
    t = same(r1.e, s1, v1, v2)
    if t is False:
        return [("result on: " + sc[1], "; ".join("%s (%s)" % h for h in sorted(hs)) or semantic.entry_where(world),
                 "verification gives %s or %s, depending on the order of a hash table" % (show(v1)[:300], show(v2)[:300]))], None, hs
    return [], None if t else "results not comparable", hs


def two_graph(world, sh):
    rs = []
    for rev in (False, True):
        absint.HASH_REV = rev
        try:
            rs.append(graph.run(world, "C18", sh))
        finally:
            absint.HASH_REV = False
    (f1, n1, u1, rec1, h1), (f2, n2, u2, rec2, h2) = rs
    out = []
    a, b = {(q, k, t) for q, k, _, t in f1}, {(q, k, t) for q, k, _, t in f2}
    for q, k, t in sorted(a ^ b):
        out.append(("%s on: %s" % (k, sh.name), "; ".join("%s (%s)" % h for h in sorted(h1 | h2)), "only in one of two orders of the hash tables: " + t))
    if rec1 is not None and rec2 is not None and rec1 is not rec2:
        out.append(("cycle on: " + sh.name, "; ".join("%s (%s)" % h for h in sorted(h1 | h2)), "on %s the recursion is %s or %s, depending on the order of a hash table" % (
            sh.show(), show(rec1)[:200], show(rec2)[:200])))
    return out, "; ".join(u1 + u2)[:200] or None, h1 | h2


class Keep(Quiet):
    def __init__(self, cx, pid):
        Quiet.__init__(self, cx, pid)
        self.fs = {}
        self.un = 0

    def find(self, key, where, text):
        self.fs.setdefault(key, (where, text))

    def undec(self, *a):
        self.un += 1


def two_module(world, job):
    mod, fn, pid = job
    ks, hs = [], set()
    for rev in (False, True):
        absint.HASH_REV = rev
        absint.ENGINES = []
        k = Keep(_G["cx"], pid)
        try:
            getattr(mod, fn)(k)
        finally:
            for e in absint.ENGINES:
                hs |= e.hash_iter
            absint.ENGINES, absint.HASH_REV = None, False
        ks.append(k)
    out = []
    for key in sorted(set(ks[0].fs) ^ set(ks[1].fs)):
        where, text = (ks[0].fs.get(key) or ks[1].fs.get(key))
        out.append(("%s: %s" % (pid, key), where, "only in one of two orders of the hash tables: " + text))
    return out, "%d cases undecided" % ks[1].un if ks[1].un else None, hs


def work(i):
    kind, x = _G["todo"][i]
    try:
        return (i,) + {"semantic": two_sem, "graph": two_graph, "module": two_module}[kind](_G["world"], x)
    except Budget as ex:
        return i, [], str(ex), set()
    except Exception as ex:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return i, [], "%s: %s" % (type(ex).__name__, ex), set()


def check(cx):
    w = cx.world
    astb.setup(w)
    w.prelude
    deep = cx.tier == "thorough"
    sem = list(several()) + [s for k, s in enumerate(semantic.scenarios(deep)) if deep or "atom" not in s[1] or k % 9 == 0]
    gr = list(graph.shapes(deep, cx.seed))
    if not deep:
        gr = [s for k, s in enumerate(gr) if s.name not in ("two methods", "partially ordered method") or k % 4 == 0]
    todo = [("module", x) for x in ((stages, "meta", "C25"), (jsonexp, "check", "C16"), (lsp, "check", "C20"), (lsp, "diagnostics", "C21"))]
    todo += [("semantic", x) for x in sem] + [("graph", x) for x in gr]
    _G.update(world=w, todo=todo, cx=cx)
    hs = set()
    for i, res, why, h in par.each(cx, work, len(todo), 2):
        kind, x = todo[i]
        hs |= h
        name = x[1] if kind == "semantic" else x.show() if kind == "graph" else "%s.%s" % (x[0].__name__, x[1])
        cx.count("pairs of runs: " + kind)
        for key, where, text in res:
            cx.find(key, where, text)
        if why:
            cx.undec("%s: %s" % (name, why))
        elif not res:
            cx.ok({"kind": kind, "case": name})
    cx.stats["places where a hash table of several elements was iterated"] = sorted("%s (%s)" % x for x in hs)
