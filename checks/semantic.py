"""C09-C15: abstract interpretation of HDDLAnalyzer::verify on families of abstract syntax trees.

Names and lines are symbols (all that is known is which are equal), so one run covers every spelling and every layout.
The verdict of every abstract path must be one of the true errors of the family, or success if there is none."""
import os, itertools, traceback
import scen, oracle, absint, par, astb
from scen import *
from terms import *

B3 = (0, 1, 2)


def base():
    d = Dom()
    d.types = Syms("ta:tb", "tb:tc", "tc", "tu", "td:tb")
    d.constants = Syms("k1:ta", "k2:tu", "k3")
    d.preds = [Pr("p", "?x:tb"), Pr("q", "?x:tb", "?y:tu"), Pr("r"), Pr("z", "?x")]
    d.tasks = [Tk("t", "?x:tb"), Tk("t0"), Tk("t2", "?x:tb", "?y:tu")]
    d.actions = [Ac("act", ["?x:ta", "?y:tu"], Pr("p", "?x"), ("And", [Pr("q", "?x", "?y"), ("Not", Pr("r"))])),
                 Ac("act0", [], None, None), Ac("act1", ["?v:tb"], None, Pr("p", "?v"))]
    d.methods = [Me("m", "t", ["?x"], ["?x:ta", "?y:tu"], [St_("act", "?x", "?y", id="s1"), St_("t", "?x", id="s2")],
                    pre=Pr("p", "?x"), order=[("s1", "s2")]),
                 Me("m0", "t0", [], [], [St_("act0")]),
                 Me("m1", "t0", [], ["?v:tb"], [])]
    d.objects = Syms("o1:ta", "o2:tu", "o3")
    d.init = [Pr("p", "o1"), Pr("q", "o1", "o2"), Pr("r")]
    d.goal = Pr("p", "o1")
    d.tn = TN([St_("t", "o1")])
    return d


# ------------------------------------------------------------------ formula contexts
def contexts():
    """name -> fn(formula) : every operator, the hole at every kind of position"""
    b = lambda: Pr("r")
    yield "And.first", lambda f: ("And", [f, b()])
    yield "And.last", lambda f: ("And", [b(), b(), f])
    yield "And.single", lambda f: ("And", [f])
    yield "Or.first", lambda f: ("Or", [f, b()])
    yield "Or.last", lambda f: ("Or", [b(), f])
    yield "Xor.last", lambda f: ("Xor", [b(), f])
    yield "Xor.first", lambda f: ("Xor", [f, b()])
    yield "Not", lambda f: ("Not", f)
    yield "Imply.if", lambda f: ("Imply", [b(), f], [b()])
    yield "Imply.then", lambda f: ("Imply", [b()], [b(), f])
    yield "Exists", lambda f: ("Exists", Syms("?q:ta"), f)
    yield "ForAll", lambda f: ("ForAll", Syms("?q:ta"), f)
    yield "Weighted", lambda f: ("Weighted", f)
    yield "And.eq", lambda f: ("And", [("Equals", "?x", "?y"), f])
    yield "And.empty", lambda f: ("And", [("Empty",), f])
    yield "And.quant", lambda f: ("And", [("ForAll", Syms("?q:ta"), Pr("p", "?q")), f])
    yield "And.not", lambda f: ("And", [("Not", b()), f, b()])


CTX = list(contexts())
OUTER = [c for c in CTX if c[0] in ("And.last", "Or.first", "Xor.last", "Not", "Imply.if", "Imply.then", "Exists", "ForAll",
                                    "Weighted")]


def all_contexts(deep):
    yield "", lambda f: f
    for n, c in CTX:
        yield n, c
    for n, c in OUTER:
        for n2, c2 in (OUTER if deep else [x for x in OUTER if x[0] in ("And.last", "Not", "ForAll", "Imply.then")]):
            yield n + "/" + n2, (lambda c, c2: lambda f: c(c2(f)))(c, c2)


# where formulae occur: name, setter, argument names of type tb/tu/none in scope
def places():
    def pre(d, f):
        d.actions[0].pre = f

    def eff(d, f):
        d.actions[0].eff = f

    def preb(d, f):
        d.actions.append(Ac("act9", ["?x:ta", "?y:tu"], f, None))

    def effb(d, f):
        d.actions.append(Ac("act9", ["?x:ta", "?y:tu"], Pr("r"), f))

    def mpre(d, f):
        d.methods[0].pre = f

    def mpreb(d, f):
        d.methods.append(Me("m9", "t0", [], ["?x:ta", "?y:tu"], [], pre=f))

    def goal(d, f):
        d.goal = f
    yield "action precondition", pre, "?x", "?y"
    yield "action effect", eff, "?x", "?y"
    yield "last action precondition", preb, "?x", "?y"
    yield "last action effect", effb, "?x", "?y"
    yield "method precondition", mpre, "?x", "?y"
    yield "last method precondition", mpreb, "?x", "?y"
    yield "goal", goal, "o1", "o2"


def init_place(d, f):
    d.init = d.init + [f]


def init_first(d, f):
    d.init = [f] + d.init


PLACES = list(places()) + [("init", init_place, "o1", "o2"), ("init first", init_first, "o1", "o2")]


def bad_atoms(x, y):
    """flawed atoms: (property, name, maker)"""
    yield "C10", "undefined predicate", lambda: Pr("nope", x)
    yield "C10", "undefined predicate without arguments", lambda: Pr("nope")
    yield "C11", "too few arguments", lambda: Pr("q", x)
    yield "C11", "no arguments", lambda: Pr("p")
    yield "C11", "too many arguments", lambda: Pr("p", x, x)
    yield "C11", "argument for none", lambda: Pr("r", y)
    yield "C10", "undefined term", lambda: Pr("p", "gone")
    yield "C10", "undefined last term", lambda: Pr("q", x, "gone")
    yield "C10", "undefined first term", lambda: Pr("q", "gone", y)
    yield "C12", "wrong type", lambda: Pr("p", y)
    yield "C12", "wrong type second", lambda: Pr("q", x, x)
    yield "C12", "wrong type first", lambda: Pr("q", y, y)
    yield "C12", "swapped types", lambda: Pr("q", y, x)
    yield "C12", "typed for untyped", lambda: Pr("z", x)
    yield "C12", "untyped constant for typed", lambda: Pr("p", "k3")
    yield "C12", "constant of wrong type", lambda: Pr("p", "k2")
    yield "C12", "constant of wrong type second", lambda: Pr("q", x, "k1")


def good_atoms(x, y):
    yield "subtype", lambda: Pr("p", x)
    yield "both", lambda: Pr("q", x, y)
    yield "constants", lambda: Pr("q", "k1", "k2")
    yield "untyped constant", lambda: Pr("z", "k3")
    yield "none", lambda: Pr("r")


def scenarios(deep=False):
    """(property, name, domain, with problem)"""
    def S(p, n, d, prob=True):
        return (p, n, d, prob)
    # ---- valid ones
    yield S("C14", "valid domain and problem", base())
    yield S("C14", "valid domain", base(), False)
    d = Dom()
    d.types = d.constants = None
    yield S("C14", "empty domain and problem", d)
    yield S("C14", "empty domain", d.copy(), False)
    d = base()
    d.tnparams = Syms("?o:ta", "?w:tu")
    d.tn = TN([St_("t", "?o", id="a"), St_("act", "?o", "?w", id="b"), St_("t2", "?o", "o2", id="c"), St_("act0", id="e")],
              order=[("a", "b"), ("b", "c"), ("a", "c")])
    yield S("C14", "valid initial task network", d)
    d = base()
    d.tn = None
    d.goal = None
    d.init = []
    yield S("C14", "problem without goal and network", d)
    d = base()
    d.objects = Syms("k2:ta", "o2:tu", "o3")   # the object hides the constant of another type
    d.init = [Pr("p", "k2")]
    d.goal = Pr("p", "k2")
    d.tn = TN([St_("t", "k2")])
    yield S("C14", "object hides constant", d)
    d = base()
    d.objects = Syms("k1:tu", "o2:tu", "o1:ta")
    for pl, f in (("init", lambda d: d.init.append(Pr("p", "k1"))), ("goal", lambda d: setattr(d, "goal", Pr("p", "k1"))),
                  ("tn", lambda d: setattr(d, "tn", TN([St_("t", "k1")])))):
        e = d.copy()
        f(e)
        yield S("C12", "ill-typed object hides constant: " + pl, e)
    # parameters hide constants
    for n, good, ps in (("hides an ill-typed constant", True, ["k2:ta", "?y:tu"]), ("of the wrong type hides a constant", False, ["k1:tu", "?y:tu"]),
                        ("of a subtype hides its constant", True, ["?y:tu", "k1:ta"]), ("without type hides a constant", False, ["?y:tu", "k1"])):
        x = [q for q in ps if q[0] == "k"][0].split(":")[0]
        for site, put in (
                ("action precondition", lambda d: d.actions.append(Ac("a9", ps, Pr("p", x)))),
                ("action effect", lambda d: d.actions.insert(0, Ac("a9", ps, None, Pr("p", x)))),
                ("method precondition", lambda d: d.methods.append(Me("m9", "t0", [], ps, [], pre=Pr("p", x)))),
                ("task of a method", lambda d: d.methods.append(Me("m9", "t", [x], ps, []))),
                ("subtask of a method", lambda d: d.methods.append(Me("m9", "t0", [], ps, [St_("t", x)]))),
                ("action of a method", lambda d: d.methods.append(Me("m9", "t0", [], ps, [St_("act1", x)]))),
                ("initial network", lambda d: (setattr(d, "tnparams", Syms(*ps)), setattr(d, "tn", TN([St_("t", x)])))),
                ("action of the initial network", lambda d: (setattr(d, "tnparams", Syms(*ps)), setattr(d, "tn", TN([St_("act1", x)]))))):
            e = base()
            put(e)
            yield S("C14" if good else "C12", "parameter %s: %s" % (n, site), e, "network" in site)
            if site == "initial network" or site == "action of the initial network":
                e = base()
                put(e)
                e.constants = None
                yield S("C14" if good else "C12", "parameter %s (without constants): %s" % (n, site), e)
    # a predicate argument that is of an indirect supertype, several parents
    d = base()
    d.types = Syms("ta:tx", "ta:ty", "ty:tb", "tb:tc", "tc", "tu", "tx")
    yield S("C14", "type with two parents", d)
    d = base()
    d.types = Syms("ta:t5", "t5:t6", "t6:t7", "t7:tb", "tb:tc", "tc", "tu")
    yield S("C14", "long chain of types", d)
    d = base()
    d.types = Syms("tc", "tu", "tb:tc", "ta:tb")
    yield S("C14", "parents declared first", d)
    d = base()
    d.preds[0] = Pr("p", "?x:tc")
    d.tasks[0] = Tk("t", "?x:tc")
    yield S("C14", "grandparent type expected", d)
    for pl, put, x, y in PLACES:
        for gn, g in good_atoms(x, y):
            dd = base()
            put(dd, g())
            yield S("C14", "valid atom (%s) in %s" % (gn, pl), dd)
        if not pl.startswith("init"):
            for cn, c in CTX:
                dd = base()
                put(dd, c(Pr("q", x, y)))
                yield S("C14", "valid atom in %s in %s" % (cn, pl), dd)
            dd = base()
            put(dd, ("ForAll", Syms("?q:ta"), ("And", [Pr("p", "?q"), ("Exists", Syms("?w:tu"), Pr("q", "?q", "?w"))])))
            yield S("C14", "quantified variables in " + pl, dd)
            dd = base()
            put(dd, ("And", []))
            yield S("C14", "empty conjunction in " + pl, dd)
    # ---- flawed atoms
    for pl, put, x, y in PLACES:
        for p, bn, b in bad_atoms(x, y):
            for cn, c in all_contexts(deep):
                if cn and pl.startswith("init"):
                    continue
                if cn and ("/" in cn or pl.startswith("last")) and bn not in ("undefined predicate", "too few arguments", "undefined last term",
                                             "wrong type second"):
                    continue
                if "/" in cn and pl.startswith("last"):
                    continue
                quant = "Exists" in cn or "ForAll" in cn
                if quant and (bn not in ("undefined predicate", "too few arguments") or pl == "goal"):
                    continue
                dd = base()
                put(dd, c(b()))
                yield S(p, "%s in %s%s" % (bn, pl, " under " + cn if cn else ""), dd, pl in ("goal", "init", "init first") or cn == "")
    # ---- duplicates
    def dup_list(get, mk1, what, prob=False):
        for n in (2, 3):
            for i, j in itertools.combinations(range(n), 2):
                for v in (0, 1):
                    dd = base()
                    xs = [mk1("n%d" % k, 0) for k in range(n)]
                    xs[j] = mk1("n%d" % i, v)
                    get(dd, xs)
                    yield S("C09", "duplicate %s %d of %d repeats %d%s" % (what, j, n, i, " (different contents)" if v else ""), dd, prob)
        # behind the regular elements
        dd = base()
        get(dd, [mk1("n0", 0), mk1("n1", 1), mk1("n1", 0), mk1("n0", 0)])
        yield S("C09", "two duplicate %ss" % what, dd, prob)
        dd = base()
        get(dd, [mk1("n0", 0), mk1("n1", 1), mk1("n2", 0)])
        yield S("C14", "no duplicate %s" % what, dd, prob)

    def add(attr):
        return lambda d, xs: setattr(d, attr, getattr(d, attr) + xs)
    yield from dup_list(add("preds"), lambda n, v: Pr(n, "?x:ta", "?y") if v else Pr(n), "predicate")
    yield from dup_list(add("tasks"), lambda n, v: Tk(n, "?x:ta") if v else Tk(n), "task")
    yield from dup_list(add("constants"), lambda n, v: Sy(n, "ta") if v else Sy(n), "constant")
    yield from dup_list(add("objects"), lambda n, v: Sy(n, "ta") if v else Sy(n), "object", True)
    yield from dup_list(add("actions"), lambda n, v: Ac(n, ["?x:ta"], Pr("p", "?x")) if v else Ac(n, []), "action")
    yield from dup_list(add("methods"), lambda n, v: Me(n, "t", ["?x"], ["?x:tb"], [St_("act0")]) if v else Me(n, "t0", [], []), "method")
    yield from dup_list(lambda d, xs: setattr(d.actions[0], "params", d.actions[0].params + xs),
                        lambda n, v: Sy(n, "ta") if v else Sy(n), "action parameter")
    yield from dup_list(lambda d, xs: d.actions.append(Ac("act9", xs)), lambda n, v: Sy(n, "ta") if v else Sy(n), "parameter of the last action")
    yield from dup_list(lambda d, xs: setattr(d.methods[0], "params", d.methods[0].params + xs),
                        lambda n, v: Sy(n, "ta") if v else Sy(n), "method parameter")
    yield from dup_list(lambda d, xs: d.methods.append(Me("m9", "t0", [], xs)), lambda n, v: Sy(n, "ta") if v else Sy(n),
                        "parameter of the last method")
    # the repeated name is that of a regular element
    for attr in ("preds", "tasks", "constants", "objects", "actions", "methods"):
        for k in B3:
            dd = base()
            xs = getattr(dd, attr)
            import copy
            c = copy.deepcopy(xs[k])
            (c.name if attr == "methods" else c).line = Line("again")
            xs.append(c)
            yield S("C09", "copy of element %d of %s" % (k, attr), dd, attr == "objects")
    reqs = requirements()
    for n in (2, 3, 4):
        for i, j in itertools.combinations(range(n), 2):
            dd = base()
            dd.reqs = list(reqs[:n])
            dd.reqs[j] = dd.reqs[i]
            yield S("C09", "requirement %d of %d repeats %d" % (j, n, i), dd, False)
    dd = base()
    dd.reqs = list(reqs)
    yield S("C14", "all requirements once", dd, False)
    for i in range(len(reqs)):
        dd = base()
        dd.reqs = list(reqs) + [reqs[i]]
        yield S("C09", "requirement number %d again" % i, dd, False)
    # ---- undeclared types
    tsites = [
        ("constant", lambda d, s: d.constants.append(s)), ("first constant", lambda d, s: d.constants.insert(0, s)),
        ("object", lambda d, s: d.objects.append(s)), ("first object", lambda d, s: d.objects.insert(0, s)),
        ("predicate parameter", lambda d, s: d.preds.append(Pr("p9", s))),
        ("later predicate parameter", lambda d, s: d.preds.append(Pr("p9", "?m:ta", "?n", s))),
        ("parameter of the first predicate", lambda d, s: d.preds.insert(0, Pr("p9", s, "?n"))),
        ("task parameter", lambda d, s: d.tasks.append(Tk("t9", s))),
        ("later task parameter", lambda d, s: d.tasks.append(Tk("t9", "?m:ta", "?n", s))),
        ("parameter of the first task", lambda d, s: d.tasks.insert(0, Tk("t9", s, "?n"))),
        ("action parameter", lambda d, s: d.actions.append(Ac("a9", [s]))),
        ("later action parameter", lambda d, s: d.actions.append(Ac("a9", ["?m:ta", "?n", s], Pr("p", "?m")))),
        ("parameter of the first action", lambda d, s: d.actions.insert(0, Ac("a9", [s, "?n"]))),
        ("method parameter", lambda d, s: d.methods.append(Me("m9", "t0", [], [s]))),
        ("later method parameter", lambda d, s: d.methods.append(Me("m9", "t0", [], ["?m:ta", "?n", s], pre=Pr("p", "?m")))),
        ("parameter of the first method", lambda d, s: d.methods.insert(0, Me("m9", "t0", [], [s, "?n"]))),
        ("network parameter", lambda d, s: setattr(d, "tnparams", [s])),
        ("later network parameter", lambda d, s: setattr(d, "tnparams", Syms("?m:ta", "?n") + [s])),
    ]
    for n, put in tsites:
        dd = base()
        put(dd, Sy("?z9", "ghost"))
        yield S("C10", "undeclared type of a " + n, dd)
        dd = base()
        put(dd, Sy("?z9", "tc"))
        yield S("C14", "declared type of a " + n, dd)
    for n, put in (("constant", lambda d: setattr(d, "constants", Syms("c:ta"))), ("object", lambda d: setattr(d, "objects", Syms("c:ta"))),
                   ("predicate parameter", lambda d: setattr(d, "preds", [Pr("p", "?x:ta")])),
                   ("action parameter", lambda d: setattr(d, "actions", [Ac("a", ["?x:ta"])]))):
        for ty in (None, []):
            dd = Dom()
            dd.types, dd.constants = ty, None
            put(dd)
            yield S("C10", "type of a %s with %s types" % (n, "no" if ty is None else "empty"), dd)
    # ---- tasks
    def msite(name, f, p=None, prob=False):
        dd = base()
        f(dd)
        return S(p, name, dd, prob)
    MP = ["?x:ta", "?y:tu", "?u"]
    subs = [
        ("C10", "undefined subtask", ("nope", ["?x"])), ("C10", "undefined subtask without terms", ("nope", [])),
        ("C11", "too few terms for a task", ("t", [])), ("C11", "too many terms for a task", ("t", ["?x", "?x"])),
        ("C11", "terms for a task without", ("t0", ["?x"])), ("C11", "too few terms for an action", ("act", ["?x"])),
        ("C11", "no terms for an action", ("act", [])), ("C11", "too many terms for an action", ("act", ["?x", "?y", "?y"])),
        ("C11", "terms for an action without", ("act0", ["?y"])),
        ("C10", "undefined term of a task", ("t", ["gone"])), ("C10", "undefined term of an action", ("act", ["?x", "gone"])),
        ("C10", "undefined first term of an action", ("act", ["gone", "?y"])),
        ("C10", "undefined second term of a task", ("t2", ["?x", "gone"])),
        ("C12", "wrong type for a task", ("t", ["?y"])), ("C12", "wrong type for an action", ("act", ["?x", "?x"])),
        ("C12", "wrong type first for an action", ("act", ["?y", "?y"])), ("C12", "wrong second type for a task", ("t2", ["?x", "?x"])),
        ("C12", "wrong first type for a task", ("t2", ["?y", "?y"])), ("C12", "swapped types for a task", ("t2", ["?y", "?x"])),
        ("C12", "constant of wrong type for a task", ("t", ["k2"])), ("C12", "untyped constant for a task", ("t", ["k3"])),
        ("C12", "constant of wrong type for an action", ("act", ["k1", "k1"])), ("C12", "untyped for a task", ("t", ["?u"])),
        ("C12", "untyped for an action", ("act", ["?x", "?u"])),
        ("C14", "constants for a task", ("t2", ["k1", "k2"])), ("C14", "constants for an action", ("act", ["k1", "k2"])),
        ("C14", "valid task", ("t2", ["?x", "?y"])), ("C14", "valid action", ("act", ["?x", "?y"])), ("C14", "valid task without terms", ("t0", [])),
        ("C14", "valid action without terms", ("act0", [])),
    ]
    for p, n, (t, terms) in subs:
        for w in ("only", "first", "last"):
            for mw in (("first", "last") if w == "last" else ("last",)):
                dd = base()
                st = St_(t, *terms)
                ss = {"only": [st], "first": [st, St_("act0"), St_("t0")], "last": [St_("act0"), St_("t", "?x"), st]}[w]
                m = Me("m9", "t0", [], list(MP), ss)
                dd.methods = dd.methods + [m] if mw == "last" else [m] + dd.methods
                yield S(p, "%s as %s subtask of the %s method" % (n, w, mw), dd, False)
        ot = {"?x": "o1", "?y": "o2", "?u": "o3"}
        for w in ("only", "first", "last"):
            for style in (("o", "p") if w == "only" else ("o",)):
                dd = base()
                if style == "p":
                    dd.tnparams = Syms(*MP)
                    st = St_(t, *terms)
                else:
                    st = St_(t, *[ot.get(x, x) for x in terms])
                dd.tn = TN({"only": [st], "first": [st, St_("act0"), St_("t0")], "last": [St_("act0"), St_("t", "o1"), st]}[w])
                yield S(p, "%s as %s subtask of the initial network%s" % (n, w, " with parameters" if style == "p" else ""), dd)
        # the decomposed task
        dd = base()
        dd.methods.append(Me("m9", t, terms, list(MP), []))
        yield S(p if not t.startswith("act") else "C10", "%s as the task of a method" % n, dd, False)
    dd = base()
    dd.actions.append(Ac("act5", ["?a:tc", "?b:tc", "?c:tc"]))
    dd.tasks.append(Tk("t5", "?a:tc", "?b:tc", "?c:tc"))
    dd.methods.append(Me("m9", "t5", ["?x", "?z", "k1"], ["?x:ta", "?z:tb"], [St_("act5", "?x", "?z", "k1"), St_("t5", "?z", "k1", "?x")]))
    dd.tn = TN([St_("t5", "o1", "k1", "o1"), St_("act5", "o1", "k1", "o1")])
    yield S("C14", "three arguments of three subtypes", dd)
    # ---- supertypes are not enough
    for pl, put, x, y in PLACES:
        dd = base()
        dd.preds.append(Pr("pa", "?x:ta"))
        dd.actions[0].params[0].ty = "ta"
        dd.constants.append(Sy("kb", "tb"))
        put(dd, Pr("pa", "kb"))
        yield S("C12", "supertype for subtype in " + pl, dd)
        dd = base()
        dd.constants.append(Sy("kd", "td"))
        dd.preds.append(Pr("pa", "?x:ta"))
        put(dd, Pr("pa", "kd"))
        yield S("C12", "sibling type in " + pl, dd)
        dd = base()
        dd.types.append(Sy("alone"))
        dd.constants.append(Sy("kz", "alone"))
        put(dd, Pr("p", "kz"))
        yield S("C12", "unrelated type in " + pl, dd)
        dd = base()
        dd.types = Syms("ta", "tb", "tc", "tu", "td")
        dd.preds = [Pr("p", "?x:ta"), Pr("q", "?x:ta", "?y:tu"), Pr("r"), Pr("z", "?x")]
        dd.tasks = [Tk("t", "?x:ta"), Tk("t0"), Tk("t2", "?x:ta", "?y:tu")]
        dd.actions[2].params[0].ty = "ta"
        dd.constants.append(Sy("kd", "td"))
        put(dd, Pr("p", "kd"))
        yield S("C12", "flat types in " + pl, dd)
    # ---- cycles
    def cyc(k, extra=""):
        return ["c%d:c%d" % (i, (i + 1) % k) for i in range(k)]
    for k in (1, 2, 3, 4, 5):
        for w in ("before", "after"):
            dd = base()
            ts = Syms(*cyc(k))
            dd.types = ts + dd.types if w == "before" else dd.types + ts
            yield S("C13", "type cycle of length %d %s the other types" % (k, w), dd, k % 2 == 0)
    dd = base()
    dd.types = dd.types + Syms("tc:ta")
    yield S("C13", "cycle through the used types", dd, False)
    dd = base()
    dd.types = dd.types + Syms("e1:e2", "e1:e3", "e2:e4", "e3:e4", "e5:e1")
    yield S("C13", "diamond of types is no cycle", dd, False)
    dd = base()
    dd.types = dd.types + Syms("e1:e2", "e2:e3", "e3:e4", "e4:e2")
    yield S("C13", "type leading into a cycle", dd, False)
    orders = [
        ("self", [("a", "a")], True), ("two", [("a", "b"), ("b", "a")], True), ("three", [("a", "b"), ("b", "c"), ("c", "a")], True),
        ("tail", [("a", "b"), ("b", "c"), ("c", "b")], True), ("later", [("a", "b"), ("c", "d"), ("d", "c")], True),
        ("four", [("a", "b"), ("c", "d"), ("b", "c"), ("d", "a")], True), ("reversed", [("b", "a"), ("c", "b"), ("a", "c")], True),
        ("chain", [("a", "b"), ("b", "c"), ("c", "d")], False), ("diamond", [("a", "b"), ("a", "c"), ("b", "d"), ("c", "d")], False),
        ("converging", [("a", "d"), ("b", "d"), ("c", "d")], False), ("repeated", [("a", "b"), ("a", "b")], False), ("none", [], False),
        ("backward chain", [("c", "d"), ("b", "c"), ("a", "b")], False),
    ]
    for n, o, bad in orders:
        ss = [St_("act0", id=i) for i in "abcd"]
        for mw in ("first", "last"):
            dd = base()
            m = Me("m9", "t0", [], [], ss, order=o)
            dd.methods = dd.methods + [m] if mw == "last" else [m] + dd.methods
            yield S("C13", "ordering %s in the %s method" % (n, mw), dd, False)
        dd = base()
        dd.tn = TN(ss, order=o)
        yield S("C13", "ordering %s in the initial network" % n, dd)
    # ---- warnings
    for k in (0, 1, 2, 3):
        for prob in (False, True):
            dd = Dom()
            dd.types = dd.constants = None
            dd.tasks = [Tk("t%d" % i) for i in range(k)]
            yield S("C15", "%d compound tasks%s" % (k, " and a problem" if prob else ""), dd, prob)
            if k:
                dd = dd.copy()
                dd.actions = [Ac("a", [])]
                dd.methods = [Me("m", "t0", [], [], [St_("a")])]
                dd.tn = TN([St_("t0")])
                yield S("C15", "%d compound tasks and methods%s" % (k, " and a problem" if prob else ""), dd, prob)


def long_scenarios(n=70, depth=40):
    """long lists, chains and cycles, deep formulae: no size is special"""
    def S(p, nm_, d, prob=True):
        return (p, nm_, d, prob)

    def with_list(attr, xs, d=None):
        d = d or base()
        setattr(d, attr, getattr(d, attr) + xs)
        return d
    fresh = {
        "preds": lambda i: Pr("n%d" % i, "?x:ta"), "tasks": lambda i: Tk("n%d" % i, "?x:ta"), "constants": lambda i: Sy("n%d" % i, "ta"),
        "objects": lambda i: Sy("n%d" % i, "ta"), "actions": lambda i: Ac("n%d" % i, ["?x:ta"], Pr("p", "?x")),
        "methods": lambda i: Me("n%d" % i, "t", ["?x"], ["?x:tb"], [St_("act0")]),
    }
    few = min(n, 36)
    N = n
    for a, f in fresh.items():
        n = few if a in ("actions", "tasks", "methods") else N
        xs = [f(i) for i in range(n)]
        yield S("C14", "%d further %s" % (n, a), with_list(a, xs), a == "objects")
        for i, j in ((0, n), (n // 2, n), (n - 1, n), (3, n // 2), (0, 1), (n // 2, n // 2 + 10)):
            ys = list(xs)
            ys.insert(j, f(i))
            yield S("C09", "element %d of %d %s is element %d again" % (j, n, a, i), with_list(a, ys), a == "objects")
        # the first one of the regular elements again
        d = with_list(a, xs)
        import copy
        c = copy.deepcopy(getattr(d, a)[0])
        (c.name if a == "methods" else c).line = Line("again")
        getattr(d, a).append(c)
        yield S("C09", "first of many %s again" % a, d, a == "objects")
    n = N
    ps = ["?n%d:ta" % i for i in range(n)]
    for what, put in (("action", lambda d, ps: d.actions.append(Ac("a9", ps))), ("method", lambda d, ps: d.methods.append(Me("m9", "t0", [], ps, []))),):
        d = base()
        put(d, ps)
        yield S("C14", "%d parameters of the last %s" % (n, what), d, False)
        for i, j in ((0, n), (n - 1, n), (n // 2, n - 1), (1, 30)):
            d = base()
            qs = list(ps)
            qs.insert(j, ps[i])
            put(d, qs)
            yield S("C09", "parameter %d of %d of the last %s is parameter %d again" % (j, n, what, i), d, False)
    # undeclared types at the end of long lists
    for what, put in (
            ("constant", lambda d, x: with_list("constants", [fresh["constants"](i) for i in range(n)] + [x], d)),
            ("object", lambda d, x: with_list("objects", [fresh["objects"](i) for i in range(n)] + [x], d)),
            ("predicate parameter", lambda d, x: d.preds.append(Pr("p9", *(Syms(*ps) + [x])))),
            ("task parameter", lambda d, x: d.tasks.append(Tk("t9", *(Syms(*ps) + [x])))),
            ("action parameter", lambda d, x: d.actions.append(Ac("a9", Syms(*ps) + [x]))),
            ("method parameter", lambda d, x: d.methods.append(Me("m9", "t0", [], Syms(*ps) + [x]))),
            ("network parameter", lambda d, x: setattr(d, "tnparams", Syms(*ps) + [x]))):
        for ty in ("ghost", "tc"):
            d = base()
            put(d, Sy("?z9", ty))
            yield S("C10" if ty == "ghost" else "C14", "%s type of the last of many %ss" % ("undeclared" if ty == "ghost" else "declared", what), d)
    # many arguments
    for last, p, what in (("?n0", "C14", "right"), ("?y", "C12", "wrong last"), (None, "C11", "one too few"), ("+", "C11", "one too many"), ("gone", "C10", "undeclared last")):
        def args(x, y):
            xs = [x] * (n - 1)
            return xs if last is None else xs + [x, x] if last == "+" else xs + [{"?n0": x, "?y": y}.get(last, last)]
        for pl, put, x, y in PLACES:
            d = base()
            d.preds.append(Pr("big", *ps))
            put(d, Pr("big", *args(x, y)))
            yield S(p, "%s of %d arguments in %s" % (what, n, pl), d, pl in ("goal", "init", "init first"))
        for kind in ("task", "action"):
            def decl():
                d = base()
                if kind == "task":
                    d.tasks.append(Tk("big", *ps))
                else:
                    d.actions.append(Ac("big", ps))
                return d
            d = decl()
            d.methods.append(Me("m9", "t0", [], ["?x:ta", "?y:tu"], [St_("big", *args("?x", "?y"))]))
            yield S(p, "%s of %d arguments of a sub%s" % (what, n, kind), d, False)
            d = decl()
            d.tn = TN([St_("big", *args("o1", "o2"))])
            yield S(p, "%s of %d arguments of a %s of the initial network" % (what, n, kind), d)
            if kind == "task":
                d = decl()
                d.methods.append(Me("m9", "big", args("?x", "?y"), ["?x:ta", "?y:tu"], []))
                yield S(p, "%s of %d arguments of the task of a method" % (what, n), d, False)
    # the last of many things is flawed
    flaws = [("C10", "undeclared predicate", lambda x, y: Pr("nope", x)), ("C11", "too few arguments", lambda x, y: Pr("q", x)),
             ("C12", "wrong type", lambda x, y: Pr("p", y)), ("C10", "undeclared term", lambda x, y: Pr("p", "gone")), ("C14", "no flaw", lambda x, y: Pr("q", x, y))]
    for p, what, bad in flaws:
        b = bad("?x", "?y")
        for a in ("preconditions", "effects"):
            d = base()
            for i in range(few):
                d.actions.append(Ac("n%d" % i, ["?x:ta", "?y:tu"], Pr("p", "?x"), Pr("r")))
            d.actions.append(Ac("a9", ["?x:ta", "?y:tu"], b if a[0] == "p" else None, b if a[0] == "e" else None))
            yield S(p, "%s in the %s of the last of %d actions" % (what, a, few), d, False)
        d = base()
        for i in range(few):
            d.methods.append(Me("n%d" % i, "t", ["?x"], ["?x:ta"], [St_("act0")], pre=Pr("p", "?x")))
        d.methods.append(Me("m9", "t0", [], ["?x:ta", "?y:tu"], [], pre=b))
        yield S(p, "%s in the precondition of the last of %d methods" % (what, few), d, False)
        d = base()
        d.init += [Pr("p", "o1") for i in range(n)] + [bad("o1", "o2")]
        yield S(p, "%s in the last of %d facts" % (what, n), d)
        for op in ("And", "Or", "Xor"):
            for pl, put, x, y in PLACES[:1] + PLACES[1:2] + PLACES[4:5] + PLACES[6:7]:
                d = base()
                put(d, (op, [Pr("p", x) for i in range(n)] + [bad(x, y)]))
                yield S(p, "%s in the last of %d members of %s in %s" % (what, n, op, pl), d, pl == "goal")
        quant = p in ("C12",) or what == "undeclared term"
        for cn in ("And.single", "Or.last", "Xor.last", "Not", "Imply.if", "Imply.then", "Weighted") + (() if quant else ("Exists", "ForAll")):
            c = dict(CTX)[cn]
            for pl, put, x, y in PLACES[:1] + PLACES[1:2] + PLACES[4:5] + PLACES[6:7]:
                if pl == "goal" and cn in ("Exists", "ForAll") and p != "C14":
                    continue
                f = bad(x, y)
                for _ in range(depth):
                    f = c(f)
                d = base()
                put(d, f)
                yield S(p, "%s in %s below %d times %s" % (what, pl, depth, cn), d, pl == "goal")
    subs = [("C10", "undeclared subtask", ("nope", [])), ("C10", "undeclared term", ("t", ["gone"])), ("C11", "too few terms", ("act", ["?x"])),
            ("C12", "wrong type", ("act", ["?x", "?x"])), ("C14", "no flaw", ("act", ["?x", "?y"]))]
    for p, what, (t, terms) in subs:
        d = base()
        d.methods.append(Me("m9", "t0", [], ["?x:ta", "?y:tu"], [St_("act0") for i in range(n)] + [St_(t, *terms)]))
        yield S(p, "%s in the last of %d subtasks" % (what, n), d, False)
        d = base()
        for i in range(few):
            d.methods.append(Me("n%d" % i, "t", ["?x"], ["?x:ta"], [St_("act0")]))
        d.methods.append(Me("m9", "t0", [], ["?x:ta", "?y:tu"], [St_(t, *terms)]))
        yield S(p, "%s in a subtask of the last of %d methods" % (what, few), d, False)
        d = base()
        d.tn = TN([St_("act0") for i in range(n)] + [St_(t, *[{"?x": "o1", "?y": "o2"}.get(x, x) for x in terms])])
        yield S(p, "%s in the last of %d subtasks of the initial network" % (what, n), d)
    # chains and cycles of types
    for up in (False, True):
        ch = ["h%d:h%d" % (i, i + 1) for i in range(n)] + ["h%d" % n]
        ts = Syms(*(ch[::-1] if up else ch))
        for good in (True, False):
            d = base()
            d.types = ts + d.types
            d.preds.append(Pr("hp", "?x:h%d" % (n if good else n // 2)))
            d.constants.append(Sy("kh", "h0" if good else "h%d" % (n // 2 + 1)))
            d.init.append(Pr("hp", "kh"))
            yield S("C14" if good else "C12", "%s over a chain of %d types%s" % ("subtype" if good else "supertype", n, " (upwards)" if up else ""), d)
            d = base()
            d.types = ts + d.types
            d.tasks.append(Tk("ht", "?x:h%d" % (n if good else n // 2)))
            d.methods.append(Me("m9", "t0", [], ["?h:%s" % ("h0" if good else "h%d" % (n // 2 + 1))], [St_("ht", "?h")]))
            yield S("C14" if good else "C12", "%s of a subtask over a chain of %d types%s" % ("subtype" if good else "supertype", n, " (upwards)" if up else ""), d, False)
        for w in ("before", "after"):
            d = base()
            cs = ["c%d:c%d" % (i, (i + 1) % n) for i in range(n)]
            cs = Syms(*(cs[::-1] if up else cs))
            d.types = cs + d.types if w == "before" else d.types + cs
            yield S("C13", "type cycle of length %d %s the other types%s" % (n, w, " (upwards)" if up else ""), d, False)
        ids = ["i%d" % i for i in range(n)]
        for good in (True, False):
            o = list(zip(ids, ids[1:])) + ([] if good else [(ids[-1], ids[0])])
            o = o[::-1] if up else o
            ss = [St_("act0", id=i) for i in ids]
            d = base()
            d.methods.append(Me("m9", "t0", [], [], ss, order=o))
            yield S("C13", "%s ordering of %d subtasks of a method%s" % ("acyclic" if good else "cyclic", n, " (upwards)" if up else ""), d, False)
            d = base()
            d.tn = TN(ss, order=o)
            yield S("C13", "%s ordering of %d subtasks of the initial network%s" % ("acyclic" if good else "cyclic", n, " (upwards)" if up else ""), d)
    # many types, none used
    d = base()
    d.types = d.types + Syms(*["n%d:tc" % i for i in range(n)])
    yield S("C14", "%d further types" % n, d)


def requirements():
    a = astb.info("RequirementType")
    return [adt(a["path"], i, (), (), v["name"]) for i, v in enumerate(a["variants"])]


# ------------------------------------------------------------------ verdicts
def warnings_expected(e, st, dom):
    """the warning lists that are right under the facts of the path; where the path never asked about a task,
    both answers are possible"""
    outs = [[]]
    for t in oracle.els(dom.tasks):
        n = e.truth(st, mk("tdgq", "nullable", nm(t.name)))
        z = None if n is True else e.truth(st, eq(mk("len", mk("tdgq", "primitives", nm(t.name))), I(0)))
        w = enum("WarningType", "NoPrimitiveRefinement", struct("WarningInfo", symbol=nm(t.name), position=t.line.term()))
        if z is False or n is True:
            continue
        if z is True and n is False:
            outs = [o + [w] for o in outs]
        else:
            outs = outs + [o + [w] for o in outs]
    return [vec(*o) for o in outs]


def no_warnings(st, t):
    """every task is refinable: used where the warnings are not the subject"""
    if t.op == "tdgq" and t.a[0] == "nullable":
        return True
    if t.op in ("eq", "ge", "lt", "gt", "le"):
        for x in t.a:
            if isinstance(x, T) and x.op == "len" and x.a[0].op == "tdgq":
                return None
    return scen.decide_names(st, t)


def other_line(t):
    """the lines of different elements differ, unless the path depends on them"""
    if t.op == "eq" and t.a[0].op == "line" and t.a[1].op == "line":
        return False
    return None


def judge(world, p, name, dom, prob, warn=False):
    """-> list of (kind, property, key, where, text), counts"""
    r = Run(world, dom, problem=prob, steps=300000, decide=scen.decide_names if warn else no_warnings, disjuncts=90 if warn else 24)
    e = r.e
    exp = oracle.errors(dom, prob)
    req = [x for x in exp if x[1]]
    res = []
    n_ok = n_un = 0
    why = set()
    own = e.decide
    for st, v in r.outs:
        if st.taint or st.lossy:
            n_un += 1
            why.add("imprecise path: " + ("; ".join(sorted(map(str, st.taint))) or "joined facts"))
            continue
        if v.op != "adt" or v.a[5] not in ("Ok", "Err"):
            n_un += 1
            why.add("result not determined")
            continue
        facts = "; ".join("%s is %s" % (show(f)[:80], b) for f, b in list(st.facts.items())[:6])
        e.decide = own
        if v.a[5] == "Ok":
            if req:
                for q in sorted({x[0] for x in req}):
                    res.append((q, "accepted: " + name, entry_where(world), "verification succeeds although the files contain: %s (when %s)" % (
                        show_err(req[0][2]), facts or "always")))
                continue
            if not warn:
                n_ok += 1
                continue
            got = v.a[2][0]
            bad = None
            und = False
            for w in warnings_expected(e, st, dom):
                t = e.truth(st, eq(got, w))
                if t is None and got.op == "coll":
                    t = coll_eq(e, st, got, w)
                if t is False:
                    bad = w
                elif t is None:
                    und = True
            if bad is not None:
                res.append(("C15", "warnings: " + name, entry_where(world), "expected warnings %s, got %s when %s" % (show(bad), show(got), facts)))
            elif und:
                n_un += 1
                why.add("warnings not determined")
            else:
                n_ok += 1
            continue
        e.decide = lambda s, t: own(s, t) if other_line(t) is None else False     # where all lines differ
        ts = [e.truth(st, eq(v, x[2])) for x in exp]
        if any(t is True for t in ts):
            n_ok += 1
        elif all(t is False for t in ts):
            where = "%s (%s)" % (st.via[0], st.via[2]) if st.via else entry_where(world)
            text = "verification reports %s, which is not true of the files%s" % (
                show_err(v), "; true is " + show_err(exp[0][2]) if exp else " (they are valid)")
            res.append(("C14", "wrong error: " + name, where, text))
            cyc = "Cyclic" in show_err(v)
            if cyc:
                res.append(("C13", "false cycle: " + name, where, text))
        else:
            n_un += 1
            why.add("error value not determined")
    for st, stk, sp, what in r.panics:
        if not (st.taint or st.lossy):
            b = stk[-1] if stk else None
            res.append(("C22", "panic in %s: %s" % (b.short() if b else "?", what), "%s (%s)" % (b.short() if b else "?", sp),
                        "reached by: " + name))
        else:
            n_un += 1
            why.add("panic not excluded: %s" % what)
    return res, n_ok, n_un, why, len(e.functions), e.steps, dict(e.unmodelled)


def coll_eq(e, st, a, b):
    if a.op != "coll" or b.op != "coll":
        return None
    pa, pb = a.a[1], b.a[1]
    if any(x[0] != "e" for x in pa + pb):
        return None
    if len(pa) != len(pb):
        return False
    r = True
    for x, y in zip(pa, pb):
        t = e.truth(st, eq(x[1], y[1]))
        if t is False:
            return False
        if t is None:
            r = None
    return r


def entry_where(world):
    b = [b for b in world.lib.bodies.values() if b.name == "verify" and b.kind == "fn" and b.impl is not None][0]
    return "%s (%s)" % (b.short(), b.span)


def show_err(t):
    s = show(t)
    return s if len(s) < 400 else s[:400] + "..."


_G = {}


def work(i):
    p, name, dom, prob = _G["todo"][i][:4]
    try:
        if len(_G["todo"][i]) > 4:
            import whole
            return i, ("whole",) + whole.judge(_G["world"], name, dom, prob, _G["todo"][i][4])
        return i, judge(_G["world"], p, name, dom, prob, _G["warn"])
    except absint.Budget as ex:
        return i, ("stop", str(ex))
    except Exception as ex:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return i, ("stop", "%s: %s" % (type(ex).__name__, ex))


def run_all(cx, todo, want):
    """analyse the scenarios on all cores; 'want' says which findings count for this check"""
    w = cx.world
    w.prelude
    _G["world"], _G["todo"], _G["warn"] = w, todo, cx.pid == "C15"
    funcs = steps = 0
    for i, r in par.each(cx, work, len(todo), 4):
        p, name = todo[i][0], todo[i][1]
        if len(todo[i]) == 4:
            cx.count("families analysed")
        if r[0] == "stop":
            cx.undec("%s: %s" % (name, r[1]))
            continue
        if r[0] == "whole":
            if r[3] == 0:
                continue    # cannot be written
            cx.count("whole files analysed")
            for q, key, where, text in r[1]:
                if want(q):
                    cx.find(key + " (whole files)", where, text)
            if r[2]:
                cx.undec("%s (whole files): %s" % (name, r[2]))
            elif not any(want(x[0]) for x in r[1]):
                cx.ok({"whole files": name})
            steps += r[3]
            continue
        res, n_ok, n_un, why, nf, ns, unm = r
        for q, key, where, text in res:
            if want(q):
                cx.find(key, where, text)
        cx.count("abstract paths decided", n_ok)
        steps += ns
        funcs = max(funcs, nf)
        if n_un:
            cx.count("abstract paths undecided", n_un)
            cx.undec("%s: %d paths (%s)" % (name, n_un, "; ".join(sorted(why))[:160]))
        if n_ok or not n_un:
            cx.ok({"family": name, "paths": n_ok, "functions": nf})
    cx.count("functions analysed", funcs)
    cx.count("abstract steps", steps)


def whole_files(todo, deep):
    """the scenarios that are also analysed as whole files, from the parser on: those about formulae are sampled"""
    out, k = [], 0
    for s in todo:
        if " under " in s[1] or " in " in s[1] and "valid atom" in s[1]:
            k += 1
            if not deep and k % 4:
                continue
        if "ordering" in s[1] or "cycle" in s[1] or "subtask" in s[1] and deep:
            out += [s + (False,), s + (True,)]
        else:
            out.append(s + (len(out) % 2 == 1,))
    return out


def check(cx):
    astb.setup(cx.world)
    pid = cx.pid
    deep = cx.tier == "thorough"
    todo = []
    short = list(scenarios(True))
    long = list(long_scenarios()) + [s for s in long_scenarios(260, 70) if "260 arguments" in s[1] or " below " in s[1] or "chain" in s[1] or deep]
    if pid == "C15":
        # with unknown answers of the graph, many tasks are too many cases; whole files have the real ones
        many = [s for s in long if " further tasks" in s[1]]
        long = [s for s in long if "260 arguments" not in s[1] and " below 70 " not in s[1] and s not in many]
    elif pid in ("C14", "C22") and not deep:
        long = [s for k, s in enumerate(long) if s[0] == "C14" or k % 4 == 0 and "260" not in s[1]]
    for s in short + long:
        if pid in ("C14", "C22"):
            todo.append(s)
        elif pid == "C15":
            if s[0] == "C15" or (s[0] == "C14" and "atom" not in s[1] and s[1] != "no duplicate task"):
                todo.append(s)
        elif pid == "C13":
            if s[0] == "C13" or (s[0] == "C14" and "atom" not in s[1]):
                todo.append(s)
        elif s[0] == pid:
            todo.append(s)
    names = {s[1] for s in long}
    whole = whole_files([s for s in todo if s[1] not in names], deep) + [s + (False,) for s in todo if s[1] in names][::9 if not deep else 2]
    if pid == "C15":
        whole += [s + (w,) for s in many for w in (False, True)]
    run_all(cx, todo + whole, lambda q: q == pid)
