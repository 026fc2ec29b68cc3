"""C27, C28: nullable tasks, reachable tasks and the recursion class, on families of domains given by the shape of their
decomposition graph; names are symbols."""
import itertools, os, time, random, traceback
import absint, par, astb, scen
from scen import Tk, Ac, Me, St_, Dom
from astb import struct, enum, vec, nm
from terms import *
from seqs import *
from absint import Budget
from parsing import body_of


class Shape:
    """tasks: names of compound tasks; actions: names; methods: (task, [subtask names], order) with order 'total' or pairs of positions"""

    def __init__(self, name, tasks, actions, methods):
        self.name, self.tasks, self.actions = name, list(tasks), list(actions)
        self.methods = [(m[0], list(m[1]), m[2] if len(m) > 2 else "total") for m in methods]

    def dom(self):
        d = Dom()
        d.tasks = [Tk(t) for t in self.tasks]
        d.actions = [Ac(a, []) for a in self.actions]
        for i, (t, sub, order) in enumerate(self.methods):
            o = "total" if order == "total" else [] if order == "noid" else [("i%d" % a, "i%d" % b) for a, b in order]
            d.methods.append(Me("m%d" % i, t, [], [], [St_(s, id="i%d" % k) if order != "noid" else St_(s) for k, s in enumerate(sub)],
                                order=o))
        return d

    def show(self):
        out = []
        for t, sub, order in self.methods:
            o = "" if order == "total" else " unordered" if order in ("noid", (), []) else " with " + ", ".join("%d<%d" % x for x in order)
            out.append("%s -> [%s]%s" % (t, " ".join(sub), o))
        return "%s (tasks %s; actions %s; %s)" % (self.name, " ".join(self.tasks), " ".join(self.actions), "; ".join(out))

    # ---------------- reference
    def nullables(self):
        n = set()
        while True:
            m = n | {t for t, sub, _ in self.methods if all(s in n for s in sub)}
            if m == n:
                return n
            n = m

    def reach(self, t):
        r = {t}
        while True:
            m = r | {s for x, sub, _ in self.methods if x in r for s in sub}
            if m == r:
                return r
            r = m

    def context(self, k, s):
        """what stands before the first occurrence of s in method k, and the rest"""
        t, sub, order = self.methods[k]
        if order == "total":
            i = sub.index(s)
            return sub[:i], sub[i + 1:]
        order = [] if order == "noid" else order
        best = None
        for i, x in enumerate(sub):
            if x != s:
                continue
            before = set()
            todo = [i]
            while todo:
                y = todo.pop()
                for a, b in order:
                    if b == y and a not in before:
                        before.add(a)
                        todo.append(a)
            if best is None or len(before) < len(best[1]):
                best = (i, before)
        i, before = best
        return [sub[j] for j in range(len(sub)) if j in before], [sub[j] for j in range(len(sub)) if j != i and j not in before]

    def cycles(self):
        """simple cycles as lists of (task, method)"""
        def go(path):
            t, k = path[-1]
            for s in set(self.methods[k][1]):
                at = [i for i, (x, _) in enumerate(path) if x == s]
                if at:
                    yield path[at[0]:], s
                    continue
                for k2, m in enumerate(self.methods):
                    if m[0] == s:
                        yield from go(path + [(s, k2)])
        for k, m in enumerate(self.methods):
            yield from go([(m[0], k)])

    def classify(self, cyc):
        n = self.nullables()
        nxt = [t for t, _ in cyc[1:]] + [cyc[0][0]]
        pre, suf = [], []
        for (t, k), s in zip(cyc, nxt):
            a, b = self.context(k, s)
            pre += a
            suf += b
        if any(x not in n for x in pre):
            return "Recursive"
        if not suf:
            return "EmptyRecursion"
        return "GrowAndShrinkRecursion" if all(x in n for x in suf) else "GrowingEmptyPrefixRecursion"

    def bad_cycle(self, cyc, want):
        """what is wrong with this witness of the class, if anything"""
        if len(cyc) < 2 or cyc[0][0] != cyc[-1][0]:
            return "does not return to its first task"
        for (t, k), (s, _) in zip(cyc, cyc[1:]):
            if not 0 <= k < len(self.methods) or self.methods[k][0] != t or s not in self.methods[k][1]:
                return "has the step %s -(m%d)-> %s, which does not exist" % (t, k, s)
        c = self.classify(cyc[:-1])
        return None if c == want else "is of the class %s" % c

    RANK = ("NonRecursive", "Recursive", "GrowingEmptyPrefixRecursion", "EmptyRecursion", "GrowAndShrinkRecursion")

    def recursion(self):
        best = "NonRecursive"
        for c, _ in self.cycles():
            k = self.classify(c)
            if self.RANK.index(k) > self.RANK.index(best):
                best = k
        return best


def shapes(deep, seed=1):
    # every pair of methods over two compound tasks and an action, up to two subtasks each
    T2, P = ("A", "B"), ("p",)
    subs = [()] + [(x,) for x in "ABp"] + [(x, y) for x in "ABp" for y in "ABp"]
    ms = [(t, s) for t in T2 for s in subs]
    yield Shape("no methods", T2, P, [])
    for m in ms:
        yield Shape("one method", T2, P, [m])
    for a, b in itertools.combinations_with_replacement(ms, 2):
        yield Shape("two methods", T2, P, [a, b])
    # chains and diamonds in every declaration order
    base = {
        "chain of nullables": [("A", "B"), ("B", "C"), ("C", "D"), ("D", "")],
        "chain that ends in an action": [("A", "B"), ("B", "C"), ("C", "D"), ("D", "p")],
        "nullable by two tasks": [("A", "BC"), ("B", "D"), ("C", ""), ("D", "")],
        "not nullable by one of two": [("A", "BC"), ("B", "D"), ("C", "p"), ("D", "")],
        "nullable through one of two methods": [("A", "Bp"), ("A", "CB"), ("B", "C"), ("C", "")],
        "ring": [("A", "B"), ("B", "C"), ("C", "D"), ("D", "A")],
        "ring with an exit": [("A", "B"), ("B", "C"), ("C", "A"), ("C", "D"), ("D", "")],
        "ring behind an action": [("A", "pB"), ("B", "C"), ("C", "A"), ("D", "")],
        "ring behind a nullable": [("A", "DB"), ("B", "C"), ("C", "A"), ("D", "")],
        "ring before a nullable": [("A", "B"), ("B", "CD"), ("C", "A"), ("D", "")],
        "ring before an action": [("A", "B"), ("B", "C"), ("C", "Ap"), ("D", "")],
        "late action": [("A", "BD"), ("B", "C"), ("C", ""), ("D", "Dp")],
        "two rings": [("A", "pA"), ("B", "C"), ("C", "Bp"), ("D", "")],
        "two rings, one that shrinks": [("A", "A"), ("B", "C"), ("C", "BD"), ("D", "")],
        "ring entered from outside": [("D", "AB"), ("A", "C"), ("C", "pAB"), ("B", "")],
        "no ring": [("A", "BCD"), ("B", "CD"), ("C", "Dpp"), ("D", "pq")],
        "two ways to one task": [("A", "BC"), ("B", "D"), ("C", "D"), ("D", "q")],
        "dead end": [("A", "BC"), ("B", "p"), ("C", "D")],
        "unit through nullables": [("A", "BDB"), ("B", ""), ("D", "BC"), ("C", "B")],
        "unit cycle": [("A", "BC"), ("C", "BA"), ("B", ""), ("D", "AC")],
        "three of which two nullable": [("A", "BCD"), ("B", ""), ("C", ""), ("D", "A")],
    }
    for n, m in base.items():
        perms = list(itertools.permutations("ABCD"))
        for k, ts in enumerate(perms if deep else perms[::5] + [tuple("DCBA")]):
            yield Shape(n, ts, "pq", [(t, list(s)) for t, s in m])
        for k, mm in enumerate(itertools.permutations(m)):
            if k % (1 if deep else 9) == 0 and k:
                yield Shape(n, "ABCD", "pq", [(t, list(s)) for t, s in mm])
    # partial orders: every set of ordered pairs i<j of up to three subtasks
    for sub in (("A",), ("A", "p"), ("p", "A"), ("A", "A"), ("N", "A"), ("A", "N"), ("p", "A", "N"), ("N", "A", "p"), ("A", "p", "A"), ("N", "A", "N"),
                ("B", "A", "N"), ("N", "B", "A")):
        n = len(sub)
        pairs = [(i, j) for i in range(n) for j in range(n) if i < j] + ([(1, 0)] if n == 2 else [(2, 0), (2, 1)] if n == 3 else [])
        for r in range(min(n, len(pairs)) + 1):
            for o in itertools.combinations(pairs, r):
                if cyclic(o):
                    continue
                ms = [("A", sub, o), ("N", (), "noid"), ("B", ("A",), ())]
                if "B" not in sub:
                    ms = ms[:2]
                yield Shape("partially ordered method", ("A", "B", "N"), "p", ms)
        yield Shape("method without ids", ("A", "B", "N"), "p", [("A", sub, "noid"), ("N", (), "noid")] + ([("B", ("A",), "noid")] if "B" in sub else []))
    rnd = random.Random(seed)
    for _ in range(1500 if deep else 120):
        ts = list("ABCD")
        rnd.shuffle(ts)
        ms = []
        for _ in range(rnd.randint(3, 6)):
            ms.append((rnd.choice("ABCD"), [rnd.choice("ABCDABCDp") for _ in range(rnd.choice((0, 1, 1, 2, 2, 3)))]))
        yield Shape("mixed", ts, "p", ms)


def long_shapes(n=11):
    """long chains, rings and lists: no length is special"""
    A = ["A%d" % i for i in range(n)]
    ways = [("down", A), ("up", A[::-1]), ("in and out", [A[i // 2] if i % 2 else A[n - 1 - i // 2] for i in range(n)])]
    for w, ts in ways:
        for mw, mo in ways[:2]:
            o = {t: i for i, t in enumerate(mo)}
            def S(name, ms, ts_=ts):
                return Shape("%s, %s" % (name, w), ts_, "p", sorted(ms, key=lambda m: o.get(m[0], 0)))
            chain = [(A[i], [A[i + 1]]) for i in range(n - 1)]
            yield S("long chain of nullables", chain + [(A[-1], [])])
            yield S("long chain that ends in an action", chain + [(A[-1], ["p"])])
            for k in (0, n // 2, n - 2):
                yield S("long chain with an action in it", [(t, s + ["p"]) if t == A[k] else (t, s) for t, s in chain] + [(A[-1], [])])
            ring = chain + [(A[-1], [A[0]])]
            yield S("long ring", ring)
            for k in (0, n // 2, n - 1):
                yield S("long ring with an action before", [(t, ["p"] + s) if t == A[k] else (t, s) for t, s in ring])
                yield S("long ring with an action behind", [(t, s + ["p"]) if t == A[k] else (t, s) for t, s in ring])
                yield S("long ring with a nullable before", [(t, ["N"] + s) if t == A[k] else (t, s) for t, s in ring] + [("N", [])], ts + ["N"])
                yield S("long ring with a nullable behind", [(t, s + ["N"]) if t == A[k] else (t, s) for t, s in ring] + [("N", [])], ["N"] + ts)
                yield S("long ring with an exit", ring + [(A[k], [])])
                yield S("long way to a ring", chain + [(A[-1], [A[k]] + ["p"])])
                yield S("long way to a ring", chain + [(A[-1], ["p"] + [A[k]])])
            yield S("long chain of pairs", [(A[i], [A[i + 1], A[i + 1]]) for i in range(n - 1)] + [(A[-1], [])])
    for k in (0, n // 2, n):
        for last in ("p", "B", "A"):
            subs = ["B"] * k + [last] + ["B"] * (n - k)
            yield Shape("one of many subtasks", ("A", "B"), "p", [("A", subs), ("B", [])])
            yield Shape("one of many subtasks", ("B", "A"), "p", [("A", subs), ("B", ["p"]), ("B", [])])
            ms = [("A", ["p"])] * k + [("A", ["B"] + ([] if last == "B" else [last]))] + [("A", ["p", "p"])] * (n - k)
            yield Shape("one of many methods", ("A", "B"), "p", ms + [("B", [])])
            yield Shape("one of many methods", ("B", "A"), "p", ms + [("B", ["p"])])


def cyclic(o):
    s = set(o)
    while True:
        n = s | {(a, d) for a, b in s for c, d in s if b == c}
        if n == s:
            return any(a == b for a, b in s)
        s = n


class Undet(Exception):
    pass


def names_of(e, st, v):
    v = e.deref(st, v)
    if v.op != "coll":
        raise Undet(show(v)[:100])
    out = []
    for k, x in v.a[1]:
        x = e.deref(st, x)
        if k != "e" or x.op != "nm":
            raise Undet(show(x)[:100])
        out.append(x.a[0])
    return out


def run(world, pid, sh):
    """-> (findings, decided, undecided texts, functions)"""
    fs, und, n = [], [], 0
    big = len(sh.tasks) > 8 or len(sh.methods) > 8 or any(len(m[1]) > 8 for m in sh.methods)
    e = absint.Eng(world, 6000000 if big else 300000)
    e.decide = scen.decide_names
    e.unroll, e.maxdepth = True, absint.DEEP
    e.deadline = time.time() + (60 if big else 20)
    new = body_of(world, "TDG", "new")
    D = sh.dom().domain()

    def panics(what, pid_="C22"):
        for st, stk, sp, w in e.panics:
            b = stk[-1] if stk else None
            if st.taint or st.lossy:
                und.append("%s: panic not excluded: %s" % (what, w))
            else:
                fs.append(("C22", "panic in %s: %s" % (b.short() if b else "?", w), "%s (%s)" % (b.short() if b else "?", sp), "%s panics on %s" % (what, sh.show())))
        for st, b, head in e.stuck:
            if not (st.taint or st.lossy):
                fs.append(("C23", "loop in " + b.short(), "%s (%s)" % (b.short(), b.span), "%s never ends on %s" % (what, sh.show())))
        if e.stuck:
            und.append("%s: does not end" % what)
        e.panics, e.stuck = [], []
    outs = e.call_body(absint.St(), new, [D], 0)
    panics("the construction of the graph")
    if len(outs) != 1 or outs[0][0].taint or outs[0][0].lossy:
        return (fs, n, ["the graph is not determined"], None, e.hash_iter) if pid == "C18" else (fs, n, ["the graph is not determined"], len(e.functions))
    st0, g = outs[0]
    at = lambda b: "%s (%s)" % (b.short(), b.span)

    def call(fn, *args):
        b = body_of(world, "TDG", fn)
        r = e.call_body(st0.copy(), b, [g] + list(args), 0)
        panics(fn)
        r2 = [(s, v) for s, v in r if not (s.taint or s.lossy)]
        if len(r2) != len(r):
            und.append("%s: imprecise path: %s" % (fn, "; ".join(str(t) for s, v in r for t in s.taint)[:200]))
        return b, r2
    nul = sh.nullables()
    if pid in ("C27", "C22", "C18", "C23"):
        b, rs = call("compute_nullables")
        for st, v in rs:
            try:
                got = names_of(e, st, v)
            except Undet as ex:
                und.append("nullable tasks not determined: %s" % ex)
                continue
            if sorted(got) != sorted(nul):
                extra, miss = sorted(set(got) - nul), sorted(nul - set(got))
                fs.append(("C27", "nullable tasks: " + sh.name, at(b), "on %s the nullable tasks are computed to be {%s} instead of {%s}" % (
                    sh.show(), " ".join(sorted(got)), " ".join(sorted(nul)))))
            else:
                n += 1
        for t in (sh.tasks[::len(sh.tasks) - 1] if big else sh.tasks) + sh.actions:
            b, rs = call("reachable", nm(t))
            for st, v in rs:
                if v.op != "adt":
                    und.append("reachable tasks not determined")
                    continue
                d = dict(zip(v.a[4], v.a[2]))
                if t in sh.actions:
                    want = {"primitives": {t}, "compounds": set(), "nullable": False}
                else:
                    r = sh.reach(t)
                    want = {"primitives": r & set(sh.actions), "compounds": r & set(sh.tasks), "nullable": t in nul}
                for f, w in want.items():
                    if f not in d:
                        und.append("no field " + f)
                        continue
                    if f == "nullable":
                        x = d[f]
                        tr = e.truth(st, x)
                        if tr is None:
                            und.append("nullable not determined: " + show(x)[:80])
                        elif tr != w:
                            fs.append(("C27", "nullable flag: " + sh.name, at(b), "on %s the task %s is said to be %snullable" % (sh.show(), t, "" if tr else "not ")))
                        else:
                            n += 1
                        continue
                    try:
                        got = names_of(e, st, d[f])
                    except Undet as ex:
                        und.append("reachable tasks not determined: %s" % ex)
                        continue
                    if sorted(got) != sorted(w):
                        fs.append(("C27", "reachable %s: %s" % (f, sh.name), at(b), "on %s the %s reachable from %s are computed to be {%s} instead of {%s}" % (
                            sh.show(), f, t, " ".join(sorted(got)), " ".join(sorted(w)))))
                    else:
                        n += 1
    rec = None
    if pid in ("C28", "C22", "C18", "C23"):
        want = sh.recursion()
        order = [t for t in sh.tasks if t in nul]
        b, rs = call("get_recursion_type", coll("set", [("e", nm(t)) for t in order]))
        for st, v in rs:
            v = e.deref(st, v)
            if v.op != "adt":
                und.append("recursion class not determined: " + show(v)[:80])
                continue
            rec = v
            if v.a[5] != want:
                fs.append(("C28", "class %s for %s" % (v.a[5], want), at(b), "on %s the class is computed to be %s instead of %s" % (sh.show(), v.a[5], want)))
                continue
            n += 1
            if want == "NonRecursive":
                continue
            try:
                x = e.deref(st, v.a[2][0])
                cyc = []
                for k, p in x.a[1]:
                    p = e.deref(st, p)
                    a, m = e.deref(st, p.a[0][0]), e.deref(st, p.a[0][1])
                    if k != "e" or a.op != "nm" or m.op != "nm":
                        raise Undet(show(p)[:80])
                    cyc.append((a.a[0], int(m.a[0][1:])))
            except (Undet, AttributeError, IndexError, TypeError, ValueError) as ex:
                und.append("cycle not determined: %s %s" % (type(ex).__name__, ex))
                continue
            bad = sh.bad_cycle(cyc, want)
            if bad:
                fs.append(("C28", "cycle: " + bad[:20], at(b), "on %s the class is %s, but the cycle %s %s" % (
                    sh.show(), want, " ".join("%s-(m%d)" % x for x in cyc), bad)))
            else:
                n += 1
    if pid == "C18":
        return fs, n, und, rec, e.hash_iter
    return fs, n, und, len(e.functions)


_G = {}


def shape(x):
    return x[0] if isinstance(x, tuple) else x


def whole_files(todo, deep):
    """shapes whose domain is also analysed as a whole file, from the parser to the metadata"""
    return [(x,) for k, x in enumerate(todo) if deep or x.name != "two methods" or k % 5 == 0]


def work(i):
    try:
        if isinstance(_G["todo"][i], tuple):
            import whole
            return i, whole.metadata(_G["world"], _G["todo"][i][0]) + (0,)
        return i, run(_G["world"], _G["pid"], _G["todo"][i])
    except absint.Diverges as ex:
        return i, ([("C23", "recursion in " + ex.body.short(), "%s (%s)" % (ex.body.short(), ex.body.span), "never ends on " + shape(_G["todo"][i]).show())], 0, [str(ex)], 0)
    except Budget as ex:
        return i, ([], 0, [str(ex)], 0)
    except Exception as ex:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return i, ([], 0, ["%s: %s" % (type(ex).__name__, ex)], 0)


def check(cx):
    w = cx.world
    astb.setup(w)
    w.prelude
    todo = list(shapes(cx.tier == "thorough", cx.seed if hasattr(cx, "seed") else 1))
    deep = cx.tier == "thorough"
    long = list(long_shapes())
    compare(cx, long + todo + whole_files(todo, deep))


def metadata(cx):
    """C25 on whole files"""
    deep = cx.tier == "thorough"
    compare(cx, whole_files(list(shapes(deep, cx.seed)), deep)[::1 if deep else 3])


def compare(cx, todo):
    _G["world"], _G["pid"], _G["todo"] = cx.world, cx.pid, todo
    for i, (fs, n, und, nf) in par.each(cx, work, len(todo), 4):
        cx.count("whole files analysed" if isinstance(todo[i], tuple) else "shapes analysed")
        cx.count("results compared", n)
        for q, key, where, text in fs:
            if q == cx.pid:
                cx.find(key, where, text)
        for u in und[:3]:
            cx.undec("%s: %s" % (shape(todo[i]).show(), u))
        if n and not und:
            cx.ok({"shape": shape(todo[i]).show(), "results": n, "functions": nf})
