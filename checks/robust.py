"""C22: no panic, C23: everything ends.  The abstract runs of the other checks, looked at for panics and for endless loops."""
import os, time, traceback
import absint, astb, par, scen
import lexing, parsing, semantic, graph, texts, stages, jsonexp, lsp
from absint import Budget, Diverges
from callgraph import CallGraph
from mir import strip_generics
from terms import *

_G = {}


def at(b, sp=None):
    return "%s (%s)" % (b.short(), sp or b.span) if b is not None else "?"


# ------------------------------------------------------------------ C23
def ends_lex(world, sc):
    """endless loops are found by the judge of the lexer"""
    return lexing.judge(world, sc)[0]


def stuck(e, what):
    return [("C23", "loop in " + b.short(), at(b), "never ends on " + what) for st, b, head in e.stuck if not (st.taint or st.lossy)]


def ends_parse(world, prefix):
    shown = "a file that ends behind: " + parsing.text_of(prefix)
    res = []
    for entry in ("parse",) if len(prefix) > 6 else ("parse", "classify"):
        try:
            r = parsing.PRun(world, prefix, entry=entry, ends=True)
        except Diverges as ex:
            return [("C23", "recursion in " + ex.body.short(), at(ex.body), "never ends on " + shown)]
        res += stuck(r.e, shown)
    return res


def ends_parse_any(world, prefix):
    """the token behind the prefix is arbitrary: it must be consumed or rejected"""
    shown = "an arbitrary token behind: " + parsing.text_of(prefix)
    try:
        r = parsing.PRun(world, prefix, tries=True)
    except Diverges as ex:
        return [("C23", "recursion in " + ex.body.short(), at(ex.body), "never ends on " + shown)]
    return stuck(r.e, shown)


def ends_sem(world, sc):
    p, name, dom, prob = sc
    try:
        r = scen.Run(world, dom, problem=prob, steps=300000, decide=semantic.no_warnings, unroll=True)
    except Diverges as ex:
        return [("C23", "recursion in " + ex.body.short(), at(ex.body), "never ends on " + name)]
    return stuck(r.e, name)


def ends_graph(world, sh):
    try:
        return graph.run(world, "C23", sh)[0]
    except Diverges as ex:
        return [("C23", "recursion in " + ex.body.short(), at(ex.body), "never ends on " + sh.show())]


# ------------------------------------------------------------------ C22
def pan_lex(world, sc):
    return lexing.judge(world, sc)[0]


def pan_parse(world, prefix):
    return parsing.judge(world, prefix, None)[0]


def pan_sem(world, sc):
    return semantic.judge(world, *sc)[0]


def whole_run(world, sc):
    import whole
    res, why, n = whole.judge(world, *sc[1:])
    if why and not any(q in ("C22", "C23") for q, *_ in res):
        raise Budget(why)
    return res


def whole_meta(world, sh):
    import whole
    fs, n, und = whole.metadata(world, sh[0])
    if und and not fs:
        raise Budget(und[0])
    return fs


def pan_graph(world, sh):
    return graph.run(world, "C22", sh)[0]


class Quiet:
    """collects nothing: the verdicts of a borrowed check do not count here"""
    def __init__(self, cx, pid):
        self.world, self.tier, self.seed, self.pid = cx.world, cx.tier, cx.seed, pid
        self.findings = {}

    def find(self, *a, **k):
        pass
    ok = undec = count = find


def pan_module(world, job):
    mod, fn, pid = job
    q = Quiet(_G["cx"], pid)
    absint.ENGINES = []
    try:
        getattr(mod, fn)(q)
    finally:
        es, absint.ENGINES = absint.ENGINES, None
    res = []
    for e in es:
        for st, stk, sp, what in e.panics:
            if not (st.taint or st.lossy):
                b = stk[-1] if stk else None
                res.append(("C22", "panic in %s: %s" % (b.short() if b else "?", what), at(b, sp), "reached by the runs of %s" % pid))
    return res


KINDS = {
    "C23": {"lexer": ends_lex, "parser at the end of the file": ends_parse, "parser": ends_parse_any, "semantic": ends_sem, "graph": ends_graph, "whole files": whole_run, "metadata of whole files": whole_meta},
    "C22": {"lexer": pan_lex, "parser": pan_parse, "semantic": pan_sem, "graph": pan_graph, "module": pan_module, "whole files": whole_run, "metadata of whole files": whole_meta},
}


def name_of(kind, x):
    if kind == "lexer":
        return "%s: %s" % (x[0], lexing.shown(x[1])[:80])
    if kind.startswith("parser"):
        return "after '%s'" % parsing.text_of(x)[-80:]
    if kind in ("semantic", "whole files"):
        return x[1]
    if kind == "graph" or kind.startswith("metadata"):
        return graph.shape(x).show()
    return "%s.%s" % (x[0].__name__, x[1])


def work(i):
    kind, x = _G["todo"][i]
    absint.TRACK = set()
    try:
        r = KINDS[_G["pid"]][kind](_G["world"], x)
        return i, r, None, absint.TRACK
    except Budget as ex:
        return i, [], str(ex), absint.TRACK
    except Exception as ex:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return i, [], "%s: %s" % (type(ex).__name__, ex), absint.TRACK


def check(cx):
    w = cx.world
    astb.setup(w)
    w.prelude
    deep = cx.tier == "thorough"
    parsing.ALL_REQ[:] = ["req:" + v["name"] for v in astb.info("RequirementType")["variants"]]
    lex = list(lexing.families(deep))
    par_ = parsing.prefixes(deep)
    sem = list(semantic.scenarios(deep))
    gr = list(graph.shapes(deep, cx.seed))
    if cx.pid == "C23":
        sem = [s for s in sem if s[0] == "C13" or "atom" not in s[1]]
        todo = [("parser at the end of the file", x) for x in par_] + [("parser", x) for x in par_]
    else:
        if not deep:
            sem = [s for k, s in enumerate(sem) if "atom" not in s[1] or k % 2 == 0]
        todo = [("module", x) for x in ((lsp, "check", "C20"), (lsp, "diagnostics", "C21"), (texts, "check", "C26"), (texts, "shown_types", "C22"), (stages, "check", "C24"),
                                        (stages, "meta", "C25"), (jsonexp, "check", "C16"))]
        todo += [("parser", x) for x in par_]
    todo += [("whole files", x) for x in semantic.whole_files([s for s in sem if cx.pid == "C22" or s[0] == "C13" or "valid" in s[1]], deep)]
    todo += [("metadata of whole files", x) for x in graph.whole_files(gr, deep)[::1 if deep else 2]]
    todo += [("lexer", x) for x in lex] + [("semantic", x) for x in sem] + [("graph", x) for x in gr]
    _G.update(world=w, todo=todo, pid=cx.pid, cx=cx)
    track = set()
    for i, res, why, tr in par.each(cx, work, len(todo), 4):
        kind, x = todo[i]
        track |= tr
        cx.count("runs: " + kind)
        bad = False
        for q, key, where, text in res:
            if q == cx.pid:
                cx.find(key, where, text)
                bad = True
        if why:
            cx.undec("%s: %s: %s" % (kind, name_of(kind, x), why))
        elif not bad:
            cx.ok({"kind": kind, "case": name_of(kind, x)})
    sites(cx, track)


PANICKING = ("unwrap", "expect", "unwrap_err", "expect_err", "index", "index_mut", "split_at", "swap_remove", "remove", "copy_from_slice")


def sites(cx, track):
    """what could panic (C22) or loop (C23) in the functions that the entry points reach, and how much of it the runs went through"""
    w = cx.world
    roots = [b for n in ("verify", "get_metadata", "to_json") for b in w.fn("HDDLAnalyzer", n)]
    roots += [b for b in w.lib.bodies.values() if b.trait and b.trait.endswith("LanguageServer")]
    try:
        reach = [w.lib.bodies[k] for k in CallGraph(w.lib).reach(roots)]
    except Exception as ex:
        cx.undec("sites not counted: %s" % ex)
        return
    total = seen = 0
    rest = []
    for b in sorted(reach, key=lambda b: b.key):
        if b.derived:
            continue
        if cx.pid == "C23":
            places = [(h, "loop", b.blocks[h]["sp"]) for h in b.loops()]
        else:
            places = []
            for i, blk in enumerate(b.blocks):
                t = blk["t"]
                if blk.get("cleanup"):
                    continue
                if t[0] == "assert":
                    places.append((i, t[3] if isinstance(t[3], str) else "assertion", blk["sp"]))
                elif t[0] == "call" and isinstance(t[1], dict):
                    p = strip_generics(t[1].get("path") or "")
                    last = p.split("::")[-1]
                    if "panicking" in p or last in PANICKING and (p.startswith(("std::", "core::", "alloc::"))):
                        places.append((i, last, blk["sp"]))
        for i, what, sp in places:
            total += 1
            if (b.key, i) in track:
                seen += 1
            else:
                rest.append("%s: %s (%s)" % (b.short(), what, sp))
    n = "loops" if cx.pid == "C23" else "places that can panic"
    cx.count("functions reachable from the entry points", len(reach))
    cx.count(n, total)
    cx.count(n + ", gone through by the runs", seen)
    cx.stats[n + ", not gone through"] = rest[:200]
