"""C20, C21: the language server, interpreted with the file system and the analysis replaced by each outcome they can have.
An await is the evaluation of the awaited future: notifications and requests are handled one after another."""
import itertools
import absint, astb, models, texts
from astb import struct, enum, vec, nm
from terms import *
from seqs import *
from absint import Budget, ptr
from parsing import same

POLL = "std::task::Poll"
CLIENT = mk("sym", "CLIENT")


def ready(v):
    return adt(POLL, 0, (v,), ("0",), "Ready")


def url(n):
    return S("file:///w/%s.hddl" % n)


def fpath(u):
    return mk("fpath", u)


def leaf(v):
    """the text a byte sequence is that of"""
    while v.op in ("bytesof", "strbytes") or (v.op == "ext" and v.a[0].endswith("into_bytes")):
        v = v.a[-1]
    return v


class Server:
    def __init__(self, world, files=None, dirs=None, results=None, steps=60000):
        """files: path term -> content term (else unreadable); dirs: list of path terms or None; results: text term -> outcomes"""
        self.w = world
        self.e = e = absint.Eng(world, steps)
        self.files, self.dirs, self.results = files or {}, dirs, results or {}
        self.texts = []
        self.dead = []
        astb.setup(world)
        h = e.hooks
        M = models.MODELS

        def fut(v):
            return mk("fut", v)
        h["std::future::IntoFuture::into_future"] = lambda call: call.ret(call.args[0])
        h["std::future::get_context"] = lambda call: call.ret(mk("sym", "CONTEXT"))

        def poll(call):
            v = call.val(0)
            if v.op == "coro":
                b = e.prog_of(v.a[2]).bodies[v.a[0]]
                return [(s, ready(r)) for s, r in e.call_body(call.st, b, [v, mk("sym", "CONTEXT")], call.fr.depth + 1)]
            if v.op == "fut":
                return call.ret(ready(v.a[0]))
            if v.op == "acquire":
                kind, key = v.a
                held = call.st.world.get("locks", EMPTY)
                for _, g in parts_of(held):
                    if g.a[1] == key and (kind == "w" or g.a[0] == "w"):
                        self.dead.append((call.st, call.fr.body.short(), call.blk["sp"]))
                        return []
                g = mk("guard", kind, key, next(absint._ctr))
                call.st.world["locks"] = coll("vec", tuple(parts_of(held)) + (("e", g),))
                return call.ret(ready(g))
            call.st.add_taint("an unknown future")
            return call.ret(ready(mk("fresh", next(absint._ctr))))
        h["std::future::Future::poll"] = poll
        self.poll = poll

        def newlock(call):
            k = e.new_cell(call.st, call.val(0))
            e.pinned.append(k)
            return call.ret(mk("rwlock", k))
        for p in ("tokio::sync::RwLock::new", "tokio::sync::Mutex::new"):
            h[p] = newlock

        def acquire(kind):
            def f(call):
                v = call.val(0)
                if v.op != "rwlock":
                    return M["x"](call) if "x" in M else e.unknown(call)
                return call.ret(mk("acquire", kind, v.a[0]))
            return f
        h["tokio::sync::RwLock::read"] = acquire("r")
        h["tokio::sync::RwLock::write"] = acquire("w")
        h["tokio::sync::Mutex::lock"] = acquire("w")

        def through(path):
            m = M[path]

            def f(call):
                v = call.val(0)
                if v.op == "guard":
                    return call.ret(ptr(v.a[1]))
                return m(call)
            return f
        for p in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut"):
            h[p] = through(p)

        def dropped(st, fr, place, ty):
            key, path = e.place(st, fr, place)
            v = e.load(st, key, path)
            release(st, v)

        def release(st, v):
            gs = {x for x in walk(v) if x.op == "guard"}
            if gs:
                held = st.world.get("locks", EMPTY)
                st.world["locks"] = coll("vec", tuple(p for p in parts_of(held) if p[1] not in gs))
        e.on_drop = dropped

        def mdrop(call):
            release(call.st, call.args[0])
            return call.ret(UNIT)
        h["std::mem::drop"] = mdrop

        def read(call):
            p = call.val(0)
            r = self.files.get(p)
            if r is None and p.op not in ("fpath", "sym", "urlpath"):
                call.st.add_taint("read of an unknown file")
            e.events(call.st, mk("read", p))
            return ok(r) if r is not None else err(mk("sym", "IO-ERROR"))
        h["tokio::fs::read"] = lambda call: call.ret(fut(read(call)))
        h["std::fs::read"] = lambda call: call.ret(read(call))
        h["tower_lsp::lsp_types::Url::path"] = lambda call: call.ret(mk("urlpath", call.val(0)))
        h["tower_lsp::lsp_types::Url::to_file_path"] = lambda call: call.ret(ok(fpath(call.val(0))) if self.local(call.val(0)) else err(UNIT))
        h["tower_lsp::lsp_types::Url::as_str"] = lambda call: call.ret(call.val(0))
        h["tower_lsp::lsp_types::Url::parse"] = lambda call: call.ret(ok(mk("url", call.val(0))))
        h["std::path::Path::parent"] = lambda call: call.ret(some(mk("parent", call.val(0))))
        h["tower_lsp::Client::log_message"] = lambda call: call.ret(fut(UNIT))
        h["tower_lsp::Client::show_message"] = lambda call: call.ret(fut(UNIT))

        def read_dir(call):
            if self.dirs is None:
                return call.ret(fut(err(mk("sym", "IO-ERROR"))))
            k = e.new_cell(call.st, vec(*self.dirs))
            e.pinned.append(k)
            return call.ret(fut(ok(mk("readdir", k))))
        h["tokio::fs::read_dir"] = read_dir

        def next_entry(call):
            v = call.val(0)
            if v.op != "readdir":
                return e.unknown(call)
            ps = parts_of(call.st.mem[v.a[0]])
            if not ps:
                return call.ret(fut(ok(NONE)))
            call.st.mem[v.a[0]] = coll("vec", ps[1:])
            return call.ret(fut(ok(some(mk("entry", ps[0][1])))))
        h["tokio::fs::ReadDir::next_entry"] = next_entry
        h["tokio::fs::DirEntry::path"] = lambda call: call.ret(call.val(0).a[0])

        def extension(call):
            p = call.val(0)
            n = p.a[0] if p.op == "sym" else ""
            return call.ret(some(S(n.rsplit(".", 1)[1])) if "." in n else NONE)
        h["std::path::Path::extension"] = extension
        for p in ("std::ffi::OsStr::to_str",):
            h[p] = lambda call: call.ret(some(call.val(0)))
        for p in ("std::ffi::OsStr::to_string_lossy", "std::path::Path::display", "std::path::Path::to_string_lossy"):
            h[p] = lambda call: call.ret(call.val(0))

        # the analysis
        def lexer(call):
            self.texts.append((call.st, leaf(call.val(0))))
            return call.ret(mk("lexer", leaf(call.val(0))))
        h[("LexicalAnalyzer", "new")] = lexer
        h[("Parser", "new")] = lambda call: call.ret(mk("parser", call.val(0)))

        def text_in(call):
            r = {x.a[0] for x in walk(call.val(0)) if x.op == "lexer"}
            return list(r)[0] if len(r) == 1 else None

        def outcome(call, what):
            t = text_in(call)
            r = self.results.get(t)
            if r is None:
                call.st.add_taint("%s of an unknown text %s" % (what, show(t) if t is not None else ""))
                return None
            return r
        FV = astb.info("FileVariant")["path"]

        def classify(call):
            r = outcome(call, "classification")
            if r is None:
                return call.ret(mk("fresh", 2))
            return call.ret(enum("FileVariant", r["kind"]))
        h[("Parser", "classify")] = classify

        def parse(call):
            r = outcome(call, "parsing")
            if r is None:
                return call.ret(mk("fresh", 3))
            if r["parse"] is not None:
                return call.ret(err(r["parse"]))
            return call.ret(ok(enum("AbstractSyntaxTree", r["kind"], mk("tree", text_in(call)))))
        h[("Parser", "parse")] = parse
        h[("DomainSemanticAnalyzer", "new")] = lambda call: call.ret(mk("dsa", call.val(0)))
        h[("ProblemSemanticAnalyzer", "new")] = lambda call: call.ret(mk("psa", call.val(0), call.val(1)))

        def trees(call):
            return [x.a[0] for x in walk(call.val(0)) if x.op == "tree"]

        def vd(call):
            t = trees(call)
            r = self.results.get(t[0]) if len(t) == 1 else None
            if r is None:
                call.st.add_taint("checking an unknown domain")
                return call.ret(mk("fresh", 4))
            return call.ret(err(r["verify"]) if r["verify"] is not None else ok(mk("table", t[0])))
        h[("DomainSemanticAnalyzer", "verify_domain")] = vd

        def vp(call):
            v = call.val(0)
            t = trees(call)
            r = self.results.get(t[0]) if len(t) == 1 else None
            tb = [x.a[0] for x in walk(v) if x.op == "table"]
            if r is None or len(tb) != 1:
                call.st.add_taint("checking an unknown problem")
                return call.ret(mk("fresh", 5))
            return call.ret(err(r["verify"]) if r["verify"] is not None else ok(vec()))
        h[("ProblemSemanticAnalyzer", "verify_problem")] = vp
        self.fr = None
        for b in world.lib.bodies.values():
            if b.name == "from" and b.trait and "From<" in b.trait and "ParsingError" in b.trait and b.impl is not None and world.lib.peel(b.impl).get("path", "").endswith("Diagnostic"):
                h[b.key] = lambda call: call.ret(mk("diag", call.val(0)))
                self.fr = b

    def local(self, u):
        return self.dirs is not False

    def start(self):
        b = [b for b in self.w.lib.bodies.values() if b.name == "new" and b.kind == "fn" and b.impl is not None
             and self.w.lib.peel(b.impl).get("path", "").endswith("RequestHandler")]
        if len(b) != 1:
            raise KeyError("RequestHandler::new")
        out = []
        for st, v in self.e.call_body(absint.St(), b[0], [CLIENT], 0):
            k = self.e.new_cell(st, v)
            self.e.pinned.append(k)
            out.append((st, ptr(k)))
        return out

    def call(self, st, this, method, params):
        b = [b for b in self.w.lib.bodies.values() if b.name == method and b.kind == "fn" and b.trait and b.trait.endswith("LanguageServer")]
        if len(b) != 1:
            raise KeyError("LanguageServer::" + method)
        out = []
        for s, v in self.e.call_body(st, b[0], [this, params], 0):
            c = models_call(self.e, s, v, b[0])
            for s2, r in self.poll(c):
                if r.op == "adt" and r.a[5] == "Ready":
                    s2.world["locks"] = EMPTY
                    out.append((s2, r.a[2][0]))
        return out


def models_call(e, st, v, body):
    class Fr:
        depth = 0
        fid = 0
    Fr.body = body
    return absint.Call(e, st, Fr(), {"path": "await", "key": ""}, "await", "await", [v], {"sp": body.span})


# ------------------------------------------------------------------ parameters of notifications and requests
def ext(world, name, **f):
    for a in world.lib.adts:
        if a["path"].split("::")[-1] == name and len(a["variants"]) == 1:
            v = a["variants"][0]
            names = [x[0] for x in v["fields"]]
            for k in f:
                if k not in names:
                    raise KeyError("%s.%s" % (name, k))
            return adt(a["path"], 0, [f[n] if n in f else mk("sym", "%s.%s" % (name, n)) for n in names], names, v["name"])
    if name in LSP_TYPES:
        names = LSP_TYPES[name].split()
        return adt("tower_lsp::lsp_types::" + name, 0, [f[n] if n in f else mk("sym", "%s.%s" % (name, n)) for n in names], names, name)
    raise KeyError(name)


# types of lsp-types 0.94 that occur only as parts of others
LSP_TYPES = {"TextDocumentItem": "uri language_id version text", "VersionedTextDocumentIdentifier": "uri version", "TextDocumentIdentifier": "uri",
             "TextDocumentContentChangeEvent": "range range_length text", "Position": "line character", "Range": "start end",
             "Location": "uri range", "DiagnosticRelatedInformation": "location message"}


def did_open(w, u, t):
    return "did_open", ext(w, "DidOpenTextDocumentParams", text_document=ext(w, "TextDocumentItem", uri=u, text=t))


def did_change(w, u, ts):
    return "did_change", ext(w, "DidChangeTextDocumentParams", text_document=ext(w, "VersionedTextDocumentIdentifier", uri=u),
                             content_changes=vec(*[ext(w, "TextDocumentContentChangeEvent", text=t, range=NONE, range_length=NONE) for t in ts]))


def did_save(w, u, t):
    return "did_save", ext(w, "DidSaveTextDocumentParams", text_document=ext(w, "TextDocumentIdentifier", uri=u), text=NONE if t is None else some(t))


def diagnostic(w, u):
    return "diagnostic", ext(w, "DocumentDiagnosticParams", text_document=ext(w, "TextDocumentIdentifier", uri=u))


def T_(i, j=0):
    return mk("sym", "TEXT%d.%d" % (i, j))


A, B = url("a"), url("b")
FILE = mk("sym", "FILE-CONTENT")


def operations():
    """(name, document, fn(i) -> notification, fn(i) -> text or None if unchanged, readable)"""
    out = []
    for n, u in (("a", A), ("b", B)):
        out.append(("open " + n, u, lambda w, i, u=u: did_open(w, u, T_(i)), lambda i: T_(i), False))
    out.append(("change a", A, lambda w, i: did_change(w, A, [T_(i)]), lambda i: T_(i), False))
    out.append(("change a twice", A, lambda w, i: did_change(w, A, [T_(i), T_(i, 1)]), lambda i: T_(i, 1), False))
    out.append(("change a three times", A, lambda w, i: did_change(w, A, [T_(i), T_(i, 1), T_(i, 2)]), lambda i: T_(i, 2), False))
    out.append(("change nothing in a", A, lambda w, i: did_change(w, A, []), lambda i: None, False))
    out.append(("change b", B, lambda w, i: did_change(w, B, [T_(i)]), lambda i: T_(i), False))
    out.append(("save a with text", A, lambda w, i: did_save(w, A, T_(i)), lambda i: T_(i), False))
    out.append(("save a", A, lambda w, i: did_save(w, A, None), lambda i: FILE, True))
    out.append(("save a, unreadable", A, lambda w, i: did_save(w, A, None), lambda i: None, False))
    out.append(("save b, unreadable", B, lambda w, i: did_save(w, B, None), lambda i: None, False))
    return out


def have(cx):
    w = cx.world
    for m in ("did_open", "did_change", "did_save", "diagnostic"):
        if len([b for b in w.lib.bodies.values() if b.name == m and b.kind == "fn" and b.trait and b.trait.endswith("LanguageServer")]) != 1:
            cx.undec("no unique LanguageServer::" + m)
            return False
    for t, n in (("LexicalAnalyzer", "new"), ("Parser", "new"), ("Parser", "classify"), ("Parser", "parse"), ("DomainSemanticAnalyzer", "new"),
                 ("DomainSemanticAnalyzer", "verify_domain"), ("ProblemSemanticAnalyzer", "new"), ("ProblemSemanticAnalyzer", "verify_problem")):
        if len(w.fn(t, n)) != 1:
            cx.undec("no unique %s::%s" % (t, n))
            return False
    return True


def check(cx):
    """C20"""
    astb.setup(cx.world)
    if not have(cx):
        return
    ops = operations()
    seqs = [()] + [(o,) for o in ops] + list(itertools.product(ops, repeat=2))
    if cx.tier == "thorough":
        seqs += list(itertools.product(ops, repeat=3))
    else:
        first = [o for o in ops if o[0] in ("open a", "change a", "save a")]
        seqs += list(itertools.product(first, ops, ops))
    for s in seqs:
        one(cx, s)


def one(cx, seq):
    w = cx.world
    name = ", ".join(o[0] for o in seq) or "nothing"
    want = {}
    for i, (n, u, mkop, res, readable) in enumerate(seq):
        t = res(i)
        if t is not None:
            want[u] = t
    try:
        srv = Server(w, results={})
        states = srv.start()
        for i, (n, u, mkop, res, readable) in enumerate(seq):
            srv.files = {fpath(A): FILE} if readable else {}
            m, p = mkop(w, i)
            states = [o for st, this in states for o in [(s2, this) for s2, _ in srv.call(st, this, m, p)]]
        # every text is no HDDL file: the handler looks at it and reports nothing
        srv.results = {t: {"kind": "MaybeNotHDDL", "parse": None, "verify": None} for t in want.values()}
        good = bool(states)
        at = "LanguageServer for RequestHandler (%s)" % [b for b in w.lib.bodies.values() if b.name == "did_change" and b.trait][0].span
        for u, un in ((A, "a"), (B, "b")):
            for st, this in states:
                srv.texts.clear()
                m, p = diagnostic(w, u)
                for s2, r in srv.call(st.copy(), this, m, p):
                    seen = [t for _, t in srv.texts]
                    if s2.taint or s2.lossy or r.op != "adt" or r.a[5] not in ("Ok", "Err"):
                        if seen and u in want and not st.taint and not st.lossy and all(t.op == "sym" and t is not want[u] for t in seen):
                            cx.find("%s: %s" % (name, un), at, "after %s, the diagnosis of %s uses %s instead of %s" % (name, un, show(seen[0]), show(want[u])))
                        elif seen and u not in want and not st.taint and not st.lossy and seen[0].op == "sym":
                            cx.find("%s: %s" % (name, un), at, "after %s, the diagnosis of %s, which was never synchronised, uses %s" % (name, un, show(seen[0])))
                        else:
                            cx.undec("%s: %s: %s" % (name, un, "; ".join(map(str, s2.taint)) or "result not determined"))
                        good = False
                        continue
                    if u not in want:
                        if r.a[5] != "Err":
                            cx.find("%s: %s" % (name, un), at, "after %s, the diagnosis of %s, which was never synchronised, does not fail" % (name, un))
                            good = False
                        continue
                    if r.a[5] == "Err":
                        cx.find("%s: %s" % (name, un), at, "after %s, the diagnosis of %s fails: %s" % (name, un, show(r)[:150]))
                        good = False
                    elif not seen:
                        cx.undec("%s: no text is looked at" % name)
                        good = False
                    for t in seen:
                        if t is not want[u]:
                            cx.find("%s: %s" % (name, un), at, "after %s, the diagnosis of %s uses %s instead of %s" % (name, un, show(t)[:100], show(want[u])))
                            good = False
        for st, fn, sp in srv.dead:
            if not st.taint and not st.lossy:
                cx.find("deadlock in " + fn, "%s (%s)" % (fn, sp), "after %s, %s waits for a lock that it holds itself" % (name, fn))
            good = False
        for st, stk, sp, what in srv.e.panics:
            good = False
            if not st.taint and not st.lossy:
                cx.find("%s: panic" % name, "%s (%s)" % (stk[-1].short() if stk else at, sp), "%s: panic (%s)" % (name, what))
    except (Budget, KeyError) as ex:
        cx.undec("%s: %s" % (name, ex))
        return
    cx.count("sequences")
    if good:
        cx.ok({"notifications": name})
    else:
        cx.count("not discharged")


# ------------------------------------------------------------------ C21
def diagnostics(cx):
    astb.setup(cx.world)
    if have(cx):
        reports(cx)
    convert(cx)


def error(n):
    return mk("sym", "ERROR-" + n)


def sem_error(n):
    return enum("ParsingError", "Semantic", error(n))


def items_of(e, st, r):
    """the diagnostics of a report, or None"""
    x = r
    for _ in range(8):
        x = e.deref(st, x)
        if x.op == "adt" and "items" in (x.a[4] or ()):
            v = e.deref(st, x.a[2][x.a[4].index("items")])
            if v.op == "coll" and all(k == "e" for k, _ in v.a[1]):
                return [e.deref(st, y) for _, y in v.a[1]]
            return None
        if x.op != "adt" or not x.a[2]:
            return None
        nxt = [y for y in x.a[2] if e.deref(st, y).op == "adt" and e.deref(st, y).a[0] != OPT]
        if len(nxt) != 1:
            return None
        x = nxt[0]
    return None


def reports(cx):
    DOM, DOC = mk("sym", "DOMAIN-FILE"), T_(0)
    H = lambda n: mk("sym", n)
    folder = {H("x.txt"): H("C-TXT"), H("other.hddl"): H("C-PROBLEM"), H("noise.pddl"): H("C-NOISE"), H("dom.hddl"): DOM}
    base = {H("C-TXT"): dict(kind="Domain", parse=error("TXT"), verify=None), H("C-PROBLEM"): dict(kind="Problem", parse=None, verify=None),
            H("C-NOISE"): dict(kind="MaybeNotHDDL", parse=error("NOISE"), verify=None)}
    P = {"ok": (None, None), "parse": ("p", None), "verify": (None, "v")}

    def res(kind, how, n):
        p, v = P[how]
        return dict(kind=kind, parse=error(n + "-PARSE") if p else None, verify=error(n + "-VERIFY") if v else None)

    def errs(how, n):
        return [error(n + "-PARSE")] if how == "parse" else [sem_error(n + "-VERIFY")] if how == "verify" else []
    # a domain, and a file that is neither
    for how in P:
        case(cx, "domain document (%s)" % how, Server(cx.world, results={DOC: res("Domain", how, "DOC")}), DOC, [errs(how, "DOC")])
    case(cx, "document that is neither", Server(cx.world, results={DOC: dict(kind="MaybeNotHDDL", parse=error("DOC-PARSE"), verify=None)}), DOC, [[]])
    # a problem whose domain is somewhere in its folder
    names = list(folder)
    for order in (names, names[::-1], names[3:] + names[:3], names[2:] + names[:2]):
        for unread in ((), (H("other.hddl"),)):
            for dh in P:
                for ph in P:
                    srv = Server(cx.world, files={k: v for k, v in folder.items() if k not in unread}, dirs=order,
                                 results=dict(base, **{}) | {DOM: res("Domain", dh, "DOM"), DOC: res("Problem", ph, "DOC")})
                    own = errs(ph, "DOC") if ph == "parse" or dh == "ok" else []
                    case(cx, "problem document (%s) with a domain (%s) among %s%s" % (ph, dh, [n.a[0] for n in order], ", one unreadable" if unread else ""),
                         srv, DOC, [errs(dh, "DOM") + own, own + errs(dh, "DOM")])
    # no domain to be found
    for why, dirs in (("no such folder", None), ("empty folder", []), ("no domain", names[:3]), ("not a file", False)):
        for ph in P:
            srv = Server(cx.world, files={k: v for k, v in folder.items()}, dirs=dirs, results=dict(base) | {DOC: res("Problem", ph, "DOC")})
            case(cx, "problem document (%s), %s" % (ph, why), srv, DOC, [errs(ph, "DOC") if ph == "parse" else []])


def case(cx, name, srv, doc, want):
    w = cx.world
    at = "LanguageServer::diagnostic (%s)" % [b for b in w.lib.bodies.values() if b.name == "diagnostic" and b.kind == "fn" and b.trait][0].span
    good = True
    try:
        n = 0
        for st, this in srv.start():
            for s1, _ in srv.call(st, this, *did_open(w, A, doc)):
                for s2, r in srv.call(s1, this, *diagnostic(w, A)):
                    n += 1
                    if s2.taint or s2.lossy or r.op != "adt" or r.a[5] not in ("Ok", "Err"):
                        cx.undec("%s: %s" % (name, "; ".join(map(str, s2.taint)) or "result not determined"))
                        good = False
                        continue
                    if r.a[5] == "Err":
                        cx.find(name, at, "%s: the request fails: %s" % (name, show(r)[:150]))
                        good = False
                        continue
                    its = items_of(srv.e, s2, r.a[2][0])
                    if its is None or any(i.op != "diag" for i in its):
                        cx.undec("%s: report not determined: %s" % (name, show(r)[:300]))
                        good = False
                        continue
                    got = vec(*[i.a[0] for i in its])
                    ts = [same(srv.e, s2, got, vec(*x)) for x in want]
                    if any(t is True for t in ts):
                        continue
                    good = False
                    if all(t is False for t in ts):
                        cx.find(name, at, "%s: reported is %s instead of %s" % (name, show(got)[:200], show(vec(*want[0]))[:200]))
                    else:
                        cx.undec("%s: report not determined: %s" % (name, show(got)[:200]))
        for st, stk, sp, what in srv.e.panics:
            good = False
            if not st.taint and not st.lossy:
                cx.find("%s: panic" % name, "%s (%s)" % (stk[-1].short() if stk else at, sp), "%s: panic (%s)" % (name, what))
        for st, fn, sp in srv.dead:
            good = False
            if not st.taint and not st.lossy:
                cx.find("deadlock in " + fn, "%s (%s)" % (fn, sp), "%s: waits for a lock that is held" % name)
        if not n and good:
            cx.undec("%s: no path ends" % name)
            good = False
    except (Budget, KeyError) as ex:
        cx.undec("%s: %s" % (name, ex))
        return
    cx.count("reports")
    if good:
        cx.ok({"case": name})


def convert(cx):
    """From<ParsingError> for Diagnostic on every kind of error"""
    w = cx.world
    bs = [b for b in w.lib.bodies.values() if b.name == "from" and b.trait and "From<" in b.trait and "ParsingError" in b.trait
          and b.impl is not None and w.lib.peel(b.impl).get("path", "").endswith("Diagnostic")]
    if len(bs) != 1:
        cx.undec("no conversion of errors to diagnostics")
        return
    b = bs[0]
    at = "%s (%s)" % (b.short(), b.span)
    spec, names, _ = texts.semantic()
    L, L2 = mk("sym", "L"), mk("sym", "L2")
    todo = []
    for n, args, data, _, _ in spec:
        line, rel = (None, None)
        if n.startswith("Duplicate"):
            line, rel = L2, L
        elif n != "CyclicTypeDeclaration":
            line = L
        if n.startswith("Inconsistent") and n.endswith("ArgType") and len(todo) and todo[-1][0] == n:
            continue
        todo.append((n, enum("ParsingError", "Semantic", enum("SemanticErrorType", n, *args)), line, rel))
    q = enum("RequirementType", astb.info("RequirementType")["variants"][0]["name"])
    todo.append(("DuplicateRequirementDeclaration", enum("ParsingError", "Semantic", enum("SemanticErrorType", "DuplicateRequirementDeclaration", q)), None, None))
    p = struct("TokenPosition", line=L)
    for k in astb.info("LexicalErrorType")["variants"]:
        todo.append((k["name"], enum("ParsingError", "Lexiacal", struct("LexicalError", error_type=enum("LexicalErrorType", k["name"]), lexeme=nm("LX"), position=p)), L, None))
    todo.append(("SyntacticError", enum("ParsingError", "Syntactic", struct("SyntacticError", expected=nm("EX"), found=nm("FO"), position=p)), L, None))
    for n, v, line, rel in todo:
        e = absint.Eng(w, 60000)
        e.hooks["tower_lsp::lsp_types::Url::parse"] = lambda call: call.ret(ok(mk("url", call.val(0))))
        e.hooks["tower_lsp::lsp_types::Position::new"] = lambda call: call.ret(ext(w, "Position", line=call.val(0), character=call.val(1)))
        e.hooks["tower_lsp::lsp_types::Range::new"] = lambda call: call.ret(ext(w, "Range", start=call.val(0), end=call.val(1)))
        e.hooks["tower_lsp::lsp_types::Location::new"] = lambda call: call.ret(ext(w, "Location", uri=call.val(0), range=call.val(1)))
        F = ("range", "severity", "code", "source", "message", "related_information", "tags")
        e.hooks["tower_lsp::lsp_types::Diagnostic::new"] = lambda call: call.ret(adt("Diagnostic", 0, [call.val(i) for i in range(7)], F, "Diagnostic"))
        st0 = absint.St()
        e.decide = lambda st, t: lines_positive(t)
        try:
            outs = e.call_body(st0, b, [v], 0)
            want_text, _ = texts.texts(w, v)
        except Budget as ex:
            cx.undec("%s: %s" % (n, ex))
            continue
        cx.count("errors converted")
        good = bool(outs)
        for st, stk, sp, what in e.panics:
            if not st.taint and not st.lossy:
                cx.undec("%s: panic not excluded: %s" % (n, what))
            good = False
        for st, d in outs:
            if st.taint or st.lossy or d.op != "adt" or "message" not in (d.a[4] or ()):
                cx.undec("%s: %s" % (n, "; ".join(map(str, st.taint)) or "diagnostic not determined: " + show(d)[:100]))
                good = False
                continue
            g = dict(zip(d.a[4], d.a[2]))
            if len(want_text) == 1:
                t = e.deref(st, g["message"])
                inner = v.a[2][0]
                if t is not want_text[0][1]:
                    # the text of the error inside is as good
                    alt, _ = texts.texts(w, inner)
                    if not (len(alt) == 1 and t is alt[0][1]):
                        a, c = texts.flat(t, all_names(names)), texts.flat(want_text[0][1], all_names(names))
                        if a is None or c is None:
                            cx.undec("%s: message not determined: %s" % (n, show(t)[:150]))
                        else:
                            cx.find(n + ": message", at, "the diagnostic of %s has the message '%s' instead of '%s'" % (n, a, c))
                        good = False
            if line is not None:
                good = place(cx, e, st, at, n, g["range"], line, "diagnostic") and good
            ri = e.deref(st, g["related_information"])
            if rel is not None:
                if ri.op != "adt" or ri.a[5] != "Some":
                    cx.find(n + ": related", at, "the diagnostic of %s does not point to the first declaration" % n)
                    good = False
                else:
                    c = e.deref(st, ri.a[2][0])
                    els = [e.deref(st, x) for k, x in parts_of(c)] if c.op == "coll" else None
                    loc = None
                    if els and len(els) == 1 and els[0].op == "adt":
                        loc = e.deref(st, e.step_get(st, els[0], ("f", "", 0, "location")))
                        loc = e.step_get(st, loc, ("f", "", 1, "range")) if loc.op == "adt" else None
                    if loc is None:
                        cx.undec("%s: related information not determined: %s" % (n, show(ri)[:150]))
                        good = False
                    else:
                        good = place(cx, e, st, at, n, loc, rel, "pointer to the first declaration in the diagnostic") and good
        if good:
            cx.ok({"error": n})


def all_names(names):
    d = dict(names)
    d[nm("LX")] = "‹lexeme›"
    d[nm("EX")] = "‹expected›"
    d[nm("FO")] = "‹found›"
    return d


def lines_positive(t):
    """lines count from one"""
    if t.op == "ge0":
        c, d = lin_of(t.a[0])
        if d and all(x.op == "sym" and x.a[0] in ("L", "L2") for x in d):
            if all(k > 0 for k in d.values()) and c + sum(d.values()) >= 0:
                return True
            if all(k < 0 for k in d.values()) and c + sum(d.values()) < 0:
                return False
    return None


def place(cx, e, st, at, n, rng, line, what):
    """the range starts on the (zero-based) line and ends there or at the start of the next"""
    rng = e.deref(st, rng)
    try:
        a = e.deref(st, e.step_get(st, rng, ("f", "", 0, "start")))
        b = e.deref(st, e.step_get(st, rng, ("f", "", 1, "end")))
        l0 = e.deref(st, e.step_get(st, a, ("f", "", 0, "line")))
        l1 = e.deref(st, e.step_get(st, b, ("f", "", 0, "line")))
    except Exception:
        cx.undec("%s: range not determined" % n)
        return False
    want0, want1 = sub(line, I(1)), line
    t0 = True if l0 is want0 else e.truth(st, eq(l0, want0))
    t1 = True if l1 in (want0, want1) else None if e.truth(st, eq(l1, want1)) is None else e.truth(st, eq(l1, want1))
    if t0 is not True and determined(l0):
        cx.find(n + ": line", at, "the %s of %s starts at line %s (zero-based) instead of %s" % (what, n, show(l0), show(want0)))
        return False
    if t1 is not True and determined(l1):
        cx.find(n + ": end", at, "the %s of %s ends at line %s (zero-based) instead of %s" % (what, n, show(l1), show(want1)))
        return False
    if t0 is not True or t1 is not True:
        cx.undec("%s: range not determined: %s, %s" % (n, show(l0), show(l1)))
        return False
    return True


def determined(t):
    return all(x.op in ("sym", "int", "add", "sub", "lin", "sum") for x in walk(t))
