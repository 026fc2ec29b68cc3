"""C17: effect analysis over the call graph of the analysis entry points."""
import re
from callgraph import CallGraph, const_operands
from mir import strip_generics

# calls into std or a dependency that read or change something besides their arguments
IMPURE = [
    r"std::io::(stdio::)?(_print|_eprint|print_to|stdin|stdout|stderr|attempt_print_to_stderr)$",
    r"std::io::(stdio::)?(Stdin|Stdout|Stderr|StdinLock|StdoutLock|StderrLock)::",
    r"std::fs::", r"std::env::", r"std::net::", r"std::process::(?!Termination)", r"std::os::", r"std::thread::(?!LocalKey|local)",
    r"std::time::(Instant|SystemTime)::", r"std::sync::mpsc::", r"std::dbg", r"std::backtrace::",
    r"tokio::", r"tower_lsp::Client::", r"std::panic::(set_hook|take_hook)", r"std::alloc::(alloc|set_alloc)",
    r"rand::", r"log::", r"std::hash::RandomState::(new|hash_one|build_hasher)$", r"core::intrinsics::volatile",
    r"std::path::Path::(exists|is_file|is_dir|metadata|read_dir|canonicalize|try_exists|symlink_metadata|read_link)$",
]
IMPURE_RE = re.compile("|".join("(?:%s)" % x for x in IMPURE))
MUTCELL = re.compile(r"Mutex|RwLock|Atomic|RefCell|OnceCell|OnceLock|LazyCell|UnsafeCell|\bCell<")
ENTRIES = ("verify", "get_metadata", "to_json")


def is_server(b):
    return "language_server" in b.key


def entries(w):
    r = []
    for n in ENTRIES:
        r += w.fn("HDDLAnalyzer", n)
    return r


def check(cx):
    w = cx.world
    cg = CallGraph(w.lib)
    roots = entries(w)
    if len(roots) < 3:
        cx.undec("entry points of the library not found")
        return
    via = cg.reach(roots, skip=is_server)
    nf = nc = ns = 0
    for k in via:
        b = w.lib.bodies[k]
        nf += 1
        for c, ext, sp in cg.edges[k]:
            nc += 1
            if ext is None:
                continue
            p = strip_generics(ext.get("rpath") or ext["path"])
            p0 = strip_generics(ext["path"])
            if IMPURE_RE.match(p) or IMPURE_RE.match(p0):
                cx.find("effect:%s:%s" % (b.short(), p), sp,
                        "%s calls %s, which is input/output, a thread, the clock, the environment or process control; "
                        "reached by %s" % (b.short(), p, cg.chain(via, k)))
        for bl in b.blocks:
            if bl["cleanup"]:
                continue
            for s in bl["s"] + [bl["t"]]:
                if s[0] == "=" and s[2][0] == "tls":
                    cx.find("global:%s:%s" % (b.short(), s[2][1]), bl["sp"], "%s uses the thread-local %s; reached by %s" % (
                        b.short(), s[2][1], cg.chain(via, k)))
                for c in const_operands(s):
                    if "static" in c:
                        ns += 1
                        ty = c["sty"]
                        bad = c["smut"]
                        if not c["sfreeze"]:
                            if re.match(r"(std::sync|core::cell|std::cell)::(lazy_lock::)?Lazy(Lock|Cell)<", ty):
                                inner = ty[ty.index("<") + 1:]
                                bad = bool(MUTCELL.search(inner))
                            elif re.match(r"std::sync::(once_lock::)?OnceLock<", ty):
                                bad = once_depends(w.lib, c["static"])
                            else:
                                bad = True
                        if bad:
                            cx.find("global:%s:%s" % (b.short(), c["static"]), bl["sp"],
                                    "%s uses the mutable global %s: %s; reached by %s" % (
                                        b.short(), c["static"], ty, cg.chain(via, k)))
            t = bl["t"]
            if t[0] == "call" and "path" in t[1]:
                p = strip_generics(t[1]["path"])
                if p.startswith("std::thread::LocalKey::"):
                    cx.find("global:%s:thread_local" % b.short(), bl["sp"],
                            "%s uses a thread-local value; reached by %s" % (b.short(), cg.chain(via, k)))
    cx.ok(n=nf)
    cx.count("functions", nf)
    cx.count("call_sites", nc)
    cx.count("static_references", ns)
    cx.samples = [w.lib.bodies[k].short() for k in sorted(via)][:40]


def once_depends(prog, static):
    """a OnceLock is harmless if nothing but constants can be stored in it"""
    for b in prog.bodies.values():
        for bl in b.blocks:
            t = bl["t"]
            if t[0] == "call" and "path" in t[1]:
                p = strip_generics(t[1]["path"])
                if p.endswith("OnceLock::set") or p.endswith("OnceLock::get_mut_or_init"):
                    return True
                if p.endswith("OnceLock::get_or_init"):
                    for s in b.blocks:
                        for st in s["s"]:
                            if st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "closure" and st[2][2]:
                                return True
    return False
