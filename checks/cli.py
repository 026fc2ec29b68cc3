"""C19: the command line program, interpreted with the file system and the library replaced by each outcome they can have."""
import itertools, re
import absint, astb
from terms import *
from seqs import *
from absint import Budget

DP, PP, OF = mk("sym", "DOMAIN-PATH"), mk("sym", "PROBLEM-PATH"), mk("sym", "OUTPUT-PATH")
CWD = mk("sym", "CWD")
NAMES = {DP: "‹dp›", PP: "‹pp›", OF: "‹of›"}


def content(p):
    return mk("content", p)


def cli_adt(world, n):
    for a in world.cli.adts:
        if a["local"] and a["path"].split("::")[-1] == n:
            return a
    raise KeyError(n)


def build(world, n, variant, fields):
    a = cli_adt(world, n)
    for i, v in enumerate(a["variants"]):
        if v["name"] == variant or variant is None:
            fs = [fields[f[0]] for f in v["fields"]]
            return adt(a["path"], i, fs, [f[0] for f in v["fields"]], v["name"])
    raise KeyError("%s::%s" % (n, variant))


def path_of(v):
    """a path named by the user, also when joined to the current directory"""
    while v.op == "pjoin" and v.a[0] is CWD:
        v = v.a[1]
    return v


class Run:
    def __init__(self, world, cmd, ch, problem, output, nwarn):
        self.e = e = absint.Eng(world, 60000)
        self.calls = []
        W = [mk("sym", "WARNING%d" % i) for i in range(nwarn)]

        def read(call):
            p = path_of(call.val(0))
            k = {DP: "read domain", PP: "read problem"}.get(p)
            if k is None:
                call.st.add_taint("read of an unknown file")
                return call.ret(mk("fresh", 1))
            return call.ret(ok(content(p)) if ch[k] == "ok" else err(mk("sym", "IO-ERROR-" + k)))

        def write(call):
            e.events(call.st, mk("write", path_of(call.val(0)), call.val(1)))
            return call.ret(ok(UNIT) if ch["write"] == "ok" else err(mk("sym", "IO-ERROR-write")))

        def pr(which):
            def f(call):
                a = call.val(0)
                if a.op != "fargs":
                    call.st.add_taint("text of an output not determined")
                e.events(call.st, mk("print", which, a.a[0] if a.op == "fargs" else a))
                return call.ret(UNIT)
            return f

        def lib(name, result):
            def f(call):
                e.events(call.st, mk("call", name, call.val(0), e.freeze(call.st, call.args[1]) if len(call.args) > 1 else NONE))
                return call.ret(ok(result) if ch["library"] == "ok" else err(mk("sym", "ANALYSIS-ERROR")))
            return f
        args = build(world, "InputArgs", None, {"domain_path": DP, "problem_path": some(PP) if problem else NONE, "output_file": some(OF) if output else NONE})
        cli = build(world, "CLIArgs", None, {"command": build(world, "Commands", cmd, {"0": args})})
        h = e.hooks
        h["clap::Parser::parse"] = lambda call: call.ret(cli)
        h["std::fs::read"] = read
        h["std::fs::write"] = write
        h["std::io::_print"] = pr("out")
        h["std::io::_eprint"] = pr("err")
        h["std::env::current_dir"] = lambda call: call.ret(ok(CWD))

        def push(call):
            call.setp(call.args[0], mk("pjoin", call.val(0), call.val(1)))
            return call.ret(UNIT)
        h["std::path::PathBuf::push"] = push
        h["std::path::Path::join"] = lambda call: call.ret(mk("pjoin", call.val(0), call.val(1)))
        for p in ("std::path::Path::new", "std::path::PathBuf::as_path", "std::path::Path::to_path_buf"):
            h[p] = lambda call: call.ret(call.val(0))
        h[("HDDLAnalyzer", "verify")] = lib("verify", coll("vec", [("e", w) for w in W]))
        h[("HDDLAnalyzer", "get_metadata")] = lib("get_metadata", mk("sym", "METADATA"))
        h[("HDDLAnalyzer", "to_json")] = lib("to_json", mk("sym", "JSON"))
        b = [b for b in world.cli.bodies.values() if b.name == "main" and b.kind == "fn"]
        if len(b) != 1:
            raise KeyError("main")
        self.body = b[0]
        self.outs = [st for st, v in e.call_body(absint.St(), b[0], [], 0) if check_ret(st, v)] + list(e.ended)


def check_ret(st, v):
    if v.op == "adt" and v.a[5] == "Err":
        st.add_taint("main returns an error")
    return True


def flat(t):
    out = []
    for x in (t.a[0] if t.op == "cat" else (t,)):
        if x.op == "str":
            out.append(x.a[0])
            continue
        while x.op in ("disp",):
            x = x.a[0]
        if x.op == "sym":
            out.append("‹%s›" % x.a[0])
        elif x.op == "dbg":
            out.append("‹dbg›")
        else:
            return None
    return "".join(out)


def check(cx):
    w = cx.world
    astb.setup(w)
    OE = ("ok", "err")
    for cmd, fn in (("Verify", "verify"), ("Metadata", "get_metadata"), ("Serialize", "to_json")):
        for problem, output in itertools.product((False, True), (False, True) if cmd == "Serialize" else (False,)):
            if cmd == "Metadata" and problem:
                continue
            for rd, rp, li, wr in itertools.product(OE, OE if problem else ("ok",), OE, OE if output else ("ok",)):
                for nw in ((0, 1, 2, 3) if cmd == "Verify" and (rd, rp, li) == ("ok",) * 3 else (0,)):
                    one(cx, cmd, fn, {"read domain": rd, "read problem": rp, "library": li, "write": wr}, problem, output, nw)


def one(cx, cmd, fn, ch, problem, output, nw):
    name = "%s%s%s (%s%s)" % (cmd.lower() if cmd != "Serialize" else "to_json", " -p" if problem else "", " -o" if output else "",
                              ", ".join("%s: %s" % (k, v) for k, v in ch.items() if (k != "write" or output) and (k != "read problem" or problem)),
                              ", %d warnings" % nw if nw else "")
    try:
        r = Run(cx.world, cmd, ch, problem, output, nw)
    except (Budget, KeyError) as ex:
        cx.undec("%s: %s" % (name, ex))
        return
    cx.count("runs")
    at = "main (%s)" % r.body.span
    good = True
    for st, stk, sp, what in r.e.panics:
        good = False
        if st.taint or st.lossy:
            cx.undec("%s: panic not excluded: %s" % (name, what))
        else:
            cx.find(name + ": panic", "%s (%s)" % (stk[-1].short() if stk else "main", sp), "%s panics (%s)" % (name, what))
    if not r.outs and good:
        cx.undec(name + ": no path ends")
        good = False
    for st in r.outs:
        if st.taint or st.lossy:
            cx.undec("%s: %s" % (name, "; ".join(map(str, st.taint)) or "imprecise"))
            good = False
            continue
        ev = [x for _, x in parts_of(st.world.get("trace", EMPTY))]
        outs, errs, writes, calls = [], [], [], []
        for x in ev:
            if x.op == "print":
                (outs if x.a[0] == "out" else errs).append(flat(x.a[1]))
            elif x.op == "write":
                writes.append(x)
            elif x.op == "call":
                calls.append(x)
        if None in outs or None in errs:
            cx.undec("%s: text not determined" % name)
            good = False
            continue
        out, er = "".join(outs), "".join(errs)
        bad = []
        failing = []
        if ch["read domain"] == "err":
            failing.append("‹IO-ERROR-read domain›")
        if ch["read problem"] == "err":
            failing.append("‹IO-ERROR-read problem›")
        if not failing:
            if ch["library"] == "err":
                failing.append("‹ANALYSIS-ERROR›")
            want = some(content(PP)) if problem else NONE
            if len(calls) < 1:
                bad.append(("call", "the library is not asked"))
            for c in calls:
                if c.a[0] != fn:
                    bad.append(("call", "%s is called" % c.a[0]))
                elif c.a[1] is not content(DP):
                    bad.append(("domain", "the domain passed to the library is %s" % show(c.a[1])))
                elif c.a[2] is not want and cmd != "Metadata":
                    bad.append(("problem", "the problem passed to the library is %s" % show(c.a[2])))
        wexp = False
        if not failing and cmd == "Serialize" and output:
            wexp = True
            if ch["write"] == "err":
                failing.append("‹IO-ERROR-write›")
        if wexp:
            if len(writes) != 1 or writes[0].a[0] is not OF or writes[0].a[1] is not mk("sym", "JSON"):
                bad.append(("write", "written is %s instead of the JSON to the output file" % (show(writes[0]) if writes else "nothing")))
        elif writes:
            bad.append(("write", "a file is written: " + show(writes[0])))
        if failing:
            if not any(f in er for f in failing):
                bad.append(("no error", "standard error is %r and does not carry the error %s" % (er, failing[0])))
            if out:
                bad.append(("output", "standard output is %r in spite of the error" % out))
        else:
            if er:
                bad.append(("error", "standard error is %r in spite of success" % er))
            plain = re.sub("\x1b\\[[0-9;]*m", "", out)
            if cmd == "Verify":
                lines = plain.split("\n")
                if re.findall("‹WARNING.›", plain) != ["‹WARNING%d›" % i for i in range(nw)]:
                    bad.append(("warnings", "the output does not contain each warning once, in order: %r" % plain))
                elif any(l.count("‹") > 1 for l in lines):
                    bad.append(("lines", "several warnings on one line: %r" % plain))
                elif lines[-1] != "" or len(lines) < 2 or not re.search(r"(?i)\bok\b", lines[-2]) or any(re.search(r"(?i)\bok\b", l) for l in lines[:-2]):
                    bad.append(("ok", "the output does not end with one Ok line: %r" % plain))
            elif cmd == "Metadata":
                if plain.count("‹METADATA›") != 1:
                    bad.append(("description", "the output is not the description: %r" % plain))
            elif not output:
                if plain.count("‹JSON›") != 1:
                    bad.append(("json", "the output does not contain the JSON: %r" % plain))
            elif "‹JSON›" in plain:
                bad.append(("json", "the JSON is printed although an output file is named"))
        for k, b in bad:
            cx.find("%s: %s" % (name, k), at, "%s: %s" % (name, b))
        good = good and not bad
    if good:
        cx.ok({"case": name})
