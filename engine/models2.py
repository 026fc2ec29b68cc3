"""Transfer functions of further parts of std: texts, characters, numbers, orderings, containers, iterators."""
import math
import re
from terms import *
from seqs import *
from models import *
from models import MODELS, PRELUDE, model, fresh, lookup, display, run_of, chr_term, mkbstr, as_iter, step, NEXT, peel, kind_of, eq_vals
import models
from mir import strip_generics

ORD = "std::cmp::Ordering"
LESS, EQUAL, GREATER = (adt(ORD, i, (), (), n) for i, n in enumerate(("Less", "Equal", "Greater")))


def explicit(v):
    return v.op == "coll" and all(k == "e" for k, _ in v.a[1])


def els(v):
    return [x for _, x in v.a[1]]


def vec(xs):
    return mk("coll", "vec", tuple(("e", x) for x in xs))


def itof(xs):
    return mk("it", tuple(("e", x) for x in xs))


def collect_parts(call, st, it):
    """[(state, parts of what the iterator yields)]"""
    it = as_iter(call.e, st, it)
    if it.op == "it":
        return [(st, it.a[0])]
    outs = call.e.call_body(st, call.e.prel.bodies["prelude::collect_vec"], [it], call.fr.depth + 1)
    return [(s, parts_of(call.e.deref(s, v))) for s, v in outs]


def collected(call, st, it):
    """[(state, elements)], or None if some part is summarised"""
    outs = collect_parts(call, st, it)
    if any(k != "e" for _, ps in outs for k, _ in ps):
        return None
    return [(s, [x for _, x in ps]) for s, ps in outs]


# ------------------------------------------------------------------ texts
def chars_of(s):
    if s.op == "str":
        return [I(ord(c)) for c in s.a[0]]
    if s.op == "bstr":
        return list(s.a[0])
    return None


def text(st, cs):
    return mkbstr(st, cs)


def width(x):
    return len(chr(x.a[0]).encode()) if x.op == "int" else 1


def offset(cs, i):
    return sum(width(x) for x in cs[:i])


def matcher(call, p):
    """a pattern as a function (state, chars, position) -> [(state, length of the match or None)]"""
    e = call.e
    p = e.deref(call.st, p)
    if p.op in ("str", "bstr"):
        want = chars_of(p)

        def m(st, cs, i):
            if i + len(want) > len(cs):
                return [(st, None)]
            c = conj(*[eq(a, b) for a, b in zip(want, cs[i:])])
            return [(s, len(want) if r else None) for s, r in e.branch(st, c)]
        return m
    if p.op in ("int", "byte"):
        return lambda st, cs, i: [(s, 1 if r else None) for s, r in e.branch(st, eq(p, cs[i]))] if i < len(cs) else [(st, None)]
    if explicit(p):
        want = [e.deref(call.st, x) for x in els(p)]
        return lambda st, cs, i: [(s, 1 if r else None) for s, r in e.branch(st, disj(*[eq(x, cs[i]) for x in want]))] if i < len(cs) else [(st, None)]
    if p.op in ("clo", "fn"):
        def f(st, cs, i):
            if i >= len(cs):
                return [(st, None)]
            out = []
            for s, v in e.call_value(st, call.fr, call.args[1], [cs[i]], call.blk):
                for s2, r in e.branch(s, e.deref(s, v)):
                    out.append((s2, 1 if r else None))
            return out
        return f
    return None


def scan(st, m, cs, limit=None):
    """[(state, [(start, end)])] of the matches from left to right"""
    work, out = [(st, 0, ())], []
    while work:
        s, i, ms = work.pop()
        if i > len(cs) or (limit is not None and len(ms) >= limit):
            out.append((s, list(ms)))
            continue
        for s2, n in m(s, cs, i):
            if n is None or (n == 0 and i == len(cs)):
                work.append((s2, i + 1, ms))
            else:
                work.append((s2, i + max(n, 1), ms + ((i, i + n),)))
    return out


def rscan(st, m, cs, limit=None):
    work, out = [(st, len(cs), ())], []
    while work:
        s, i, ms = work.pop()
        if i < 0 or (limit is not None and len(ms) >= limit):
            out.append((s, list(ms)))
            continue
        for s2, n in m(s, cs, i):
            if n is None or (ms and i + n > ms[-1][0]):
                work.append((s2, i - 1, ms))
            else:
                work.append((s2, i - max(n, 1), ms + ((i, i + n),)))
    return out


def sfun(call, name=None):
    """a pure function of a text that is not known"""
    return mk("sfn", name or call.path.split("::")[-1], *[call.e.freeze(call.st, a) for a in call.args])


def spred(call, name=None):
    return mk("spred", name or call.path.split("::")[-1], *[call.e.freeze(call.st, a) for a in call.args])


def symbolic(s):
    return s.op not in ("ext", "fresh", "uninit", "const", "static", "bot", "ptr")


def strm(*names):
    def d(f):
        def g(call):
            s = call.val(0)
            cs = chars_of(s)
            return f(call, s, cs, call.path.split("::")[-1])
        for n in names:
            for p in ("core::str::", "std::str::"):
                MODELS[p + n] = g
        return f
    return d


@strm("contains", "starts_with", "ends_with")
def _spat(call, s, cs, n):
    p = call.val(1)
    if cs is not None:
        m = matcher(call, call.args[1])
        if m is None:
            return call.ret(mk("spred", n, s, p))
        if n == "starts_with":
            return [(st, B(k is not None)) for st, k in m(call.st, cs, 0)]
        if n == "ends_with":
            ks = chars_of(p)
            i = len(cs) - (len(ks) if ks is not None else 1)
            if i < 0:
                return call.ret(FALSE)
            return [(st, B(k is not None)) for st, k in m(call.st, cs, i)]
        return [(st, B(bool(ms))) for st, ms in scan(call.st, m, cs, 1)]
    pv = p.a[0] if p.op == "str" else chr(p.a[0]) if p.op == "int" else None
    if s.op == "cat" and pv is not None:
        if n == "starts_with" and s.a[0][0].op == "str" and s.a[0][0].a[0].startswith(pv):
            return call.ret(TRUE)
        if n == "ends_with" and s.a[0][-1].op == "str" and s.a[0][-1].a[0].endswith(pv):
            return call.ret(TRUE)
        if n == "contains" and any(x.op == "str" and pv in x.a[0] for x in s.a[0]):
            return call.ret(TRUE)
    return call.ret(mk("spred", n, s, p))


@strm("trim_start_matches", "trim_end_matches", "trim_matches", "trim_left_matches", "trim_right_matches")
def _trimm(call, s, cs, n):
    m = matcher(call, call.args[1])
    if cs is None or m is None:
        return call.ret(sfun(call)) if symbolic(s) else None
    p = call.val(1)
    w = len(chars_of(p)) if p.op in ("str", "bstr") else 1
    if not w:
        return call.ret(s)
    left = n in ("trim_start_matches", "trim_matches", "trim_left_matches")
    right = n in ("trim_end_matches", "trim_matches", "trim_right_matches")
    work, out = [(call.st, 0, len(cs), left, right)], []
    while work:
        st, a, b, l, r = work.pop()
        if l and b - a >= w:
            for s2, k in m(st, cs[:b], a):
                work.append((s2, a + w, b, True, r) if k is not None else (s2, a, b, False, r))
        elif r and b - a >= w:
            for s2, k in m(st, cs[:b], b - w):
                work.append((s2, a, b - w, False, True) if k is not None else (s2, a, b, False, False))
        else:
            out.append((st, text(st, cs[a:b])))
    return out


def ws(x):
    return mk("chp", "is_whitespace", x)


def is_ws(e, st, x):
    if x.op == "int":
        return [(st, chr(x.a[0]).isspace() and x.a[0] not in (28, 29, 30, 31))]
    return e.branch(st, ws(x))


@strm("trim", "trim_start", "trim_end", "trim_left", "trim_right")
def _trim(call, s, cs, n):
    if cs is None:
        return call.ret(mk("sfn", n, s))
    work, out = [(call.st, 0, len(cs), n not in ("trim_end", "trim_right"), n not in ("trim_start", "trim_left"))], []
    while work:
        st, a, b, l, r = work.pop()
        if l and a < b:
            for s2, k in is_ws(call.e, st, cs[a]):
                work.append((s2, a + 1, b, True, r) if k else (s2, a, b, False, r))
        elif r and a < b:
            for s2, k in is_ws(call.e, st, cs[b - 1]):
                work.append((s2, a, b - 1, False, True) if k else (s2, a, b, False, False))
        else:
            out.append((st, text(st, cs[a:b])))
    return out


def asciis(s, up):
    return "".join((c.upper() if up else c.lower()) if c.isascii() else c for c in s)


@strm("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase")
def _case(call, s, cs, n):
    if s.op == "str":
        t = s.a[0]
        return call.ret(S(asciis(t, "upper" in n) if "ascii" in n else t.upper() if "upper" in n else t.lower()))
    return call.ret(mk("sfn", n, s))


@model("std::string::String::make_ascii_lowercase", "std::string::String::make_ascii_uppercase", "core::str::make_ascii_lowercase",
       "core::str::make_ascii_uppercase")
def _mkcase(call):
    s = call.val(0)
    up = "upper" in call.path
    call.setp(call.args[0], S(asciis(s.a[0], up)) if s.op == "str" else mk("sfn", "to_ascii_" + ("upper" if up else "lower") + "case", s))
    return call.ret(UNIT)


@strm("eq_ignore_ascii_case")
def _eqic(call, s, cs, n):
    t = call.val(1)
    if s is t:
        return call.ret(TRUE)
    if s.op == "str" and t.op == "str":
        return call.ret(B(asciis(s.a[0], False) == asciis(t.a[0], False)))
    if call.e.truth(call.st, eq(s, t)):
        return call.ret(TRUE)
    a, b = sorted((s, t), key=lambda x: x.n)
    return call.ret(mk("spred", n, a, b))


@model("core::num::eq_ignore_ascii_case", "std::char::methods::eq_ignore_ascii_case", "core::char::methods::eq_ignore_ascii_case")
def _ceqic(call):
    a, b = call.val(0), call.val(1)
    if a.op == "int" and b.op == "int":
        return call.ret(B(asciis(chr(a.a[0]), False) == asciis(chr(b.a[0]), False)))
    return None


@strm("find", "rfind")
def _sfind(call, s, cs, n):
    m = matcher(call, call.args[1])
    if cs is None or m is None:
        if not symbolic(s):
            return None
        return [(st, some(sfun(call)) if r else NONE) for st, r in call.e.branch(call.st, spred(call, "contains"))]
    f = rscan if n == "rfind" else scan
    return [(st, some(I(offset(cs, ms[0][0]))) if ms else NONE) for st, ms in f(call.st, m, cs, 1)]


@strm("strip_prefix", "strip_suffix")
def _strip(call, s, cs, n):
    pre = n == "strip_prefix"
    p = call.val(1)
    m = matcher(call, call.args[1])
    if cs is None or m is None:
        if not symbolic(s):
            return None
        return [(st, some(sfun(call)) if r else NONE) for st, r in call.e.branch(call.st, spred(call, "starts_with" if pre else "ends_with"))]
    ks = chars_of(p)
    w = len(ks) if ks is not None else 1
    i = 0 if pre else len(cs) - w
    if i < 0 or i + w > len(cs):
        return call.ret(NONE)
    return [(st, NONE if k is None else some(text(st, cs[w:] if pre else cs[:i]))) for st, k in m(call.st, cs, i)]


@strm("split_once", "rsplit_once")
def _sonce(call, s, cs, n):
    m = matcher(call, call.args[1])
    if cs is None or m is None:
        if not symbolic(s):
            return None
        return [(st, some(tup(sfun(call, n + ".0"), sfun(call, n + ".1"))) if r else NONE)
                for st, r in call.e.branch(call.st, spred(call, "contains"))]
    f = scan if n == "split_once" else rscan
    return [(st, some(tup(text(st, cs[:ms[0][0]]), text(st, cs[ms[0][1]:]))) if ms else NONE) for st, ms in f(call.st, m, cs, 1)]


@strm("split", "rsplit", "splitn", "rsplitn", "split_terminator", "split_inclusive", "rsplit_terminator")
def _split(call, s, cs, n):
    lim = None
    if n.endswith("splitn"):
        k = call.val(1)
        call.args = [call.args[0], call.args[2], call.args[1]]
        if k.op != "int":
            return None
        if k.a[0] == 0:
            return call.ret(itof([]))
        lim = k.a[0] - 1
    m = matcher(call, call.args[1])
    if cs is None or m is None:
        return None
    out = []
    rev = n.startswith("r")
    for st, ms in (rscan if rev else scan)(call.st, m, cs, lim):
        ms = sorted(ms)
        ps, a = [], 0
        for x, y in ms:
            ps.append(cs[a:y] if n == "split_inclusive" else cs[a:x])
            a = y
        ps.append(cs[a:])
        if n in ("split_terminator", "split_inclusive", "rsplit_terminator") and not ps[-1]:
            ps.pop()
        if rev:
            ps.reverse()
        out.append((st, itof([text(st, p) for p in ps])))
    return out


@strm("split_whitespace", "split_ascii_whitespace")
def _sws(call, s, cs, n):
    if cs is None:
        return None
    work, out = [(call.st, 0, (), ())], []
    while work:
        st, i, cur, ps = work.pop()
        if i == len(cs):
            out.append((st, itof([text(st, list(p)) for p in ps + ((cur,) if cur else ())])))
            continue
        for s2, r in is_ws(call.e, st, cs[i]):
            work.append((s2, i + 1, (), ps + ((cur,) if cur else ())) if r else (s2, i + 1, cur + (cs[i],), ps))
    return out


@strm("lines")
def _lines(call, s, cs, n):
    if s.op != "str":
        return None
    ls = s.a[0].split("\n")
    if not ls[-1]:
        ls.pop()
    return call.ret(itof([S(x[:-1] if x.endswith("\r") else x) for x in ls]))


@strm("matches", "match_indices", "rmatches")
def _matches(call, s, cs, n):
    m = matcher(call, call.args[1])
    if cs is None or m is None:
        return None
    out = []
    for st, ms in scan(call.st, m, cs):
        xs = [text(st, cs[a:b]) if n != "match_indices" else tup(I(offset(cs, a)), text(st, cs[a:b])) for a, b in ms]
        out.append((st, itof(xs[::-1] if n == "rmatches" else xs)))
    return out


@strm("replace", "replacen")
def _repl(call, s, cs, n):
    to = call.val(2)
    m = matcher(call, call.args[1])
    ts = chars_of(to)
    if cs is None or m is None or ts is None:
        return call.ret(sfun(call)) if symbolic(s) else None
    lim = call.val(3).a[0] if n == "replacen" and call.val(3).op == "int" else None
    out = []
    for st, ms in scan(call.st, m, cs, lim):
        r, a = [], 0
        for x, y in ms:
            r += cs[a:x] + ts
            a = y
        out.append((st, text(st, r + cs[a:])))
    return out


@strm("repeat")
def _srepeat(call, s, cs, n):
    k = call.val(1)
    if k.op == "int" and s.op == "str":
        return call.ret(S(s.a[0] * k.a[0]))
    if k.op == "int":
        return call.ret(cat([s] * k.a[0]))
    return call.ret(sfun(call)) if symbolic(s) else None


@strm("split_at", "split_at_checked", "is_char_boundary")
def _ssplitat(call, s, cs, n):
    k = call.val(1)
    if cs is None or k.op != "int":
        return None
    i, w = 0, 0
    while w < k.a[0] and i < len(cs):
        w += width(cs[i])
        i += 1
    good = w == k.a[0]
    if n == "is_char_boundary":
        return call.ret(B(good))
    if not good:
        if n == "split_at":
            call.panic(call.st, "str::split_at")
            return []
        return call.ret(NONE)
    r = tup(text(call.st, cs[:i]), text(call.st, cs[i:]))
    return call.ret(r if n == "split_at" else some(r))


def srange(call, s, r):
    """(lo, hi) in bytes if constant"""
    lo, hi = models.range_of(r, s)
    if lo is None or lo.op != "int" or hi.op != "int":
        return None
    return lo.a[0], hi.a[0]


@strm("get", "get_unchecked")
def _sget(call, s, cs, n):
    r = call.val(1)
    if s.op == "str" and r.op == "adt":
        x = srange(call, s, r)
        if x is not None:
            b = s.a[0].encode()
            if 0 <= x[0] <= x[1] <= len(b):
                try:
                    return call.ret(some(S(b[x[0]:x[1]].decode())))
                except UnicodeDecodeError:
                    pass
            return call.ret(NONE)
    if r.op == "adt" and symbolic(s):
        lo, hi = models.range_of(r, s)
        if lo is not None:
            return [(st, some(slice_(s, lo, hi)) if k else NONE)
                    for st, k in call.e.branch(call.st, conj(le(lo, hi), le(hi, length(s)), mk("spred", "boundary", s, lo), mk("spred", "boundary", s, hi)))]
    return None


@strm("is_ascii")
def _sascii(call, s, cs, n):
    if s.op == "str":
        return call.ret(B(s.a[0].isascii()))
    return call.ret(spred(call)) if symbolic(s) else None


@strm("chars", "bytes", "char_indices")
def _schars(call, s, cs, n):
    if cs is None:
        return None
    if n == "bytes":
        if s.op == "str":
            cs = [I(b) for b in s.a[0].encode()]
        return call.ret(itof(cs))
    if n == "char_indices":
        return call.ret(itof([tup(I(offset(cs, i)), x) for i, x in enumerate(cs)]))
    return call.ret(itof(cs))


@model("std::str::Chars::as_str", "core::str::iter::Chars::as_str")
def _castr(call):
    it = call.val(0)
    if it.op == "it" and all(k == "e" for k, _ in it.a[0]):
        return call.ret(text(call.st, [x for _, x in it.a[0]]))
    return None


@strm("parse")
def _sparse(call, s, cs, n):
    ty, prog = call.ty(0)
    if ty is None:
        return None
    t = peel(ty, prog)
    if t["k"] == "adt" and not t["path"].startswith("std::"):
        bs = [b for b in call.e.trait_impls.get(("std::str::FromStr", "from_str"), []) if b.prog.peel(b.impl).get("path") == t["path"]]
        if len(bs) == 1:
            return call.e.call_body(call.st, bs[0], [s], call.fr.depth + 1)
        return None
    if t["k"] == "adt" and t["path"].endswith("::String"):
        return call.ret(ok(s))
    if s.op == "str":
        v = s.a[0]
        if t["s"] == "char":
            return call.ret(ok(I(ord(v))) if len(v) == 1 else err(mk("parse_err", s, "char")))
        if t["s"] == "bool":
            return call.ret(ok(B(v == "true")) if v in ("true", "false") else err(mk("parse_err", s, "bool")))
        if t["s"] in BITS:
            lo, hi = BITS[t["s"]]
            if re.fullmatch(r"[+-]?[0-9]+" if lo else r"\+?[0-9]+", v):
                n = int(v)
                if lo <= n <= hi:
                    # numbers of a file stay apart from other integers
                    return models._parse(call) if getattr(call.e, "keep_num", False) else call.ret(ok(I(n)))
                return call.ret(err(mk("parse_err", s, t["s"])))
            return call.ret(err(mk("parse_err", s, t["s"])))
        if t["s"] in ("f32", "f64") and not getattr(call.e, "keep_num", False):
            if re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", v):
                return call.ret(ok(mk("flt", float(v))))
    return models._parse(call)


@model("std::string::String::from_utf8_unchecked", "std::str::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked")
def _utf8un(call):
    t = models.text_bytes(call, call.st, call.val(0))
    if t is not None and all(r for _, _, r in t):
        return [(st, mkbstr(st, xs)) for st, xs, _ in t]
    return None


@model("std::string::String::from_utf8")
def _sfu(call):
    return models._futf8(call)


@model("std::string::String::insert", "std::string::String::insert_str")
def _sins(call):
    s, i = call.val(0), call.val(1)
    x = chr_term(call.val(2)) if call.path.endswith("insert") else call.val(2)
    if i.op == "int" and i.a[0] == 0:
        call.setp(call.args[0], cat([x, s]))
        return call.ret(UNIT)
    if s.op == "str" and i.op == "int":
        b = s.a[0].encode()
        call.setp(call.args[0], cat([S(b[:i.a[0]].decode()), x, S(b[i.a[0]:].decode())]))
        return call.ret(UNIT)
    return None


@model("std::string::String::pop")
def _spop(call):
    s = call.val(0)
    cs = chars_of(s)
    if cs is None and s.op == "cat" and s.a[0][-1].op == "str":
        t = s.a[0][-1].a[0]
        call.setp(call.args[0], cat(list(s.a[0][:-1]) + [S(t[:-1])]))
        return call.ret(some(I(ord(t[-1]))))
    if cs is None:
        return None
    if not cs:
        return call.ret(NONE)
    call.setp(call.args[0], text(call.st, cs[:-1]))
    return call.ret(some(cs[-1]))


@model("std::string::String::remove")
def _sremove(call):
    s, i = call.val(0), call.val(1)
    cs = chars_of(s)
    if cs is None or i.op != "int" or not (s.op == "bstr" or s.a[0].isascii()):
        return None
    if i.a[0] >= len(cs):
        call.panic(call.st, "String::remove")
        return []
    call.setp(call.args[0], text(call.st, cs[:i.a[0]] + cs[i.a[0] + 1:]))
    return call.ret(cs[i.a[0]])


@model("std::string::String::truncate", "std::string::String::split_off")
def _strunc(call):
    s, i = call.val(0), call.val(1)
    cs = chars_of(s)
    if cs is None or i.op != "int" or not (s.op == "bstr" or s.a[0].isascii()):
        return None
    off = call.path.endswith("off")
    if off and i.a[0] > len(cs):
        call.panic(call.st, "String::split_off")
        return []
    call.setp(call.args[0], text(call.st, cs[:i.a[0]]))
    return call.ret(text(call.st, cs[i.a[0]:]) if off else UNIT)


@model("std::string::String::retain")
def _sretain(call):
    cs = chars_of(call.val(0))
    if cs is None:
        return None
    work, out = [(call.st, 0, ())], []
    while work:
        st, i, acc = work.pop()
        if i == len(cs):
            call.setp(call.args[0], text(st, list(acc)), st)
            out.append((st, UNIT))
            continue
        for s2, v in call.e.call_value(st, call.fr, call.args[1], [cs[i]], call.blk):
            for s3, r in call.e.branch(s2, call.e.deref(s2, v)):
                work.append((s3, i + 1, acc + ((cs[i],) if r else ())))
    return out


@model("std::string::String::drain")
def _sdrain(call):
    s = call.val(0)
    r = call.val(1)
    if s.op != "str" or r.op != "adt":
        return None
    x = srange(call, s, r)
    if x is None:
        return None
    b = s.a[0].encode()
    try:
        mid = b[x[0]:x[1]].decode()
        call.setp(call.args[0], S((b[:x[0]] + b[x[1]:]).decode()))
    except UnicodeDecodeError:
        return None
    return call.ret(itof([I(ord(c)) for c in mid]))


@model("std::string::String::as_mut_str", "std::string::String::as_mut_string")
def _sams(call):
    return call.ret(call.args[0])


@model("std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::from_str")
def _afsn(call):
    return call.ret(mk("fargs", call.val(0)))


@model("std::fmt::Arguments::as_str")
def _aas(call):
    v = call.val(0)
    if v.op == "fargs" and v.a[0].op == "str":
        return call.ret(some(v.a[0]))
    return None


# ------------------------------------------------------------------ characters
for _nm, _ev in (("is_ascii_hexdigit", lambda c: c in "0123456789abcdefABCDEF"), ("is_lowercase", str.islower), ("is_uppercase", str.isupper),
                 ("is_control", lambda c: ord(c) < 32 or 127 <= ord(c) < 160), ("is_ascii_control", lambda c: ord(c) < 32 or ord(c) == 127),
                 ("is_ascii_graphic", lambda c: 33 <= ord(c) <= 126), ("is_ascii_punctuation", lambda c: 33 <= ord(c) <= 126 and not c.isalnum())):
    import absint as _absint

    def _chp(call, nm=_nm, ev=_ev):
        v = call.val(0)
        if v.op == "int":
            return call.ret(B(bool(ev(chr(v.a[0])))))
        return call.ret(mk("chp", nm, v))
    for _p in ("std::char::methods::", "core::num::", "core::char::methods::"):
        MODELS[_p + _nm] = _chp
    _absint.CHP2[_nm] = _ev


def chm(*names):
    def d(f):
        for n in names:
            for p in ("std::char::methods::", "core::num::", "core::char::methods::"):
                MODELS[p + n] = f
        return f
    return d


@chm("to_ascii_lowercase", "to_ascii_uppercase")
def _cac(call):
    v = call.val(0)
    if v.op == "int":
        return call.ret(I(ord(asciis(chr(v.a[0]), "upper" in call.path))))
    return call.ret(mk("chcase", "upper" if "upper" in call.path else "lower", v))


@chm("to_lowercase", "to_uppercase")
def _cuc(call):
    v = call.val(0)
    if v.op == "int":
        t = chr(v.a[0])
        return call.ret(itof([I(ord(c)) for c in (t.upper() if "upper" in call.path else t.lower())]))
    return None


@chm("is_digit", "to_digit")
def _cdig(call):
    v, r = call.val(0), call.val(1)
    if v.op == "int" and r.op == "int":
        try:
            d = int(chr(v.a[0]), r.a[0]) if chr(v.a[0]).isascii() and chr(v.a[0]).isalnum() else None
        except ValueError:
            d = None
        if "is_digit" in call.path:
            return call.ret(B(d is not None))
        return call.ret(NONE if d is None else some(I(d)))
    if r.op == "int" and r.a[0] == 10:
        if "is_digit" in call.path:
            return call.ret(mk("chp", "is_ascii_digit", v))
        return [(st, some(sub(v, I(48))) if k else NONE) for st, k in call.e.branch(call.st, mk("chp", "is_ascii_digit", v))]
    return None


@chm("len_utf8")
def _clen(call):
    v = call.val(0)
    return call.ret(I(width(v))) if v.op == "int" else None


@chm("from_u32", "from_digit")
def _cfrom(call):
    v = call.val(0)
    if v.op != "int":
        return None
    if "digit" in call.path:
        r = call.val(1)
        if r.op != "int":
            return None
        return call.ret(some(I(ord("0123456789abcdefghijklmnopqrstuvwxyz"[v.a[0]]))) if v.a[0] < r.a[0] else NONE)
    return call.ret(some(v) if v.a[0] < 0x110000 and not 0xd800 <= v.a[0] < 0xe000 else NONE)


MODELS["std::char::from_u32"] = MODELS["core::char::convert::from_u32"] = MODELS["std::char::methods::from_u32"]
MODELS["std::char::from_digit"] = MODELS["core::char::convert::from_digit"] = MODELS["std::char::methods::from_digit"]


# ------------------------------------------------------------------ numbers
BITS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, (1 << 32) - 1), "u64": (0, (1 << 64) - 1), "usize": (0, (1 << 64) - 1),
        "u128": (0, (1 << 128) - 1), "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-(1 << 31), (1 << 31) - 1),
        "i64": (-(1 << 63), (1 << 63) - 1), "isize": (-(1 << 63), (1 << 63) - 1), "i128": (-(1 << 127), (1 << 127) - 1)}


def self_ty(call):
    """the type of the first argument"""
    c = call.c
    m = re.search(r"<impl (\w+)>", c.get("path", "") or "")
    if m and m.group(1) in BITS:
        return m.group(1)
    t = call.e.arg_type(call, 0)
    return t if t in BITS else None


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def trem(a, b):
    return a - b * tdiv(a, b)


ARITH = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: tdiv(a, b) if b else None,
         "rem": lambda a, b: trem(a, b) if b else None, "pow": lambda a, b: a ** b if b < 4096 else None,
         "shl": lambda a, b: a << b if b < 128 else None, "shr": lambda a, b: a >> b, "div_euclid": lambda a, b: (a - a % abs(b)) // b if b else None,
         "rem_euclid": lambda a, b: a % abs(b) if b else None}


def wrapped(v, t):
    lo, hi = BITS[t]
    return (v - lo) % (hi - lo + 1) + lo


def nummodel(name, f):
    for p in ("core::num::", "std::num::"):
        MODELS[p + name] = f


def _arith(kind, op):
    def f(call):
        t = self_ty(call)
        a, b = call.val(0), call.val(1)
        if t is None:
            return None
        lo, hi = BITS[t]
        if a.op == "int" and b.op == "int":
            v = ARITH[op](a.a[0], b.a[0])
            good = v is not None and lo <= v <= hi
            if kind == "checked":
                return call.ret(some(I(v)) if good else NONE)
            if v is None:
                call.panic(call.st, "division by zero")
                return []
            if kind == "wrapping":
                return call.ret(I(wrapped(v, t)))
            if kind == "overflowing":
                return call.ret(tup(I(wrapped(v, t)), B(not good)))
            if kind == "saturating":
                return call.ret(I(max(lo, min(hi, v))))
            if not good:
                call.panic(call.st, "attempt to " + op + " with overflow")
                return []
            return call.ret(I(v))
        if op == "sub" and lo == 0 and kind in ("checked", "saturating"):
            return [(st, (sub(a, b) if kind == "saturating" else some(sub(a, b))) if r else (I(0) if kind == "saturating" else NONE))
                    for st, r in call.e.branch(call.st, le(b, a))]
        if op in ("add", "sub") and kind in ("wrapping", "saturating", "checked", "plain") and (op == "add" or lo < 0 or kind != "wrapping"):
            v = add(a, b) if op == "add" else sub(a, b)
            return call.ret(some(v) if kind == "checked" else v)
        return None
    return f


for _op in ARITH:
    for _k in ("checked", "wrapping", "overflowing", "saturating"):
        nummodel(_k + "_" + _op, _arith(_k, _op))
    if _op in ("pow", "div_euclid", "rem_euclid"):
        nummodel(_op, _arith("plain", _op))


def num1(name):
    def d(f):
        def g(call):
            xs = [call.val(i) for i in range(len(call.args))]
            if all(x.op in ("int", "flt") for x in xs):
                r = f(call, *[x.a[0] for x in xs])
                if r is not None:
                    return call.ret(r if isinstance(r, T) else B(r) if isinstance(r, bool) else I(r))
            return None
        for n in name.split():
            nummodel(n, g)
        return f
    return d


num1("abs unsigned_abs")(lambda c, a: abs(a))
num1("abs_diff")(lambda c, a, b: abs(a - b))
num1("signum")(lambda c, a: (a > 0) - (a < 0))
num1("is_positive")(lambda c, a: a > 0)
num1("is_negative")(lambda c, a: a < 0)
num1("is_power_of_two")(lambda c, a: a > 0 and a & (a - 1) == 0)
num1("div_ceil")(lambda c, a, b: -(-a // b) if b else None)
num1("next_multiple_of")(lambda c, a, b: -(-a // b) * b if b else None)
num1("count_ones")(lambda c, a: bin(a).count("1") if a >= 0 else None)
num1("trailing_zeros")(lambda c, a: (a & -a).bit_length() - 1 if a else None)
num1("is_multiple_of")(lambda c, a, b: a % b == 0 if b else a == 0)


def F(x):
    return mk("flt", float(x))


def flt1(names):
    def d(f):
        def g(call):
            xs = [call.val(i) for i in range(len(call.args))]
            if all(x.op == "flt" for x in xs):
                try:
                    r = f(*[x.a[0] for x in xs])
                except (ValueError, OverflowError, ZeroDivisionError):
                    return None
                return call.ret(B(r) if isinstance(r, bool) else F(r))
            return None
        for n in names.split():
            for p in ("core::num::", "std::num::", "std::f64::", "std::f32::", "core::f64::", "core::f32::"):
                if p in ("core::num::", "std::num::") and p + n in MODELS:
                    old = MODELS[p + n]
                    MODELS[p + n] = lambda call, o=old, g=g: g(call) if call.val(0).op == "flt" else o(call)
                else:
                    MODELS[p + n] = g
        return f
    return d


flt1("floor")(math.floor)
flt1("ceil")(math.ceil)
flt1("trunc")(math.trunc)
flt1("fract")(lambda x: math.fmod(x, 1.0))
flt1("sqrt")(math.sqrt)
flt1("abs")(abs)
flt1("is_nan")(lambda x: x != x)
flt1("is_finite")(math.isfinite)
flt1("is_infinite")(math.isinf)
flt1("max")(max)
flt1("min")(min)


def show_float(x):
    if x == int(x) and abs(x) < 1e16:
        return str(int(x))
    return repr(x)


@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _tryfrom(call):
    b = call.e.dispatch_local(call)
    if b is not None:
        return call.e.call_body(call.st, b, call.args, call.fr.depth + 1)
    a, _ = call.ty(0)
    c, _ = call.ty(1)
    to, frm = (a, c) if "TryFrom" in call.path else (c, a)
    x = call.val(0)
    if to is None or to.get("s") not in BITS:
        return None
    lo, hi = BITS[to["s"]]
    if x.op == "int":
        return call.ret(ok(x) if lo <= x.a[0] <= hi else err(mk("zst", "std::num::TryFromIntError")))
    if frm is not None and frm.get("s") in BITS and BITS[frm["s"]][0] >= lo and BITS[frm["s"]][1] <= hi:
        return call.ret(ok(x))
    if frm is not None and frm.get("s") in ("u32", "usize", "u64") and to["s"] in ("i64", "u64", "usize", "u32", "isize"):
        # sizes and line numbers of files stay far below these bounds
        return call.ret(ok(x))
    return [(st, ok(x) if r else err(mk("zst", "std::num::TryFromIntError")))
            for st, r in call.e.branch(call.st, conj(le(I(lo), x), le(x, I(hi))))]


@model("std::ops::Neg::neg")
def _neg(call):
    b = call.e.dispatch_local(call)
    if b is not None:
        return call.e.call_body(call.st, b, call.args, call.fr.depth + 1)
    v = call.val(0)
    return call.ret(F(-v.a[0]) if v.op == "flt" else sub(I(0), v))


@model("std::ops::Not::not")
def _notop(call):
    b = call.e.dispatch_local(call)
    if b is not None:
        return call.e.call_body(call.st, b, call.args, call.fr.depth + 1)
    v = call.val(0)
    ty, prog = call.ty(0)
    if ty is not None and peel(ty, prog)["k"] == "bool":
        return call.ret(neg(v))
    return None


def opmodel(path, binop):
    def f(call):
        b = call.e.dispatch_local(call)
        if b is not None:
            return call.e.call_body(call.st, b, call.args, call.fr.depth + 1)
        ty, prog = call.ty(0)
        t = peel(ty, prog) if ty is not None else None
        a, c = call.val(0), call.val(1)
        if t is not None and t["k"] == "adt":
            n = t["path"].split("::")[-1]
            if n == "String" and binop == "Add":
                return call.ret(cat([a, c]))
            if n in ("HashSet", "BTreeSet"):
                m = {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference", "BitXor": "symmetric_difference"}.get(binop)
                if m is None:
                    return None
                old = call.path
                call.path = "std::collections::%s::%s" % (n, m)
                r = MODELS[call.path](call)
                call.path = old
                return None if r is None else [(st, coll("set", x.a[0])) for st, x in r]
            return None
        return call.ret(call.e.binop(call.st, binop, a, c, t.get("s") if t is not None else None))
    MODELS[path] = f


for _p, _b in (("Add::add", "Add"), ("Sub::sub", "Sub"), ("Mul::mul", "Mul"), ("Div::div", "Div"), ("Rem::rem", "Rem"), ("BitAnd::bitand", "BitAnd"),
               ("BitOr::bitor", "BitOr"), ("BitXor::bitxor", "BitXor"), ("Shl::shl", "Shl"), ("Shr::shr", "Shr")):
    opmodel("std::ops::" + _p, _b)


def opassign(path, binop):
    def f(call):
        b = call.e.dispatch_local(call)
        if b is not None:
            return call.e.call_body(call.st, b, call.args, call.fr.depth + 1)
        ty, prog = call.ty(0)
        t = peel(ty, prog) if ty is not None else None
        a, c = call.val(0), call.val(1)
        if t is not None and t["k"] == "adt":
            if t["path"].endswith("::String"):
                call.setp(call.args[0], cat([a, c]))
                return call.ret(UNIT)
            return None
        call.setp(call.args[0], call.e.binop(call.st, binop, a, c, t.get("s") if t is not None else None))
        return call.ret(UNIT)
    MODELS[path] = f


for _p, _b in (("AddAssign::add_assign", "Add"), ("SubAssign::sub_assign", "Sub"), ("MulAssign::mul_assign", "Mul"), ("DivAssign::div_assign", "Div"),
               ("RemAssign::rem_assign", "Rem"), ("BitAndAssign::bitand_assign", "BitAnd"), ("BitOrAssign::bitor_assign", "BitOr"),
               ("BitXorAssign::bitxor_assign", "BitXor")):
    opassign("std::ops::" + _p, _b)


# ------------------------------------------------------------------ order
def known_lt(e, st, a, b):
    """does a < b follow from the order that was decided so far?"""
    seen, work = {a}, [a]
    while work:
        x = work.pop()
        for f, v in st.facts.items():
            if f.op != "lt":
                continue
            p, q = f.a if v else (f.a[1], f.a[0])
            if p is x and q not in seen:
                if q is b:
                    return True
                seen.add(q)
                work.append(q)
    return False


def tri(call, st, a, b):
    """[(state, -1, 0 or 1)]; None if the order of such values is not known"""
    e = call.e
    a, b = e.deref(st, a), e.deref(st, b)
    if a is b:
        return [(st, 0)]
    if a.op == b.op and a.op in ("str", "int", "bool", "flt"):
        x, y = a.a[0], b.a[0]
        if a.op == "str":
            x, y = x.encode("utf8", "surrogateescape"), y.encode("utf8", "surrogateescape")
        return [(st, (x > y) - (x < y))]
    for t in (OPT, RES):
        if (a.op == "adt" and a.a[0] == t) or (b.op == "adt" and b.a[0] == t):
            out = []
            order = ("None", "Some") if t == OPT else ("Ok", "Err")
            for s1, va in e.variant(st, a, t):
                for s2, vb in e.variant(s1, b, t):
                    if va != vb:
                        out.append((s2, -1 if order.index(va) < order.index(vb) else 1))
                    elif va == "None":
                        out.append((s2, 0))
                    else:
                        r = tri(call, s2, proj(a, va, 0, "0"), proj(b, va, 0, "0"))
                        if r is None:
                            return None
                        out += r
            return out
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[0] == "std::cmp::Reverse":
            r = tri(call, st, b.a[2][0], a.a[2][0])
            return r
        bs = [x for n in (("std::cmp::Ord", "cmp"), ("std::cmp::PartialOrd", "partial_cmp")) for x in e.trait_impls.get(n, [])
              if x.prog.peel(x.impl).get("path") == a.a[0]]
        own = [x for x in bs if not x.derived]
        if own:
            out = []
            for s, v in e.call_body(st, own[0], [a, b], call.fr.depth + 1):
                v = e.deref(s, v)
                if v.op == "adt" and v.a[5] == "Some":
                    v = v.a[2][0]
                if v.op != "adt" or v.a[5] not in ("Less", "Equal", "Greater"):
                    return None
                out.append((s, ("Less", "Equal", "Greater").index(v.a[5]) - 1))
            return out
        if a.a[1] != b.a[1]:
            return [(st, -1 if a.a[1] < b.a[1] else 1)]
        return tris(call, st, a.a[2], b.a[2])
    if a.op == "tup" and b.op == "tup":
        return tris(call, st, a.a[0], b.a[0])
    if explicit(a) and explicit(b) and a.a[0] == "vec":
        return tris(call, st, els(a), els(b))
    if a.op in ("coll", "gmap", "slice", "ext", "fresh", "uninit", "const") or b.op in ("coll", "gmap", "slice", "ext", "fresh", "uninit", "const"):
        return None
    from absint import int_sorted
    out = []
    for s1, r in e.branch(st, eq(a, b)):
        if r:
            out.append((s1, 0))
            continue
        if int_sorted(a) or int_sorted(b) or a.op == "byte" or b.op == "byte":
            for s2, r2 in e.branch(s1, lt(a, b)):
                out.append((s2, -1 if r2 else 1))
        elif known_lt(e, s1, a, b):
            out.append((s1, -1))
        elif known_lt(e, s1, b, a):
            out.append((s1, 1))
        else:
            x, y = (a, b) if a.n < b.n else (b, a)
            for s2, r2 in e.branch(s1, mk("lt", x, y)):
                out.append((s2, -1 if r2 == (x is a) else 1))
    return out


def tris(call, st, xs, ys):
    work, out = [(st, 0)], []
    while work:
        s, i = work.pop()
        if i >= len(xs) or i >= len(ys):
            out.append((s, (len(xs) > len(ys)) - (len(xs) < len(ys))))
            continue
        r = tri(call, s, xs[i], ys[i])
        if r is None:
            return None
        for s2, k in r:
            if k:
                out.append((s2, k))
            else:
                work.append((s2, i + 1))
    return out


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _ord2(call):
    n = call.path.split("::")[-1]
    r = models._ord(call)
    if r is not None and call.val(0).op not in ("flt", "str"):
        return r
    r = tri(call, call.st, call.args[0], call.args[1])
    if r is None:
        return None
    return [(st, B({"lt": k < 0, "le": k <= 0, "gt": k > 0, "ge": k >= 0}[n])) for st, k in r]


@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def _cmp2(call):
    b = call.e.dispatch_local(call)
    if b is not None and not b.derived:
        return call.e.call_body(call.st, b, call.args, call.fr.depth + 1)
    r = tri(call, call.st, call.args[0], call.args[1])
    if r is None:
        return None
    p = "partial" in call.path
    return [(st, some((LESS, EQUAL, GREATER)[k + 1]) if p else (LESS, EQUAL, GREATER)[k + 1]) for st, k in r]


@model("std::cmp::min", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::Ord::max")
def _minmax2(call):
    r = tri(call, call.st, call.args[0], call.args[1])
    if r is None:
        return models._minmax(call)
    mn = call.path.endswith("min")
    a, b = call.args[0], call.args[1]
    return [(st, (a if k <= 0 else b) if mn else (a if k > 0 else b)) for st, k in r]


@model("std::cmp::Ord::clamp")
def _clamp(call):
    x, lo, hi = call.args
    out = []
    for st, k in tri(call, call.st, x, lo) or []:
        if k < 0:
            out.append((st, lo))
            continue
        for s2, k2 in tri(call, st, x, hi):
            out.append((s2, hi if k2 > 0 else x))
    return out or None


ORDP = "std::cmp::Ordering::"
for _n, _f in (("is_lt", lambda k: k < 0), ("is_le", lambda k: k <= 0), ("is_gt", lambda k: k > 0), ("is_ge", lambda k: k >= 0),
               ("is_eq", lambda k: k == 0), ("is_ne", lambda k: k != 0)):
    def _om(call, f=_f):
        return [(st, B(f(("Less", "Equal", "Greater").index(n) - 1))) for st, n in call.e.variant(call.st, call.args[0], ORD)]
    MODELS[ORDP + _n] = _om


@model(ORDP + "reverse")
def _orev(call):
    return [(st, {"Less": GREATER, "Equal": EQUAL, "Greater": LESS}[n]) for st, n in call.e.variant(call.st, call.args[0], ORD)]


@model(ORDP + "then")
def _othen(call):
    return [(st, call.args[1] if n == "Equal" else {"Less": LESS, "Greater": GREATER}[n]) for st, n in call.e.variant(call.st, call.args[0], ORD)]


@model(ORDP + "then_with")
def _otw(call):
    out = []
    for st, n in call.e.variant(call.st, call.args[0], ORD):
        if n == "Equal":
            out += call.e.call_value(st, call.fr, call.args[1], [], call.blk)
        else:
            out.append((st, LESS if n == "Less" else GREATER))
    return out


def sort_states(call, st, xs, cmp):
    """stable insertion sort: [(state, sorted)]; cmp(state, x, y) -> [(state, -1/0/1)] or None"""
    outs = [(st, [])]
    for x in xs:
        nxt = []
        for s, done in outs:
            work = [(s, len(done))]
            while work:
                s2, i = work.pop()
                if i == 0:
                    nxt.append((s2, [x] + done))
                    continue
                r = cmp(s2, done[i - 1], x)
                if r is None:
                    return None
                for s3, k in r:
                    if k > 0:
                        work.append((s3, i - 1))
                    else:
                        nxt.append((s3, done[:i] + [x] + done[i:]))
        outs = nxt
        if len(outs) > 64:
            return None
    return outs


def ordering_of(call, st, v):
    """[(state, -1/0/1)] of an Ordering value"""
    v = call.e.deref(st, v)
    return [(s, ("Less", "Equal", "Greater").index(n) - 1) for s, n in call.e.variant(st, v, ORD)]


def _sorted(call, xs, cmp):
    v = call.val(0)
    r = sort_states(call, call.st, xs, cmp)
    if r is None:
        call.st.add_taint("order of sorted values")
        call.setp(call.args[0], mk("sorted", v))
        return call.ret(UNIT)
    for st, ys in r:
        call.setp(call.args[0], vec(ys), st)
    return [(st, UNIT) for st, _ in r]


@model("std::slice::sort", "core::slice::sort_unstable", "core::slice::sort")
def _sort2(call):
    v = call.val(0)
    if not explicit(v) or len(v.a[1]) > 40:
        return models._sort(call)
    return _sorted(call, els(v), lambda st, a, b: tri(call, st, a, b))


@model("std::slice::sort_by_key", "core::slice::sort_unstable_by_key", "std::slice::sort_by_cached_key", "core::slice::sort_by_key", "core::slice::sort_by_cached_key")
def _sort_by_key(call):
    v = call.val(0)
    if not explicit(v) or len(v.a[1]) > 40:
        return models._sort_by(call)
    outs = [(call.st, [])]
    for x in els(v):
        nxt = []
        for st, ks in outs:
            for s2, k in call.e.call_value(st, call.fr, call.args[1], [x], call.blk):
                nxt.append((s2, ks + [tup(call.e.deref(s2, k), x)]))
        outs = nxt
    res = []
    for st, ks in outs:
        r = sort_states(call, st, ks, lambda s, a, b: tri(call, s, a.a[0][0], b.a[0][0]))
        if r is None:
            st.add_taint("order of sorted values")
            call.setp(call.args[0], mk("sorted", v), st)
            res.append((st, UNIT))
            continue
        for s2, ys in r:
            call.setp(call.args[0], vec([y.a[0][1] for y in ys]), s2)
            res.append((s2, UNIT))
    return res


@model("std::slice::sort_by", "core::slice::sort_unstable_by", "core::slice::sort_by")
def _sort_by2(call):
    v = call.val(0)
    if not explicit(v) or len(v.a[1]) > 40:
        return models._sort_by(call)

    def cmp(st, a, b):
        out = []
        for s, r in call.e.call_value(st, call.fr, call.args[1], [a, b], call.blk):
            out += ordering_of(call, s, r)
        return out
    return _sorted(call, els(v), cmp)


def ext_pick(call, xs_states, cmp, best):
    """fold: keep the later one when cmp says so"""
    out = []
    for st, xs in xs_states:
        if not xs:
            out.append((st, NONE))
            continue
        work = [(st, 1, xs[0])]
        while work:
            s, i, m = work.pop()
            if i == len(xs):
                out.append((s, some(m)))
                continue
            r = cmp(s, m, xs[i])
            if r is None:
                return None
            for s2, k in r:
                work.append((s2, i + 1, xs[i] if best(k) else m))
    return out


@model("std::iter::Iterator::min", "std::iter::Iterator::max")
def _imm(call):
    xs = collected(call, call.st, call.args[0])
    if xs is None:
        return None
    mx = call.path.endswith("max")
    return ext_pick(call, xs, lambda s, a, b: tri(call, s, a, b), (lambda k: k <= 0) if mx else (lambda k: k > 0))


@model("std::iter::Iterator::min_by", "std::iter::Iterator::max_by")
def _immb(call):
    xs = collected(call, call.st, call.args[0])
    if xs is None:
        return None
    mx = call.path.endswith("max_by")

    def cmp(st, a, b):
        out = []
        for s, r in call.e.call_value(st, call.fr, call.args[1], [a, b], call.blk):
            out += ordering_of(call, s, r)
        return out
    return ext_pick(call, xs, cmp, (lambda k: k <= 0) if mx else (lambda k: k > 0))


@model("std::iter::Iterator::min_by_key", "std::iter::Iterator::max_by_key")
def _immk(call):
    xs = collected(call, call.st, call.args[0])
    if xs is None:
        return None
    mx = call.path.endswith("max_by_key")
    ks = []
    for st, ys in xs:
        outs = [(st, [])]
        for y in ys:
            outs = [(s2, acc + [tup(call.e.deref(s2, k), y)]) for s, acc in outs for s2, k in call.e.call_value(s, call.fr, call.args[1], [y], call.blk)]
        ks += outs
    r = ext_pick(call, ks, lambda s, a, b: tri(call, s, a.a[0][0], b.a[0][0]), (lambda k: k <= 0) if mx else (lambda k: k > 0))
    return None if r is None else [(st, some(v.a[2][0].a[0][1]) if v.a[5] == "Some" else v) for st, v in r]


@model("std::iter::Iterator::sum", "std::iter::Iterator::product")
def _isum(call):
    outs = collect_parts(call, call.st, call.args[0])
    mul = call.path.endswith("product")
    res = []
    for st, ps in outs:
        if any(k != "e" for k, _ in ps):
            return None
        acc, wrap = None, None
        for _, x in ps:
            x = call.e.deref(st, x)
            if x.op == "adt" and x.a[0] in (OPT, RES):
                wrap = x.a[0]
                if x.a[5] in ("None", "Err"):
                    acc = x
                    break
                x = x.a[2][0]
            if acc is None:
                acc = x
            else:
                acc = call.e.binop(st, "Mul" if mul else "Add", acc, x)
        if acc is None:
            ty, prog = call.ty(1)
            t = ty.get("s") if ty is not None else "usize"
            if t in ("f32", "f64"):
                acc = F(1.0 if mul else 0.0)
            elif t in BITS:
                acc = I(1 if mul else 0)
            else:
                return None
        elif wrap and not (acc.op == "adt" and acc.a[0] == wrap):
            acc = some(acc) if wrap == OPT else ok(acc)
        res.append((st, acc))
    return res


@model("std::iter::Iterator::eq", "std::iter::Iterator::ne")
def _ieq(call):
    a = collect_parts(call, call.st, call.args[0])
    out = []
    for st, ps in a:
        for s2, qs in collect_parts(call, st, call.args[1]):
            x, y = coll("vec", ps), coll("vec", qs)
            for s3, r in eq_vals(call, s2, x, y, None):
                out.append((s3, r if call.path.endswith("eq") else neg(r)))
    return out


@model("std::iter::Iterator::lt", "std::iter::Iterator::le", "std::iter::Iterator::gt", "std::iter::Iterator::ge", "std::iter::Iterator::cmp", "std::iter::Iterator::partial_cmp")
def _icmp(call):
    n = call.path.split("::")[-1]
    a = collected(call, call.st, call.args[0])
    if a is None:
        return None
    out = []
    for st, xs in a:
        b = collected(call, st, call.args[1])
        if b is None:
            return None
        for s2, ys in b:
            r = tris(call, s2, xs, ys)
            if r is None:
                return None
            for s3, k in r:
                o = (LESS, EQUAL, GREATER)[k + 1]
                out.append((s3, o if n == "cmp" else some(o) if n == "partial_cmp" else B({"lt": k < 0, "le": k <= 0, "gt": k > 0, "ge": k >= 0}[n])))
    return out


def chain_test(call, st, xs, test):
    """[(state, do all neighbours pass?)]"""
    work, out = [(st, 0)], []
    while work:
        s, i = work.pop()
        if i + 1 >= len(xs):
            out.append((s, TRUE))
            continue
        r = test(s, xs[i], xs[i + 1])
        if r is None:
            return None
        for s2, k in r:
            if k:
                work.append((s2, i + 1))
            else:
                out.append((s2, FALSE))
    return out


@model("std::iter::Iterator::is_sorted", "core::slice::is_sorted", "std::iter::Iterator::is_sorted_by_key", "core::slice::is_sorted_by_key")
def _issorted(call):
    xs = collected(call, call.st, call.args[0])
    if xs is None:
        return None
    out = []
    for st, ys in xs:
        outs = [(st, ys)]
        if call.path.endswith("key"):
            outs = [(st, [])]
            for y in ys:
                outs = [(s2, acc + [k]) for s, acc in outs for s2, k in call.e.call_value(s, call.fr, call.args[1], [y], call.blk)]
        for s, ks in outs:
            def test(s2, a, b):
                r = tri(call, s2, a, b)
                return None if r is None else [(s3, k <= 0) for s3, k in r]
            r = chain_test(call, s, ks, test)
            if r is None:
                return None
            out += r
    return out


# ------------------------------------------------------------------ sequences
def panics(call, what):
    call.panic(call.st, what)
    return []


@model("std::vec::Vec::remove", "std::collections::VecDeque::remove")
def _vremove(call):
    v, i = call.val(0), call.val(1)
    ps = list(parts_of(v))
    dq = "Deque" in call.path
    if i.op != "int" or any(k != "e" for k, _ in ps[:i.a[0] + 1]):
        return None
    if i.a[0] >= len(ps):
        return call.ret(NONE) if dq else panics(call, "Vec::remove")
    x = ps.pop(i.a[0])[1]
    call.setp(call.args[0], coll("vec", ps))
    return call.ret(some(x) if dq else x)


@model("std::vec::Vec::swap_remove")
def _vswapr(call):
    v, i = call.val(0), call.val(1)
    if i.op != "int" or not explicit(v):
        return None
    xs = els(v)
    if i.a[0] >= len(xs):
        return panics(call, "Vec::swap_remove")
    x = xs[i.a[0]]
    xs[i.a[0]] = xs[-1]
    xs.pop()
    call.setp(call.args[0], vec(xs))
    return call.ret(x)


@model("core::slice::swap", "std::vec::Vec::swap", "std::collections::VecDeque::swap")
def _vswap(call):
    v, i, j = call.val(0), call.val(1), call.val(2)
    if i.op != "int" or j.op != "int" or not explicit(v):
        return None
    xs = els(v)
    if max(i.a[0], j.a[0]) >= len(xs):
        return panics(call, "slice::swap")
    xs[i.a[0]], xs[j.a[0]] = xs[j.a[0]], xs[i.a[0]]
    call.setp(call.args[0], vec(xs))
    return call.ret(UNIT)


@model("std::vec::Vec::dedup", "std::vec::Vec::dedup_by_key", "std::vec::Vec::dedup_by")
def _dedup(call):
    v = call.val(0)
    if not explicit(v):
        return None
    n = call.path.split("::")[-1]
    outs = [(call.st, [], None)]
    for x in els(v):
        nxt = []
        for st, acc, lastk in outs:
            if n == "dedup_by_key":
                ks = call.e.call_value(st, call.fr, call.args[1], [x], call.blk)
            else:
                ks = [(st, x)]
            for s2, k in ks:
                if not acc:
                    nxt.append((s2, [x], k))
                    continue
                if n == "dedup_by":
                    rs = [(s4, r) for s3, q in call.e.call_value(s2, call.fr, call.args[1], [x, acc[-1]], call.blk) for s4, r in call.e.branch(s3, call.e.deref(s3, q))]
                else:
                    rs = [(s4, r) for s3, q in eq_vals(call, s2, lastk, k, None) for s4, r in call.e.branch(s3, q)]
                for s3, same in rs:
                    nxt.append((s3, acc, lastk) if same else (s3, acc + [x], k))
        outs = nxt
    for st, acc, _ in outs:
        call.setp(call.args[0], vec(acc), st)
    return [(st, UNIT) for st, _, _ in outs]


@model("std::vec::Vec::split_off", "std::collections::VecDeque::split_off")
def _voff(call):
    v, i = call.val(0), call.val(1)
    ps = list(parts_of(v))
    if i.op != "int" or any(k != "e" for k, _ in ps[:i.a[0]]):
        return None
    if i.a[0] > len(ps):
        return panics(call, "Vec::split_off")
    call.setp(call.args[0], coll("vec", ps[:i.a[0]]))
    return call.ret(coll("vec", ps[i.a[0]:]))


@model("core::slice::split_first", "core::slice::split_last")
def _sfirst(call):
    v = call.val(0)
    first = call.path.endswith("first")
    ps = parts_of(v)
    if v.op == "coll" and not ps:
        return call.ret(NONE)
    if v.op == "coll" and ps[0 if first else -1][0] == "e":
        return call.ret(some(tup(ps[0][1], coll("vec", ps[1:])) if first else tup(ps[-1][1], coll("vec", ps[:-1]))))
    n = length(v)
    return [(st, NONE if r else some(tup(elem(v, I(0)), slice_(v, I(1), n)) if first else tup(elem(v, add(n, I(-1))), slice_(v, I(0), add(n, I(-1))))))
            for st, r in call.e.branch(call.st, eq(n, I(0)))]


@model("core::slice::split_at", "core::slice::split_at_checked")
def _sat(call):
    v, i = call.val(0), call.val(1)
    if i.op != "int" or not explicit(v):
        return None
    xs = els(v)
    if i.a[0] > len(xs):
        return call.ret(NONE) if "checked" in call.path else panics(call, "slice::split_at")
    r = tup(vec(xs[:i.a[0]]), vec(xs[i.a[0]:]))
    return call.ret(some(r) if "checked" in call.path else r)


@model("std::vec::Vec::resize")
def _vresize(call):
    v, n, x = call.val(0), call.val(1), call.args[2]
    if n.op != "int" or not explicit(v):
        return None
    xs = els(v)
    call.setp(call.args[0], vec((xs + [x] * n.a[0])[:n.a[0]]))
    return call.ret(UNIT)


@model("std::vec::from_elem")
def _velem(call):
    x, n = call.args[0], call.val(1)
    if n.op != "int" or n.a[0] > 4096:
        return None
    return call.ret(vec([x] * n.a[0]))


@model("std::vec::Vec::drain", "std::collections::VecDeque::drain", "std::collections::HashMap::drain", "std::collections::HashSet::drain")
def _drain2(call):
    v = call.val(0)
    if len(call.args) > 1:
        r = call.val(1)
        if r.op != "adt":
            return None
        if not r.a[0].endswith("RangeFull"):
            lo, hi = models.range_of(r, v)
            if lo is None or lo.op != "int" or hi.op != "int" or not explicit(v):
                return None
            xs = els(v)
            if not lo.a[0] <= hi.a[0] <= len(xs):
                return panics(call, "Vec::drain")
            call.setp(call.args[0], vec(xs[:lo.a[0]] + xs[hi.a[0]:]))
            return call.ret(itof(xs[lo.a[0]:hi.a[0]]))
    call.setp(call.args[0], coll(kind_of(v), ()))
    return call.ret(mk("it", tuple(parts_of(models.in_order(call, v)))))


@model("core::slice::first_mut", "core::slice::last_mut", "std::collections::VecDeque::front_mut", "std::collections::VecDeque::back_mut")
def _firstm(call):
    p, v = call.args[0], call.val(0)
    if p.op != "ptr":
        return None
    q = p
    while True:
        y = call.e.load(call.st, q.a[0], tuple(q.a[1]))
        if y.op != "ptr":
            break
        q = y
    back = call.path.endswith("last_mut") or call.path.endswith("back_mut")
    n = length(v)
    i = add(n, I(-1)) if back else I(0)
    return [(st, NONE if r else some(mk("ptr", q.a[0], tuple(q.a[1]) + (("i", i),)))) for st, r in call.e.branch(call.st, eq(n, I(0)))]


@model("core::slice::starts_with", "core::slice::ends_with")
def _slsw(call):
    a, b = call.val(0), call.val(1)
    if not explicit(a) or not explicit(b):
        return None
    x, y = els(a), els(b)
    if len(y) > len(x):
        return call.ret(FALSE)
    x = x[:len(y)] if call.path.endswith("starts_with") else x[len(x) - len(y):]
    return eq_vals(call, call.st, vec(x), vec(y), None)


@model("core::slice::binary_search", "core::slice::binary_search_by", "core::slice::binary_search_by_key", "core::slice::partition_point")
def _bsearch(call):
    v = call.val(0)
    n = call.path.split("::")[-1]
    if not explicit(v):
        return None
    xs = els(v)
    work, out = [(call.st, 0, len(xs))], []
    while work:
        st, lo, hi = work.pop()
        if lo >= hi:
            out.append((st, I(lo) if n == "partition_point" else err(I(lo))))
            continue
        mid = (lo + hi) // 2
        if n == "binary_search":
            rs = tri(call, st, xs[mid], call.args[1])
        elif n == "binary_search_by":
            rs = [y for s, r in call.e.call_value(st, call.fr, call.args[1], [xs[mid]], call.blk) for y in ordering_of(call, s, r)]
        elif n == "partition_point":
            rs = [(s2, -1 if r2 else 1) for s, r in call.e.call_value(st, call.fr, call.args[1], [xs[mid]], call.blk) for s2, r2 in call.e.branch(s, call.e.deref(s, r))]
        else:
            rs = []
            for s, k in call.e.call_value(st, call.fr, call.args[2], [xs[mid]], call.blk):
                q = tri(call, s, k, call.args[1])
                if q is None:
                    return None
                rs += q
        if rs is None:
            return None
        for s2, k in rs:
            if k == 0:
                out.append((s2, ok(I(mid))))
            else:
                work.append((s2, mid + 1, hi) if k < 0 else (s2, lo, mid))
    return out


@model("core::slice::windows", "core::slice::chunks", "core::slice::chunks_exact", "core::slice::rchunks")
def _windows(call):
    v, n = call.val(0), call.val(1)
    if n.op != "int" or not explicit(v):
        return None
    xs, k = els(v), n.a[0]
    if k == 0:
        return panics(call, "chunk size must not be zero")
    m = call.path.split("::")[-1]
    if m == "windows":
        r = [xs[i:i + k] for i in range(len(xs) - k + 1)]
    elif m == "rchunks":
        r, b = [], len(xs)
        while b > 0:
            r.append(xs[max(0, b - k):b])
            b -= k
    else:
        r = [xs[i:i + k] for i in range(0, len(xs), k)]
        if m == "chunks_exact" and r and len(r[-1]) < k:
            r.pop()
    return call.ret(itof([vec(x) for x in r]))


@model("core::slice::split", "core::slice::chunk_by")
def _slsplit(call):
    v = call.val(0)
    if not explicit(v):
        return None
    by = call.path.endswith("chunk_by")
    xs = els(v)
    outs = [(call.st, [[]])]
    for i, x in enumerate(xs):
        nxt = []
        for st, acc in outs:
            if by and i == 0:
                nxt.append((st, [[x]]))
                continue
            for s2, q in call.e.call_value(st, call.fr, call.args[1], [xs[i - 1], x] if by else [x], call.blk):
                for s3, r in call.e.branch(s2, call.e.deref(s2, q)):
                    if by:
                        nxt.append((s3, acc[:-1] + [acc[-1] + [x]] if r else acc + [[x]]))
                    else:
                        nxt.append((s3, acc + [[]] if r else acc[:-1] + [acc[-1] + [x]]))
        outs = nxt
    return [(st, itof([vec(a) for a in acc] if not by or xs else [])) for st, acc in outs]


@model("core::slice::rotate_left", "core::slice::rotate_right", "core::slice::fill", "core::slice::copy_from_slice", "core::slice::clone_from_slice")
def _rot(call):
    v = call.val(0)
    if not explicit(v):
        return None
    if call.args[0].op != "ptr" and any(x.op != "ptr" for x in els(v)):
        return None
    if v.a[1] and all(x.op == "ptr" for x in els(v)):
        # a part of a sequence: one reference for each element
        refs = els(v)
        v = vec([call.e.deref(call.st, x) for x in refs])
        k = call.e.new_cell(call.st, v)
        old, call.args = call.args, [mk("ptr", k, ())] + list(call.args[1:])
        r = _rot(call)
        call.args = old
        if r:
            for x, y in zip(refs, els(call.st.mem[k])):
                call.setp(x, y)
        return r
    xs, n = els(v), call.path.split("::")[-1]
    if n.startswith("rotate"):
        k = call.val(1)
        if k.op != "int" or k.a[0] > len(xs):
            return None
        k = k.a[0] if n.endswith("left") else len(xs) - k.a[0]
        r = xs[k:] + xs[:k]
    elif n == "fill":
        r = [call.args[1]] * len(xs)
    else:
        w = call.val(1)
        if not explicit(w):
            return None
        r = els(w)
        if len(r) != len(xs):
            return panics(call, "copy_from_slice")
    call.setp(call.args[0], vec(r))
    return call.ret(UNIT)


@model("std::slice::repeat", "core::slice::repeat")
def _vrep(call):
    v, n = call.val(0), call.val(1)
    return call.ret(vec(els(v) * n.a[0])) if explicit(v) and n.op == "int" else None


@model("core::slice::first_chunk", "core::slice::last_chunk")
def _fchunk(call):
    v = call.val(0)
    ns = [x for x in (call.c.get("targs") or []) if not isinstance(x, int)]
    return None


@model("core::slice::copy_within", "core::slice::select_nth_unstable")
def _unk(call):
    return None


@model("std::slice::join", "std::slice::concat", "core::slice::join", "core::slice::concat")
def _join2(call):
    v = call.val(0)
    if explicit(v):
        xs = [call.e.deref(call.st, x) for x in els(v)]
        if xs and all(explicit(x) and x.a[0] == "vec" for x in xs):
            sep = call.val(1) if len(call.args) > 1 else None
            out = []
            for i, x in enumerate(xs):
                if i and sep is not None:
                    out += els(sep) if explicit(sep) else [sep]
                out += els(x)
            return call.ret(vec(out))
        if not xs:
            ty, prog = call.ty(0)
            t = peel(ty, prog) if ty is not None else None
            if t is not None and not (t["k"] == "str" or t.get("path", "").endswith("String")):
                return call.ret(EMPTY)
    return models._join(call)


@model("std::array::map")
def _amap(call):
    v = call.val(0)
    if not explicit(v):
        return None
    outs = [(call.st, [])]
    for x in els(v):
        outs = [(s2, acc + [y]) for st, acc in outs for s2, y in call.e.call_value(st, call.fr, call.args[1], [x], call.blk)]
    return [(st, vec(acc)) for st, acc in outs]


for _p in ("std::array::as_slice", "std::collections::VecDeque::make_contiguous", "std::vec::Vec::leak"):
    MODELS[_p] = models.ident


# ------------------------------------------------------------------ iterators
NEXT.update({"iscan": ("scan_next", 0), "imapwhile": ("map_while_next", 0), "istepby": ("step_by_next", 0), "icycle": ("cycle_next", 0),
             "isucc": ("successors_next", 0), "ifromfn": ("from_fn_next", 0)})
models.ITERK = models.ITERK + ("iscan", "imapwhile", "istepby", "icycle", "isucc", "ifromfn", "irepeat")

MODELS["std::iter::Iterator::scan"] = models.adapter("iscan")
MODELS["std::iter::Iterator::map_while"] = models.adapter("imapwhile")
MODELS["std::iter::Iterator::step_by"] = models.adapter("istepby", TRUE)


@model("std::iter::Iterator::cycle")
def _cycle(call):
    it = as_iter(call.e, call.st, call.args[0])
    return call.ret(mk("icycle", it, it))


@model("std::iter::repeat")
def _repeat(call):
    return call.ret(mk("irepeat", call.args[0]))


@model("std::iter::repeat_n")
def _repeatn(call):
    n = call.val(1)
    return call.ret(itof([call.args[0]] * n.a[0])) if n.op == "int" else None


@model("std::iter::repeat_with")
def _repeatw(call):
    return None


@model("std::iter::successors")
def _succ(call):
    return call.ret(mk("isucc", call.args[0], call.args[1]))


@model("std::iter::from_fn")
def _fromfn(call):
    return call.ret(mk("ifromfn", call.args[0]))


def flip(v):
    """the iterator that walks backwards, or None"""
    if v.op == "irev":
        return v.a[0]
    if v.op == "it" and all(k == "e" for k, _ in v.a[0]):
        return mk("it", v.a[0][::-1])
    if v.op in ("imap", "ifilter", "ifiltermap", "iinspect"):
        x = flip(v.a[0])
        return None if x is None else mk(v.op, x, *v.a[1:])
    if v.op == "ichain":
        a, b = flip(v.a[0]), flip(v.a[1])
        return None if a is None or b is None else mk("ichain", b, a)
    if v.op == "range" and v.a[0].op == "int" and v.a[1].op == "int" and v.a[1].a[0] - v.a[0].a[0] <= 4096:
        return itof([I(k) for k in range(v.a[1].a[0] - 1, v.a[0].a[0] - 1, -1)])
    if v.op == "ienum" and v.a[0].op == "it" and all(k == "e" for k, _ in v.a[0].a[0]) and v.a[1].op == "int":
        return itof([tup(I(v.a[1].a[0] + i), x) for i, (_, x) in enumerate(v.a[0].a[0])][::-1])
    if v.op in ("itake", "iskip") and v.a[0].op == "it" and v.a[1].op == "int" and all(k == "e" for k, _ in v.a[0].a[0]):
        n = v.a[1].a[0]
        return mk("it", (v.a[0].a[0][:n] if v.op == "itake" else v.a[0].a[0][n:])[::-1])
    if v.op == "izip" and all(x.op == "it" and all(k == "e" for k, _ in x.a[0]) for x in v.a):
        return itof([tup(p[1], q[1]) for p, q in zip(v.a[0].a[0], v.a[1].a[0])][::-1])
    return None


models.FLIP.append(flip)


def the_cell(call, p):
    """the place where the iterator behind p really is, and its value"""
    while True:
        y = call.e.load(call.st, p.a[0], tuple(p.a[1]))
        if y.op != "ptr":
            return p, y
        p = y


def backwards(call):
    p = call.args[0]
    if p.op != "ptr":
        return None, None
    p, v = the_cell(call, p)
    if v.op == "irev":
        return p, v.a[0]
    if v.op == "coll":
        v = as_iter(call.e, call.st, v)
    r = flip(v)
    if r is None and v.op in ("it", "range"):
        r = mk("irev", v)
    return p, r


@model("std::iter::DoubleEndedIterator::next_back")
def _next_back2(call):
    p, r = backwards(call)
    if r is None:
        return None
    out = []
    for st, x, v2 in step(call, call.st, r):
        w = flip(v2)
        call.setp(p, w if w is not None else mk("irev", v2), st)
        out.append((st, x))
    return out


def viaback(name):
    def f(call):
        p, r = backwards(call)
        if r is None:
            if call.args[0].op == "ptr":
                return None
            r = flip(as_iter(call.e, call.st, call.args[0]))
            if r is None:
                r = mk("irev", as_iter(call.e, call.st, call.args[0]))
        k = call.e.new_cell(call.st, r)
        call.e.pinned.append(k)
        q = mk("ptr", k, ())
        outs = call.e.call_body(call.st, call.e.prel.bodies["prelude::" + name], [q] + list(call.args[1:]), call.fr.depth + 1)
        call.e.pinned.pop()
        for st, _ in outs:
            v2 = st.mem.pop(k, None)
            if p is not None and v2 is not None:
                w = flip(v2)
                call.setp(p, w if w is not None else mk("irev", v2), st)
        return outs
    return f


MODELS["std::iter::DoubleEndedIterator::rfind"] = viaback("iter_find")
MODELS["std::iter::DoubleEndedIterator::rfold"] = viaback("iter_fold")
MODELS["std::iter::DoubleEndedIterator::nth_back"] = viaback("iter_nth")


@model("std::iter::Iterator::rposition")
def _rpos(call):
    p, v = the_cell(call, call.args[0]) if call.args[0].op == "ptr" else (None, as_iter(call.e, call.st, call.args[0]))
    if v.op != "it" or any(k != "e" for k, _ in v.a[0]):
        return None
    xs = [x for _, x in v.a[0]]
    work, out = [(call.st, len(xs) - 1)], []
    while work:
        st, i = work.pop()
        if i < 0:
            out.append((st, NONE))
            continue
        for s2, q in call.e.call_value(st, call.fr, call.args[1], [xs[i]], call.blk):
            for s3, r in call.e.branch(s2, call.e.deref(s2, q)):
                if r:
                    out.append((s3, some(I(i))))
                else:
                    work.append((s3, i - 1))
    return out


@model("std::iter::Iterator::partition")
def _partition(call):
    xs = collected(call, call.st, call.args[0])
    ty, prog = call.ty(1)
    if xs is None or ty is None:
        return None
    out = []
    for st, ys in xs:
        outs = [(st, [], [])]
        for y in ys:
            nxt = []
            for s, a, b in outs:
                for s2, q in call.e.call_value(s, call.fr, call.args[1], [y], call.blk):
                    for s3, r in call.e.branch(s2, call.e.deref(s2, q)):
                        nxt.append((s3, a + [y], b) if r else (s3, a, b + [y]))
            outs = nxt
        for s, a, b in outs:
            c1 = models.collect_into(call, s, itof(a), ty, prog)
            if c1 is None:
                return None
            for s2, x in c1:
                for s3, y in models.collect_into(call, s2, itof(b), ty, prog):
                    out.append((s3, tup(x, y)))
    return out


@model("std::iter::Iterator::unzip")
def _unzip(call):
    outs = collect_parts(call, call.st, call.args[0])
    tys = [call.ty(3), call.ty(4)]
    if any(t is None for t, _ in tys):
        return None
    res = []
    for st, ps in outs:
        its = [mk("it", tuple(("e", proj(call.e.deref(st, x), "", i, str(i))) if k == "e" else ("s", gmap(x, EV, proj(EV, "", i, str(i)))) for k, x in ps)) for i in (0, 1)]
        r = models.collect_into(call, st, its[0], *tys[0])
        if r is None:
            return None
        for s2, a in r:
            q = models.collect_into(call, s2, its[1], *tys[1])
            if q is None:
                return None
            res += [(s3, tup(a, b)) for s3, b in q]
    return res


@model("std::iter::Iterator::size_hint")
def _sizehint(call):
    v = as_iter(call.e, call.st, call.val(0))
    if v.op == "it":
        n = length(coll("vec", v.a[0]))
        return call.ret(tup(n, some(n)))
    if v.op == "range":
        return [(st, tup(n, some(n))) for st, r in call.e.branch(call.st, le(v.a[0], v.a[1])) for n in (sub(v.a[1], v.a[0]) if r else I(0),)]
    return None


@model("std::iter::Peekable::next_if", "std::iter::Peekable::next_if_eq")
def _nextif(call):
    p = call.args[0]
    if p.op != "ptr":
        return None
    p, v = the_cell(call, p)
    if v.op != "ipeek":
        return None
    heads = [(call.st, v.a[1].a[2][0], v.a[0])] if v.a[1] is not NONE else list(step(call, call.st, v.a[0]))
    out = []
    for st, h, it in heads:
        for s2, n in call.e.variant(st, h, OPT):
            if n == "None":
                call.setp(p, mk("ipeek", it, some(h)), s2)
                out.append((s2, NONE))
                continue
            x = proj(h, "Some", 0, "0")
            rs = call.e.call_value(s2, call.fr, call.args[1], [x], call.blk) if call.path.endswith("next_if") else eq_vals(call, s2, x, call.args[1], None)
            for s3, q in rs:
                for s4, r in call.e.branch(s3, call.e.deref(s3, q)):
                    call.setp(p, mk("ipeek", it, NONE if r else some(h)), s4)
                    out.append((s4, h if r else NONE))
    return out


@model("std::iter::Peekable::peek_mut")
def _peekmut(call):
    p = call.args[0]
    if p.op != "ptr":
        return None
    p, v = the_cell(call, p)
    if v.op != "ipeek":
        return None
    return None


# ------------------------------------------------------------------ Option / Result
@model("std::option::Option::get_or_insert")
def _goi(call):
    p, v = (None, None)
    if call.args[0].op != "ptr":
        return None
    p, v = the_cell(call, call.args[0])
    out = []
    for st, n in call.e.variant(call.st, v, OPT):
        if n == "None":
            call.setp(p, some(call.args[1]), st)
        out.append((st, mk("ptr", p.a[0], tuple(p.a[1]) + (("f", "Some", 0, "0"),))))
    return out


@model("std::option::Option::as_deref_mut", "std::option::Option::as_mut", "std::result::Result::as_mut")
def _oam(call):
    if call.args[0].op != "ptr":
        return None
    p, v = the_cell(call, call.args[0])
    isopt = "Option" in call.path
    out = []
    for st, n in call.e.variant(call.st, v, OPT if isopt else RES):
        if n == "None":
            out.append((st, NONE))
        else:
            q = mk("ptr", p.a[0], tuple(p.a[1]) + (("f", n, 0, "0"),))
            out.append((st, some(q) if n == "Some" else ok(q) if n == "Ok" else err(q)))
    return out


@model("std::option::Option::take_if")
def _takeif(call):
    if call.args[0].op != "ptr":
        return None
    p, v = the_cell(call, call.args[0])
    out = []
    for st, n in call.e.variant(call.st, v, OPT):
        if n == "None":
            out.append((st, NONE))
            continue
        for s2, q in call.e.call_value(st, call.fr, call.args[1], [mk("ptr", p.a[0], tuple(p.a[1]) + (("f", "Some", 0, "0"),))], call.blk):
            for s3, r in call.e.branch(s2, call.e.deref(s2, q)):
                cur = call.e.deref(s3, p)
                if r:
                    call.setp(p, NONE, s3)
                out.append((s3, cur if r else NONE))
    return out


@model("std::option::Option::iter", "std::result::Result::iter", "std::option::Option::into_iter", "std::result::Result::into_iter",
       "std::option::Option::iter_mut")
def _oiter(call):
    v = call.val(0)
    isopt = "Option" in call.path
    out = []
    for st, n in call.e.variant(call.st, v, OPT if isopt else RES):
        x = proj(v, n, 0, "0") if n in ("Some", "Ok") else None
        if call.path.endswith("iter_mut") and x is not None:
            if call.args[0].op != "ptr":
                return None
            p, _ = the_cell(call, call.args[0])
            x = mk("ptr", p.a[0], tuple(p.a[1]) + (("f", n, 0, "0"),))
        out.append((st, itof([x] if x is not None else [])))
    return out


for _n in ("xor", "inspect", "transpose", "unzip", "is_none_or"):
    PRELUDE["std::option::Option::" + _n] = "opt_" + _n
for _n in ("or", "and", "inspect", "inspect_err", "transpose", "is_err_and", "flatten"):
    PRELUDE["std::result::Result::" + _n] = "res_" + _n
for _n in ("reduce",):
    PRELUDE["std::iter::Iterator::" + _n] = "iter_" + _n


@model("std::iter::Iterator::try_for_each", "std::iter::Iterator::try_fold")
def _tryfold(call):
    """by the kind of value the closure gives back"""
    name = call.path.split("::")[-1]
    opt = False
    for i in range(5):
        ty, prog = call.ty(i)
        if ty is not None and peel(ty, prog).get("path") == OPT and i >= 2:
            opt = True
    fn = {"try_for_each": "iter_try_for_each", "try_fold": "iter_try_fold"}[name] + ("_opt" if opt else "")
    return call.e.call_body(call.st, call.e.prel.bodies["prelude::" + fn], call.args, call.fr.depth + 1)


# ------------------------------------------------------------------ maps and sets
def ends(call):
    """parts of a B-tree in their order; None when it is not known"""
    v = models.in_order(call, call.val(0), "std::collections::BTreeMap")
    return v if explicit(v) and not any("B-tree" in t for t in call.st.taint) else None


@model("std::collections::BTreeMap::first_key_value", "std::collections::BTreeMap::last_key_value", "std::collections::BTreeSet::first", "std::collections::BTreeSet::last")
def _bends(call):
    v = ends(call)
    if v is None:
        return None
    ps = els(v)
    return call.ret(some(ps[0 if "first" in call.path else -1]) if ps else NONE)


@model("std::collections::BTreeMap::pop_first", "std::collections::BTreeMap::pop_last", "std::collections::BTreeSet::pop_first", "std::collections::BTreeSet::pop_last")
def _bpop(call):
    v = ends(call)
    if v is None:
        return None
    ps = list(v.a[1])
    if not ps:
        return call.ret(NONE)
    x = ps.pop(0 if "first" in call.path else -1)[1]
    call.setp(call.args[0], coll(kind_of(v), ps))
    return call.ret(some(x))


@model("std::collections::BTreeMap::range", "std::collections::BTreeSet::range")
def _brange(call):
    v, r = ends(call), call.val(1)
    if v is None or r.op != "adt":
        return None
    f = dict(zip(r.a[4], r.a[2]))
    m = kind_of(v) == "map"
    out = []
    for x in els(v):
        k = x.a[0][0] if m else x
        if not is_const(k):
            return None
        k = k.a[0]
        if "start" in f:
            lo = call.e.deref(call.st, f["start"])
            if not is_const(lo):
                return None
            if k < lo.a[0]:
                continue
        if "end" in f:
            hi = call.e.deref(call.st, f["end"])
            if not is_const(hi):
                return None
            if k > hi.a[0] or (k == hi.a[0] and "Inclusive" not in r.a[0]):
                continue
        out.append(x)
    return call.ret(itof(out))


@model("std::collections::HashMap::retain", "std::collections::BTreeMap::retain", "std::collections::HashSet::retain", "std::collections::BTreeSet::retain")
def _mretain(call):
    p, v = call.args[0], call.val(0)
    if not explicit(v) or p.op != "ptr":
        return None
    p, v = the_cell(call, p)
    m = kind_of(v) == "map"
    outs = [(call.st, ())]
    for x in els(v):
        nxt = []
        for st, drop in outs:
            if m:
                k = x.a[0][0]
                args = [k, mk("ptr", p.a[0], tuple(p.a[1]) + (("mv", k),))]
            else:
                args = [x]
            for s2, q in call.e.call_value(st, call.fr, call.args[1], args, call.blk):
                for s3, r in call.e.branch(s2, call.e.deref(s2, q)):
                    nxt.append((s3, drop if r else drop + (x.a[0][0] if m else x,)))
        outs = nxt
    for st, drop in outs:
        cur = call.e.deref(st, p)
        call.setp(p, coll(kind_of(v), [q for q in parts_of(cur) if not any((q[1].a[0][0] if m else q[1]) is d for d in drop)]), st)
    return [(st, UNIT) for st, _ in outs]


@model("std::collections::HashMap::values_mut", "std::collections::BTreeMap::values_mut")
def _valsm(call):
    p = call.args[0]
    if p.op != "ptr":
        return None
    p, v = the_cell(call, p)
    if not explicit(v):
        return None
    return call.ret(itof([mk("ptr", p.a[0], tuple(p.a[1]) + (("mv", x.a[0][0]),)) for x in els(models.in_order(call, v))]))


MODELS["std::collections::BTreeMap::iter_mut"] = MODELS["std::collections::HashMap::iter_mut"]


@model("std::collections::HashMap::remove_entry", "std::collections::BTreeMap::remove_entry")
def _rmentry(call):
    v = call.val(0)
    out = []
    for st, old in lookup(call, call.st, v, call.args[1]):
        if old is None:
            out.append((st, NONE))
            continue
        ps = [q for q in parts_of(v) if not (q[0] == "e" and q[1] is old)]
        if len(ps) == len(parts_of(v)):
            return None
        call.setp(call.args[0], coll("map", ps), st)
        out.append((st, some(old)))
    return out


@model("std::collections::HashSet::get_or_insert_with", "std::collections::HashMap::get_many_mut")
def _unk2(call):
    return None


@model("std::collections::HashSet::take", "std::collections::BTreeSet::take")
def _stake(call):
    v = call.val(0)
    out = []
    for st, old in lookup(call, call.st, v, call.args[1]):
        if old is not None:
            ps = [q for q in parts_of(v) if not (q[0] == "e" and q[1] is old)]
            if len(ps) == len(parts_of(v)):
                return None
            call.setp(call.args[0], coll("set", ps), st)
        out.append((st, NONE if old is None else some(old)))
    return out


HENT, BENT = "std::collections::hash_map::Entry", "std::collections::btree_map::Entry"


@model("std::collections::HashMap::entry", "std::collections::BTreeMap::entry")
def _entry2(call):
    p, k = call.args[0], call.args[1]
    if p.op != "ptr":
        return None
    p, v = the_cell(call, p)
    bt = "BTree" in call.path
    path = BENT if bt else HENT
    ts = [x for x in (call.c.get("targs") or []) if isinstance(x, int)]
    prog = call.c.get("fnprog") or call.fr.body.prog
    kty = prog.ty(ts[0]) if ts else None
    if kty is not None and kty["k"] == "param":
        kty = None
    out = []
    for st, old in lookup(call, call.st, v, k, (kty, kty, prog)):
        if old is None:
            out.append((st, adt(path, 0 if bt else 1, (mk("vacant", p, k),), ("0",), "Vacant")))
        elif old.op == "tup":
            out.append((st, adt(path, 1 if bt else 0, (mk("occupied", p, old.a[0][0], k),), ("0",), "Occupied")))
        else:
            st.add_taint("entry")
            out.append((st, fresh("entry")))
    return out


def entm(*names):
    return [q + "::" + n for q in (HENT, BENT) for n in names]


def mvptr(p, k):
    return mk("ptr", p.a[0], tuple(p.a[1]) + (("mv", k),))


def put_new(call, st, p, k, x):
    call.setp(p, coll("map", tuple(parts_of(call.e.deref(st, p))) + (("e", tup(k, x)),)), st)
    return mvptr(p, k)


def ent(call):
    en = call.val(0)
    if en.op != "adt":
        return None, None
    return en.a[5], en.a[2][0]


def _or(call, mkval):
    n, x = ent(call)
    if n is None:
        return None
    if n == "Occupied":
        return call.ret(mvptr(x.a[0], x.a[1]))
    return [(st, put_new(call, st, x.a[0], x.a[1], v)) for st, v in mkval(x.a[1])]


@model(*entm("or_insert"))
def _eoi2(call):
    return _or(call, lambda k: [(call.st, call.args[1])])


@model(*entm("or_insert_with"))
def _eoiw2(call):
    return _or(call, lambda k: call.e.call_value(call.st, call.fr, call.args[1], [], call.blk))


@model(*entm("or_insert_with_key"))
def _eoiwk2(call):
    return _or(call, lambda k: call.e.call_value(call.st, call.fr, call.args[1], [k], call.blk))


@model(*entm("or_default"))
def _eod2(call):
    ty, prog = call.ty(1)
    d = models.default_of(call.e, ty, prog) if ty else None
    if d is None:
        return None
    return _or(call, lambda k: [(call.st, d)])


@model(*entm("and_modify"))
def _eam(call):
    n, x = ent(call)
    if n is None:
        return None
    if n == "Vacant":
        return call.ret(call.val(0))
    en = call.val(0)
    return [(st, en) for st, _ in call.e.call_value(call.st, call.fr, call.args[1], [mvptr(x.a[0], x.a[1])], call.blk)]


@model(*entm("key"), *[q + n + "::key" for q in ("std::collections::hash_map::", "std::collections::btree_map::") for n in ("OccupiedEntry", "VacantEntry")])
def _ekey(call):
    v = call.val(0)
    x = v.a[2][0] if v.op == "adt" else v
    if x.op not in ("vacant", "occupied"):
        return None
    return call.ret(x.a[1])


def occ(*names):
    return [q + "OccupiedEntry::" + n for q in ("std::collections::hash_map::", "std::collections::btree_map::") for n in names]


@model(*occ("get", "get_mut", "into_mut"))
def _oget(call):
    x = call.val(0)
    if x.op != "occupied":
        return None
    p = mvptr(x.a[0], x.a[1])
    return call.ret(call.e.deref(call.st, p) if call.path.endswith("::get") else p)


@model(*occ("insert"))
def _oins(call):
    x = call.val(0)
    if x.op != "occupied":
        return None
    p = mvptr(x.a[0], x.a[1])
    old = call.e.deref(call.st, p)
    call.setp(p, call.args[1])
    return call.ret(old)


@model(*occ("remove", "remove_entry"))
def _orem(call):
    x = call.val(0)
    if x.op != "occupied":
        return None
    m = call.e.deref(call.st, x.a[0])
    hit = [q[1] for q in parts_of(m) if q[0] == "e" and q[1].a[0][0] is x.a[1]]
    if len(hit) != 1:
        return None
    call.setp(x.a[0], coll("map", [q for q in parts_of(m) if q[1] is not hit[0]]))
    return call.ret(hit[0] if call.path.endswith("entry") else hit[0].a[0][1])


@model("std::collections::hash_map::VacantEntry::insert", "std::collections::btree_map::VacantEntry::insert")
def _vins(call):
    x = call.val(0)
    if x.op != "vacant":
        return None
    return call.ret(put_new(call, call.st, x.a[0], x.a[1], call.args[1]))


# ------------------------------------------------------------------ heaps
MODELS["std::collections::BinaryHeap::new"] = lambda call: call.ret(EMPTY)
MODELS["std::collections::BinaryHeap::push"] = models._push
MODELS["std::collections::BinaryHeap::len"] = models._len
MODELS["std::collections::BinaryHeap::is_empty"] = models._is_empty


@model("std::collections::BinaryHeap::pop", "std::collections::BinaryHeap::peek")
def _hpop(call):
    v = call.val(0)
    if not explicit(v):
        return None
    xs = els(v)
    r = ext_pick(call, [(call.st, xs)], lambda s, a, b: tri(call, s, a, b), lambda k: k < 0)
    if r is None:
        return None
    if call.path.endswith("pop"):
        for st, x in r:
            if x.a[5] == "Some":
                ys = list(xs)
                del ys[[y is x.a[2][0] for y in ys].index(True)]
                call.setp(call.args[0], vec(ys), st)
    return r


# ------------------------------------------------------------------ shared and mutable cells
for _p in ("std::rc::Rc::clone", "std::rc::Rc::as_ref", "std::sync::Arc::as_ref", "std::rc::Rc::unwrap_or_clone", "std::sync::Arc::unwrap_or_clone",
           "std::rc::Rc::new_cyclic"):
    MODELS[_p] = models.ident


@model("std::cell::RefCell::into_inner", "std::cell::Cell::into_inner", "std::cell::OnceCell::into_inner")
def _cinto(call):
    k = models._cell(call)
    return None if k is None else call.ret(call.st.mem.get(k, mk("uninit")))


@model("std::cell::Cell::take", "std::cell::RefCell::take")
def _ctake(call):
    k = models._cell(call)
    ty, prog = call.ty(0)
    d = models.default_of(call.e, ty, prog) if ty else None
    if k is None or d is None:
        return None
    old = call.st.mem.get(k)
    call.st.mem[k] = d
    return call.ret(old)


@model("std::cell::RefCell::get_mut", "std::cell::Cell::get_mut", "std::cell::RefCell::as_ptr")
def _cgetm(call):
    k = models._cell(call)
    return None if k is None else call.ret(mk("ptr", k, ()))


@model("std::rc::Rc::get_mut", "std::sync::Arc::get_mut", "std::rc::Rc::strong_count", "std::rc::Rc::ptr_eq", "std::sync::Arc::ptr_eq", "std::rc::Rc::try_unwrap")
def _rcunk(call):
    return None


@model("std::mem::drop")
def _mdrop(call):
    if not call.e.droppers or call.args[0].op == "ptr":
        return call.ret(UNIT)
    k = call.e.new_cell(call.st, call.args[0])
    return [(s, UNIT) for s in call.e.run_drop(call.st, call.fr, mk("ptr", k, ()))]
