"""C01-C04: abstract interpretation of the lexer over byte sets.

A file is a list of bytes, each of them known or an unknown with a set of possible values (the abstract domain is the
power set of bytes).  The lexer is driven through its public interface by a script of peeks ('l') and reads ('g'); every
abstract path is compared with the reference lexer below, which works on the same sets and splits them where its own
answer depends on them."""
import itertools, os, traceback
import absint, par, astb
from astb import struct, enum
from terms import *
from seqs import *
from absint import Budget
from parsing import body_of

ASCII = frozenset(range(128))
BYTES = frozenset(range(256))
WS = frozenset(b" \t\r\n")
DIG = frozenset(b"0123456789")
WORD = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-")
STOP = WS | frozenset(b"();")

KEYWORDS = {"requirements": "Requirements", "objects": "Objects", "types": "Types", "constants": "Constants", "predicates": "Predicates",
            "functions": "Functions", "init": "Init", "htn": "HTN", "task": "Task", "action": "Action", "parameters": "Parameters",
            "method": "Method", "precondition": "Precondition", "effect": "Effect", "subtasks": "Subtasks", "tasks": "Subtasks",
            "ordered-subtasks": "OrderedSubtasks", "ordered-tasks": "OrderedSubtasks", "ordering": "Ordering", "order": "Ordering",
            "constraints": "Constraints", "goal": "Goal", "domain": "Domain", "problem": "Problem"}
REQS = {"negative-preconditions": "NegativePreconditions", "strips": "STRIPS", "hierarchy": "Hierarchy", "equality": "Equality",
        "method-preconditions": "MethodPreconditions", "typing": "TypedObjects", "universal-preconditions": "UniversalPreconditions"}
PLAIN = {"define": "Define", "domain": "Domain", "problem": "Problem"}
OPS = {"and": "And", "or": "Or", "oneof": "Xor", "not": "Not", "forall": "ForAll", "exists": "Exists", "imply": "Implication",
       "probabilistic": "Probabilistic"}
UNSPEC = ("probabilistic-effects",)     # displayed as a requirement but not documented as input


# ------------------------------------------------------------------ the reference lexer
class Split(Exception):
    def __init__(self, i, part):
        self.i, self.part = i, part


class Ref:
    """reads tokens from a list of byte sets; every question must have one answer for all the values of the set"""
    def __init__(self, doms):
        self.d, self.p, self.line = doms, 0, 1

    def isin(self, i, part):
        if i >= len(self.d):
            return False
        x = self.d[i] & part
        if not x:
            return False
        if x == self.d[i]:
            return True
        raise Split(i, part)

    def skip(self):
        while self.p < len(self.d):
            if self.isin(self.p, frozenset(b";")):
                while self.p < len(self.d) and not self.isin(self.p, frozenset(b"\n")):
                    self.p += 1
            elif self.isin(self.p, frozenset(b"\n")):
                self.line += 1
                self.p += 1
            elif self.isin(self.p, WS):
                self.p += 1
            else:
                return

    def lexeme(self, i):
        bad = False
        while i < len(self.d) and not self.isin(i, STOP):
            if not self.isin(i, WORD):
                if not self.isin(i, ASCII):
                    bad = "high"
                else:
                    bad = bad or True
            i += 1
        return i, bad

    def word(self, a, b, w):
        return b - a == len(w) and all(self.isin(a + k, frozenset((c,))) for k, c in enumerate(w.encode()))

    def one(self):
        """(expectation, end of the token); expectations: ('t', term maker ...)"""
        self.skip()
        i = self.p
        if i >= len(self.d):
            return ("eof",), i
        for c, n in ((b"-", "Dash"), (b"(", "LParentheses"), (b")", "RParentheses")):
            if self.isin(i, frozenset(c)):
                return ("punct", n), i + 1
        for c, n in ((b"<", "LessThan"), (b">", "GreaterThan")):
            if self.isin(i, frozenset(c)):
                if self.isin(i + 1, frozenset(b"=")):
                    return ("op", n + "OrEqual"), i + 2
                return ("op", n), i + 1
        if self.isin(i, frozenset(b"=")):
            return ("op", "Equal"), i + 1
        if self.isin(i, frozenset(b"?")):
            j, bad = self.lexeme(i + 1)
            if bad == "high":
                return ("high",), j
            if bad:
                return ("err", "InvalidIdentifier", i + 1, j), j
            if j == i + 1:
                return ("err", "InvalidIdentifier", i, j), j
            return ("id", i + 1, j), j
        if self.isin(i, frozenset(b":")):
            j, bad = self.lexeme(i + 1)
            if bad == "high":
                return ("high",), j
            if bad:
                return ("err", "InvalidIdentifier", i + 1, j), j
            for w, n in KEYWORDS.items():
                if self.word(i + 1, j, w):
                    return ("kw", n), j
            for w, n in REQS.items():
                if self.word(i + 1, j, w):
                    return ("req", n), j
            for w in UNSPEC:
                if self.word(i + 1, j, w):
                    return ("high",), j
            return ("err", "InvalidKeyword", i + 1, j), j
        if self.isin(i, DIG):
            j, dot = i, False
            while j < len(self.d):
                if self.isin(j, DIG):
                    j += 1
                elif not dot and self.isin(j, frozenset(b".")):
                    dot = True
                    j += 1
                else:
                    break
            if dot and self.isin(j - 1, frozenset(b".")):
                return ("high",), j     # '1.': accepted as a number; the error message suggests it should not be
            if not dot and j - i > 18:
                if all(len(self.d[k]) == 1 for k in range(i, j)):
                    if int(bytes(next(iter(self.d[k])) for k in range(i, j))) >= 1 << 63:
                        return ("numerr", i, j), j
                else:
                    return ("high",), j
            return ("real" if dot else "int", i, j), j
        j, bad = self.lexeme(i)
        if bad == "high":
            return ("high",), j
        if bad:
            return ("err", "InvalidIdentifier", i, j), j
        for w, n in PLAIN.items():
            if self.word(i, j, w):
                return ("kw", n), j
        for w, n in OPS.items():
            if self.word(i, j, w):
                return ("op", n), j
        return ("id", i, j), j


def cells(doms, n):
    """[(doms, [(expectation, line, start, end)...])]: n tokens"""
    work, out = [list(doms)], []
    while work:
        d = work.pop()
        r = Ref(d)
        got = []
        try:
            for _ in range(n):
                x, q = r.one()
                got.append((x, r.line, r.p, q))
                r.p = q
                if x[0] in ("err", "numerr", "high"):
                    break
            out.append((d, got))
        except Split as s:
            a, b = list(d), list(d)
            a[s.i] = d[s.i] & s.part
            b[s.i] = d[s.i] - s.part
            work += [b, a]
    return out


# ------------------------------------------------------------------ the analysed lexer
def file_of(spec):
    """spec: list of int | ('?', set) -> (terms, domains)"""
    ts, ds, k = [], [], 0
    for x in spec:
        if isinstance(x, int):
            ts.append(I(x))
            ds.append(frozenset((x,)))
        else:
            ts.append(mk("byte", mk("sym", "FILE"), I(len(ts))))
            ds.append(x[1])
    return ts, ds


def by(s):
    return list(s.encode() if isinstance(s, str) else s)


ANY = ("?", ASCII)
ANYB = ("?", BYTES)


def shown(spec):
    return "".join(chr(x) if isinstance(x, int) and 32 <= x < 127 else "\\x%02x" % x if isinstance(x, int) else "[%d values]" % len(x[1]) for x in spec)


class LRun:
    def __init__(self, world, spec, script, steps=600000):
        self.ts, self.ds = file_of(spec)
        self.e = e = absint.Eng(world, steps)
        e.unroll = True
        e.maxdepth = 200
        st = absint.St()
        for t, d in zip(self.ts, self.ds):
            if t.op == "byte":
                st.dom[t] = d
        prog = coll("vec", [("e", t) for t in self.ts])
        outs = [(s, lx, ()) for s, lx in e.call_body(st, body_of(world, "LexicalAnalyzer", "new"), [prog], 0)]
        get, look = body_of(world, "LexicalAnalyzer", "get_token"), body_of(world, "LexicalAnalyzer", "lookahead")
        lastp = body_of(world, "LexicalAnalyzer", "get_last_token_position")
        done = []
        for step in script:
            nxt = []
            for s, lx, tr in outs:
                for s2, v in e.call_body(s, get if step == "g" else look, [lx], 0):
                    for s3, pv in e.call_body(s2, lastp, [lx], 0):
                        tr2 = tr + ((step, v, pv),)
                        (done if v.op == "adt" and v.a[5] == "Err" and step == "g" else nxt).append((s3, lx, tr2))
            outs = nxt
        self.paths = [(s, tr) for s, lx, tr in done + outs]


def text(ts, ds, a, b):
    """the text of bytes a..b as the engine represents it"""
    v = [I(next(iter(ds[i]))) if len(ds[i]) == 1 else ts[i] for i in range(a, b)]
    if all(x.op == "int" for x in v):
        return S("".join(chr(x.a[0]) for x in v))
    return mk("bstr", tuple(v))


def texteq(e, st, x, y):
    def els(t):
        return [I(ord(c)) for c in t.a[0]] if t.op == "str" else list(t.a[0]) if t.op == "bstr" else None
    p, q = els(x), els(y)
    if p is None or q is None:
        return None
    if len(p) != len(q):
        return False
    r = True
    for a, b in zip(p, q):
        if a is b:
            continue
        t = e.truth(st, eq(a, b))
        if t is False:
            return False
        if t is None:
            # different unknowns: equal only by chance
            return False
    return r


def agree(e, st, v, x, ts, ds, line):
    """does the result v match the expectation? True/False/None"""
    if x[0] == "high":
        return None
    if v.op != "adt" or v.a[5] not in ("Ok", "Err"):
        return None
    y = v.a[2][0]
    if x[0] in ("err", "numerr"):
        if v.a[5] == "Ok":
            return False
        if y.op != "adt":
            return None
        f = dict(zip(y.a[4], y.a[2]))
        k = f["error_type"]
        if k.op != "adt":
            return None
        if x[0] == "err" and k.a[5] != x[1]:
            return False
        t = texteq(e, st, f["lexeme"], text(ts, ds, x[-2], x[-1]))
        return t
    if v.a[5] == "Err":
        return False
    if y.op != "adt":
        return None
    V = {"eof": "EOF", "punct": "Punctuator", "op": "Operator", "kw": "Keyword", "req": "Requirement", "id": "Identifier", "int": "Number", "real": "Number"}[x[0]]
    if y.a[5] != V:
        return False
    if V == "EOF":
        return True
    z = y.a[2][0]
    if x[0] in ("punct", "op", "kw", "req"):
        return None if z.op != "adt" else z.a[5] == x[1]
    if x[0] == "id":
        return texteq(e, st, z, text(ts, ds, x[1], x[2]))
    if z.op != "adt":
        return None
    if z.a[5] != ("Real" if x[0] == "real" else "Integer"):
        return False
    n = z.a[2][0]
    if n.op == "num":
        return texteq(e, st, n.a[0], text(ts, ds, x[1], x[2]))
    w = text(ts, ds, x[1], x[2])
    if w.op == "str" and n.op in ("int", "flt"):
        return (n.op == "flt") == (x[0] == "real") and n.a[0] == (float if x[0] == "real" else int)(w.a[0])
    return None


def err_line(v):
    if v.op == "adt" and v.a[5] == "Err" and v.a[2][0].op == "adt":
        f = dict(zip(v.a[2][0].a[4], v.a[2][0].a[2]))
        return f.get("position")
    return None


def line_of(p):
    return p.a[2][0] if p is not None and p.op == "adt" else None


def judge(world, sc):
    fam, spec, script = sc
    r = LRun(world, spec, script)
    e = r.e
    res, n_ok, n_un, why = [], 0, 0, set()
    site = body_of(world, "LexicalAnalyzer", "get_token")
    where = "%s (%s)" % (site.short(), site.span)
    name = "%s, steps %s" % (shown(spec), script)
    for st, tr in r.paths:
        if st.lossy or st.taint:
            n_un += 1
            why.add("imprecise path: " + "; ".join(sorted(map(str, st.taint))))
            continue
        ds = []
        for t, d in zip(r.ts, r.ds):
            if t.op == "byte":
                d = st.dom.get(t, d)
            ds.append(d)
        n = sum(1 for s in tr if s[0] == "g") + 1
        for cd, exp in cells(ds, n):
            s2 = st.copy()
            for t, d in zip(r.ts, cd):
                if t.op == "byte":
                    s2.dom[t] = d
            if not feasible(e, s2):
                continue
            k, peeked, good, sure = 0, None, True, True
            ex = " e.g. " + repr(bytes(min(d) if not (d & frozenset(b"abcxyz")) else min(d & frozenset(b"abcxyz")) for d in cd))
            for step, v, pv in tr:
                if k >= len(exp):
                    sure = False
                    break
                x, line, a, b = exp[k]
                if x[0] == "high":
                    sure = False
                    break
                t = agree(e, s2, v, x, r.ts, cd, line)
                if t is None:
                    n_un += 1
                    why.add("token not determined: %s" % show(v)[:80])
                    good = False
                    break
                sep = any(cd[i] <= WS or cd[i] == frozenset(b";") for i in range(0, a))
                if t is False:
                    good = False
                    txt = "%s in %s%s gives %s, expected %s" % ("peeking" if step == "l" else "reading", name, ex, show(v)[:160], show_x(x, r.ts, cd))
                    key = "%s token %d of %s" % (step, k, shown(spec)[:60])
                    if step == "l":
                        res.append(("C04", "peek: " + show_x(x, r.ts, cd), where, txt))
                    else:
                        if "l" in script:
                            res.append(("C04", "read after peek: " + show_x(x, r.ts, cd), where, txt))
                        else:
                            res.append(("C01", "token: " + show_x(x, r.ts, cd), where, txt))
                            if k > 0 and exp[k - 1][3] == a:
                                res.append(("C04", "bytes consumed: " + show_x(exp[k - 1][0], r.ts, cd), where, txt))
                        if sep:
                            res.append(("C03", "separators before: " + show_x(x, r.ts, cd), where, txt))
                    break
                lines = [line_of(pv)]
                if x[0] in ("err", "numerr"):
                    lines.append(line_of(err_line(v)))
                for ln in lines:
                    t = None if ln is None else e.truth(s2, eq(ln, I(line)))
                    if t is False or (ln is not None and ln.op == "trunc"):
                        good = False
                        res.append(("C02", "line of token after %d lines" % (line - 1), where, "%s token %d in %s%s has line %s instead of %d" % (
                            "peeking at" if step == "l" else "reading", k, name, ex, show(ln), line)))
                    elif t is None:
                        good = False
                        n_un += 1
                        why.add("line not determined")
                if step == "g":
                    k += 1
            if good:
                n_ok += 1
    for st, body, head in e.stuck:
        if not (st.taint or st.lossy):
            res.append(("C23", "loop in %s" % body.short(), "%s (%s)" % (body.short(), body.span), "never ends on " + name))
    for st, stk, sp, what in e.panics:
        if not (st.taint or st.lossy):
            b = stk[-1] if stk else None
            res.append(("C22", "panic in %s: %s" % (b.short() if b else "?", what), "%s (%s)" % (b.short() if b else "?", sp), "reached on " + name))
    return res, n_ok, n_un, why, len(e.functions)


def feasible(e, st):
    """do the relations the path has assumed between several bytes hold for some of these values?"""
    for f, v in st.facts.items():
        if f.op == "and" and v is False:
            rest = st.copy()
            del rest.facts[f]
            if all(e.truth(rest, x) is True for x in f.a[0]):
                return False
    return True


def show_x(x, ts, ds):
    if x[0] in ("id", "int", "real", "err", "numerr"):
        return "%s %s" % (x[1] if x[0] == "err" else x[0], show(text(ts, ds, x[-2], x[-1]))[:80])
    return " ".join(str(y) for y in x)


# ------------------------------------------------------------------ families
def families(deep):
    out = []
    words = [":" + w for w in list(KEYWORDS) + list(REQS)] + list(PLAIN) + list(OPS)
    signs = ["(", ")", "-", "=", "<", ">", "<=", ">=", "?"]
    shapes = ["a", "Ab", "a1-b_c", "x_", "9", "10", "007", "1.5", "0.25", "12.", "?x", "?long-name_2", ":nokey", ":", "x" * 300, "?" + "v" * 70, ":" + "k" * 80,
              "9223372036854775807", "9223372036854775808", "99999999999999999999999999", "1.2.3", "a.b", "a=b", "?a?b", "+", "@", "a,b", ".5", "a:b", "12ab", "12-3",
              "_x", "nota", "andy", "or2", "domains", "definex", "And", "NOT", ":Domain", ":TYPES", "forall-x", "when", ":define", ":and", ":when", ":task-", "-x", "--"]
    first = words + signs + shapes
    # each lexeme on its own, then any byte; read, peek and read, peek twice
    for w in first:
        out.append(("lexeme", by(w), "gg"))
        out.append(("lexeme and any byte", by(w) + [ANY], "ggg"))
        # peeking at the very start of a file is not something the parser does
        out.append(("peek", by(" " + w) + [ANY], "lgglg"))
    for w in signs + ["a", "9", "1.5", "?x", ":task", "and", ":bad"]:
        out.append(("peek twice", by("(" + w) + [ANY], "gllglg"))
    # one byte of a word replaced by any byte
    for w in words:
        for i in range(len(w)):
            out.append(("one byte of " + w + " arbitrary", by(w[:i]) + [ANY] + by(w[i + 1:]), "gg"))
    # separators
    seps = [" ", "\t", "\r", "\n", "\r\n", "\n\n", " \n\t \n", ";\n", ";c\n", ";a b(c) :task\n", "; x\r\n", ";1\n;2\n", "\n;\n\n;;\n ", ";;;\n\n", " ; \n ; \n"]
    seps += ["\n" * 70, " " * 40, ";" + "c" * 90 + "\n", ";x\n" * 12] + (["\n" * 300] if deep else [])
    for s in seps:
        for a, b in (("a", "b"), ("(", ")"), (":task", "?v"), ("<", "="), ("9", "9"), (">", ":nokey"), ("and", "x@")):
            out.append(("separators", by(s + a + s + b + s), "ggg"))
            out.append(("separators, peeking", by("(" + s + a + s + b + s), "glglgl"))
    for a in ("a", "(", "?x", ":task", "1", "1.5", "<", "and"):
        out.append(("comment directly behind", by(a + ";c\nb"), "ggg"))
        out.append(("comment directly behind, peeking", by("(" + a + ";c\nb"), "glglgl"))
        out.append(("comment at the end", by(a + ";"), "gg"))
        out.append(("comment at the end", by(a + " ;xy") + [ANY], "ggg"))
        out.append(("comment with any bytes", by(a + ";") + [ANYB, ANYB] + by("\nb"), "ggg"))
        out.append(("any byte between", by(a) + [ANY] + by("b"), "ggg"))
        out.append(("two bytes between", by(a + " ") + [ANY, ANY] + by(")"), "gggg"))
        out.append(("two bytes between, peeking", by(a + " ") + [ANY, ANY] + by(")"), "glglg"))
    # any short file
    out.append(("empty file", [], "gg"))
    for n in (1, 2) + ((3,) if deep else ()):
        out.append(("any file of %d bytes" % n, [ANY] * n, "g" * (n + 1)))
        out.append(("any file of %d bytes, peeking" % n, by(" ") + [ANY] * n, "lg" * (n + 1)))
        if n < 3:
            out.append(("any file of %d bytes, all 256 values" % n, [ANYB] * n, "g" * (n + 1)))
    for a in (":", "?", "<", "1", "1.", "a", "(", ";"):
        out.append(("%s and two bytes" % a, by(a) + [ANY, ANY], "ggg"))
        out.append(("line, %s and two bytes" % a, by("\n" + a) + [ANY, ANY], "lglg"))
    return out


# ------------------------------------------------------------------ the reader far into a long file
def reader_state(e, st, lx):
    """values of the cells of the reader, with the numbers in them taken out"""
    shape, nums = [], []

    def strip(t):
        if t.op == "int":
            nums.append(t.a[0])
            return "#"
        if t.op == "adt":
            return (t.a[0], t.a[5], tuple(strip(x) for x in t.a[2]))
        if t.op == "tup":
            return tuple(strip(x) for x in t.a[0])
        return t
    cells_ = [x for x in walk(lx) if x.op == "cell"]
    for c in cells_:
        shape.append(strip(st.mem[c.a[0]]))
    return cells_, shape, nums


def refill(t, nums):
    if t.op == "int":
        return I(nums.pop(0), *t.a[1:]) if len(t.a) > 1 else I(nums.pop(0))
    if t.op == "adt":
        fs = tuple(refill(x, nums) for x in t.a[2])
        return mk("adt", *(t.a[:2] + (fs,) + t.a[3:]))
    if t.op == "tup":
        return tup(*[refill(x, nums) for x in t.a[0]])
    return t


class Far:
    """What the reader does behind K lines of one token each.  The reader's state behind 2, 3 and 4 such lines is computed by
    interpretation; if its numbers grow uniformly, the state behind K lines is that with the numbers continued.  The
    continuation is first compared with the interpreted state behind 7 lines."""

    def __init__(self, world, tail, script):
        self.world, self.tail, self.script = world, tail, script
        self.get, self.look = body_of(world, "LexicalAnalyzer", "get_token"), body_of(world, "LexicalAnalyzer", "lookahead")
        self.lastp = body_of(world, "LexicalAnalyzer", "get_last_token_position")
        self.new = body_of(world, "LexicalAnalyzer", "new")
        self.samples = [self.state(k) for k in (2, 3, 4)]
        (_, s2, n2), (_, s3, n3), (_, s4, n4) = self.samples
        if not (s2 == s3 == s4 and len(n2) == len(n3) == len(n4)) or any(c - b != b - a for a, b, c in zip(n2, n3, n4)):
            raise Budget("the reader's state does not grow uniformly")
        self.step = [b - a for a, b in zip(n2, n3)]
        self.base = n2
        s7 = self.state(7)
        if s7[1] != s2 or s7[2] != self.nums(7):
            raise Budget("the reader's state does not grow uniformly")

    def nums(self, k):
        return [b + (k - 2) * d for b, d in zip(self.base, self.step)]

    def start(self, k):
        e = absint.Eng(self.world, 600000)
        e.unroll = True
        st = absint.St()
        a, nl = ("e", I(97)), ("e", I(10))
        prog = coll("vec", ((a, nl) * k)[:-1] + tuple(("e", I(b)) for b in self.tail))
        outs = e.call_body(st, self.new, [prog], 0)
        if len(outs) != 1 or outs[0][0].taint or outs[0][0].lossy:
            raise Budget("creating the reader is not determined")
        return e, outs[0][0], outs[0][1]

    def state(self, k):
        e, st, lx = self.start(k)
        for _ in range(k):
            outs = e.call_body(st, self.get, [lx], 0)
            if len(outs) != 1 or outs[0][0].taint or outs[0][0].lossy:
                raise Budget("reading is not determined")
            st = outs[0][0]
        return reader_state(e, st, lx)

    def run(self, k):
        """what the script gives behind k lines, lines counted from there"""
        e, st, lx = self.start(k)
        cs, shape, nums = reader_state(e, st, lx)
        todo = self.nums(k)
        for c in cs:
            st.mem[c.a[0]] = refill(st.mem[c.a[0]], todo)
        out = []
        for step in self.script:
            r = e.call_body(st, self.get if step == "g" else self.look, [lx], 0)
            if len(r) == 1:
                st, v = r[0]
                r = e.call_body(st, self.lastp, [lx], 0)
            if len(r) != 1:
                if e.panics:
                    return out + [("panic: %s" % e.panics[0][3], None)]
                raise Budget("not determined")
            st, pv = r[0]
            if st.taint or st.lossy:
                raise Budget("imprecise path: " + "; ".join(sorted(map(str, st.taint))))
            lines = [line_of(pv), line_of(err_line(v)) if err_line(v) is not None else None]
            rel = tuple(None if x is None else x.a[0] - k if x.op == "int" else show(x) for x in lines)
            w = v
            if v.op == "adt" and v.a[5] == "Err" and v.a[2][0].op == "adt":
                w = tup(*[x for n, x in zip(v.a[2][0].a[4], v.a[2][0].a[2]) if n != "position"])
            out.append((w, rel))
        return out


FAR = (50, 126, 127, 254, 255, 256, 511, 998, 999, 9999, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 99999, 131071)
TAILS = (("\nb c\n)", "gggg"), ("\n\n\n:task ?x\n", "lgglg"), (" ;c\n\n<= 12\n\n(", "gggg"), ("\n@\n", "g"), ("\n\n:nokey", "g"), ("\n1.5 and", "lgg"))


def judge_far(world, sc):
    tail, script = sc
    f = Far(world, by(tail), script)
    ref = f.run(4)
    res, n_ok = [], 0
    b = f.get
    where = "%s (%s)" % (b.short(), b.span)
    for k in FAR:
        got = f.run(k)
        name = "behind %d lines, %r (steps %s)" % (k, tail, script)
        bad = False
        for i, (x, y) in enumerate(zip(ref, got)):
            if isinstance(y[0], str):
                res.append(("C22", "far into a file: " + y[0], where, name + ": " + y[0]))
                bad = True
            elif y[1] != x[1]:
                res.append(("C02", "line far into a file", where, "%s: token %d is on line %s instead of %s" % (name, i, [k + z if isinstance(z, int) else z for z in y[1]], [k + z if z is not None else z for z in x[1]])))
                bad = True
            elif y[0] is not x[0]:
                for q in ("C01", "C04") if script[i] == "g" else ("C04",):
                    res.append((q, "token far into a file", where, "%s: token %d is %s instead of %s" % (name, i, show(y[0])[:200], show(x[0])[:200])))
                bad = True
            if bad:
                break
        n_ok += not bad
    return res, n_ok, 0, set(), 0


_G = {}


def work(i):
    try:
        sc = _G["todo"][i]
        return i, judge_far(_G["world"], sc[1:]) if sc[0] == "far" else judge(_G["world"], sc)
    except Budget as ex:
        return i, ("stop", str(ex))
    except Exception as ex:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return i, ("stop", "%s: %s" % (type(ex).__name__, ex))


def relevant(pid, sc):
    fam, spec, script = sc
    if pid == "C04":
        return True
    if pid == "C03":
        return any(isinstance(x, int) and x in b" \t\r\n;" or not isinstance(x, int) for x in spec)
    return True


def check(cx):
    astb.setup(cx.world)
    run(cx, [("far",) + t for t in TAILS if cx.pid != "C03"] + [s for s in families(cx.tier == "thorough") if relevant(cx.pid, s)])


def run(cx, todo):
    _G["world"], _G["todo"] = cx.world, todo
    cx.world.prelude
    for n in ("new", "get_token", "lookahead", "get_last_token_position"):
        body_of(cx.world, "LexicalAnalyzer", n)
    nf = 0
    for i, r in par.each(cx, work, len(todo), 4):
        name = "%s: %s" % (todo[i][0], repr(todo[i][1]) if todo[i][0] == "far" else shown(todo[i][1])[:80])
        cx.count("byte families analysed")
        if r[0] == "stop":
            cx.undec("%s: %s" % (name, r[1]))
            continue
        res, n_ok, n_un, why, k = r
        nf = max(nf, k)
        for q, key, where, txt in res:
            if q == cx.pid:
                cx.find(key, where, txt)
        cx.count("abstract paths decided", n_ok)
        if n_un:
            cx.undec("%s: %d paths (%s)" % (name, n_un, "; ".join(sorted(why))[:200]))
        else:
            cx.ok({"family": name, "decided": n_ok})
    cx.count("functions analysed", nf)
