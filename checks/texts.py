"""C26: the Display implementations of errors, warnings and tokens, interpreted on values whose data are symbols."""
import re
import absint, astb
from astb import struct, enum, vec, nm, pos
from terms import *
from seqs import *
from absint import Budget

L, E, F, SYM, V2 = "‹line›", "‹expected›", "‹found›", "‹symbol›", "‹second›"


class FakeCall:
    """what models.display needs of a call"""
    def __init__(self, e, st, prog):
        self.e, self.st = e, st

        class Fr:
            depth = 0
            body = None
            fid = 0
        self.fr = Fr()


def texts(world, v, steps=60000):
    """[(state, text)], engine"""
    import models
    e = absint.Eng(world, steps)
    st = absint.St()
    return models.display(FakeCall(e, st, world.lib), st, v, None, world.lib), e


def flat(t, names):
    """a string in which the symbols appear under their names; None if something is not a text of the data"""
    out = []
    for x in (t.a[0] if t.op == "cat" else (t,)):
        if x.op == "str":
            out.append(x.a[0])
            continue
        if x.op == "disp":
            x = x.a[0]
        if x.op == "padded":
            y = x.a[0].a[0] if x.a[0].op == "disp" else x.a[0]
            x = mk("cut", y) if not x.a[1].endswith("None)") and y.op == "nm" else y
        if x.op == "cut" or x.op == "sfn" and x.a[0].startswith("to_") and x.a[0].endswith("case") and x.a[1] in names:
            # not the datum, but its capitals, small letters or beginning
            out.append("(a changed text)")
            continue
        n = names.get(x)
        if n is None:
            return None
        out.append(n)
    return "".join(out)


def where(world, ty):
    for b in world.lib.bodies.values():
        if b.trait and "fmt::Display" in b.trait and b.impl is not None and world.lib.peel(b.impl).get("path", "").split("::")[-1] == ty:
            return "%s (%s)" % (b.short(), b.span)
    return ty


def num(n):
    return mk("sym", n)


def P(n):
    return struct("TokenPosition", line=num(n))


def semantic():
    sym = nm("S")
    und = lambda: struct("UndefinedSymbolError", symbol=sym, position=P("L"))
    dup = lambda: struct("DuplicateError", symbol=sym, first_pos=P("L"), second_pos=P("L2"))
    ar = lambda: struct("ArityError", symbol=sym, expected_arity=num("E"), found_arity=num("F"), position=P("L"))
    names = {sym: SYM, num("L"): L, num("L2"): V2, num("E"): E, num("F"): F, nm("TE"): E, nm("TF"): F}

    def ty(a, b):
        return struct("TypeError", expected=NONE if a is None else some(nm(a)), found=NONE if b is None else some(nm(b)), var_name=sym, position=P("L"))
    UNDEF = r"(?i)not (been )?(defined|declared)|undefined|undeclared|unknown"
    DUP = r"(?i)redefin|redeclar|again|twice|duplicate|more than once|already"
    EXP = r"(?i)(takes?|expect\w*|needs?|requires?|has|should have)\b[^‹]*" + E
    FND = r"(?i)(but|found|given|got|instead)\b[^‹]*" + F + r"|" + F + r"[^‹]*(given|found|got|provided)"
    out = []
    for n, w in (("UndefinedPredicate", "predicate"), ("UndefinedType", "type"), ("UndefinedSubtask", "subtask"), ("UndefinedTask", "task"),
                 ("UndefinedParameter", "parameter"), ("UndefinedObject", "object")):
        out.append((n, [und()], [L, SYM], [("line", r"line\W*" + L), ("kind", r"(?i)\b%s\b" % w), ("problem", UNDEF)], []))
    for n, w in (("DuplicateObjectDeclaration", "object"), ("DuplicatePredicateDeclaration", "predicate"), ("DuplicateActionDeclaration", "action"),
                 ("DuplicateCompoundTaskDeclaration", "compound task"), ("DuplicateMethodDeclaration", "method"), ("DuplicateParameterDeclaration", "parameter")):
        out.append((n, [dup()], [L, V2, SYM], [("kind", r"(?i)\b%s\b" % w), ("problem", DUP)], [("order", L, V2, r"(?i)first[^‹]*" + L + r".*" + V2)]))
    for n, w in (("InconsistentPredicateArity", "predicate"), ("InconsistentTaskArity", "task")):
        out.append((n, [ar()], [L, SYM, E, F], [("line", r"line\W*" + L), ("kind", r"(?i)\b%s\b" % w)], [("roles", E, F, "(?i)(?=.*(?:%s))(?=.*(?:%s))" % (EXP[4:], FND[4:]))]))
    for n in ("InconsistentPredicateArgType", "InconsistentTaskArgType"):
        out.append((n, [ty("TE", "TF")], [L, SYM, E, F], [("line", r"line\W*" + L), ("kind", r"(?i)type")], [("roles", E, F, "(?i)(?=.*(?:%s))(?=.*(?:%s))" % (EXP[4:], FND[4:]))]))
        out.append((n, [ty("TE", None)], [L, SYM, E], [("line", r"line\W*" + L), ("kind", r"(?i)type"), ("expected", EXP), ("nothing found", r"(?i)\b(not?|none|nothing|untyped|without)\b")], []))
        out.append((n, [ty(None, "TF")], [L, SYM, F], [("line", r"line\W*" + L), ("kind", r"(?i)type"), ("found", FND), ("nothing expected", r"(?i)\b(no|none|not|nothing|untyped|without)\b")], []))
    out.append(("CyclicTypeDeclaration", [], [], [("kind", r"(?i)type"), ("problem", r"(?i)cycl")], []))
    out.append(("CyclicOrderingDeclaration", [P("L")], [L], [("line", r"line\W*" + L), ("kind", r"(?i)order"), ("problem", r"(?i)cycl")], []))
    return out, names, DUP


def judge(cx, label, ty, v, data, rules, roles, names, seen=None):
    try:
        outs, e = texts(cx.world, v)
    except Budget as ex:
        cx.undec("%s: %s" % (label, ex))
        return None
    cx.count("values displayed")
    cx.count("functions analysed", len(e.functions))
    at = where(cx.world, ty)
    good, res = True, None
    for st, stk, sp, what in e.panics:
        if not st.taint and not st.lossy:
            cx.find("%s: panic" % label, "%s (%s)" % (stk[-1].short() if stk else at, sp), "displaying %s panics (%s)" % (label, what))
            good = False
    for st, t in outs:
        if st.taint or st.lossy:
            cx.undec("%s: imprecise" % label)
            good = False
            continue
        s = flat(t, names)
        if s is None:
            bad = [x for x in walk(t) if x.op in ("sym", "nm") and x not in names]
            cx.undec("%s: text not determined: %s" % (label, show(t)[:200]))
            good = False
            continue
        res = s
        for d in data:
            if d not in s:
                cx.find("%s: %s missing" % (label, d.strip("‹›")), at, "the message of %s does not state its %s: %s" % (label, d.strip("‹›"), s))
                good = False
        for k, rx in rules:
            if not re.search(rx, s):
                cx.find("%s: %s" % (label, k), at, "the message of %s does not state the %s: %s" % (label, k, s))
                good = False
        for k, a, b, rx in roles:
            if not re.search(rx, s):
                sw = s.replace(a, "\0").replace(b, a).replace("\0", b)
                if re.search(rx, sw):
                    cx.find("%s: %s" % (label, k), at, "the message of %s confuses %s and %s: %s" % (label, a, b, s))
                    good = False
                elif a in s and b in s:
                    cx.undec("%s: wording not recognised: %s" % (label, s))
                    good = False
        if seen is not None:
            o = seen.get(s)
            if o is not None and o != label:
                cx.find("%s like %s" % (label, o), at, "%s and %s have the same message: %s" % (label, o, s))
                good = False
            seen[s] = label
    if good:
        cx.ok({"value": label, "text": res})
    return res


def check(cx):
    astb.setup(cx.world)
    spec, names, DUP = semantic()
    have = {v["name"] for v in astb.info("SemanticErrorType")["variants"]}
    for n, args, data, rules, roles in spec:
        if n not in have:
            cx.undec("no error kind " + n)
            continue
        v = enum("ParsingError", "Semantic", enum("SemanticErrorType", n, *args))
        label = n + ("" if len(args) != 1 or "Arg" not in n else " (%s)" % ", ".join(d.strip("‹›") for d in data[2:]))
        judge(cx, label, "SemanticErrorType", v, data, rules, roles, names)
    reqs = {}
    for r in astb.info("RequirementType")["variants"]:
        q = enum("RequirementType", r["name"])
        t = judge(cx, "requirement " + r["name"], "RequirementType", q, [], [("colon", "^:")], [], names, reqs)
        if t:
            judge(cx, "DuplicateRequirementDeclaration " + r["name"], "SemanticErrorType", enum("ParsingError", "Semantic", enum(
                "SemanticErrorType", "DuplicateRequirementDeclaration", q)), [t], [("kind", "(?i)requirement"), ("problem", DUP)], [], names)
    # lexical and syntactic errors
    lx, q = nm("LX"), {}
    n2 = {lx: SYM, num("L"): L, nm("EX"): E, nm("FO"): F}
    for k, rx in (("InvalidIdentifier", "(?i)identifier"), ("InvalidKeyword", "(?i)keyword"), ("InvalidRealNumber", "(?i)number")):
        v = enum("ParsingError", "Lexiacal", struct("LexicalError", error_type=enum("LexicalErrorType", k), lexeme=lx, position=P("L")))
        judge(cx, k, "LexicalError", v, [L, SYM], [("line", r"line\W*" + L), ("kind", rx), ("problem", "(?i)invalid|malformed|illegal|unknown")], [], n2, q)
    v = enum("ParsingError", "Syntactic", struct("SyntacticError", expected=nm("EX"), found=nm("FO"), position=P("L")))
    judge(cx, "SyntacticError", "SyntacticError", v, [L, E, F], [("line", r"line\W*" + L)], [("roles", E, F, r"(?i)(?=.*expect\w*[^‹]*" + E + r")(?=.*(but|found|got)[^‹]*" + F + ")")], n2, q)
    # warnings
    n3 = {nm("S"): SYM, num("L"): L}
    q = {}
    for w in astb.info("WarningType")["variants"]:
        n = w["name"]
        kind = {"ImmutablePredicate": "predicate", "NoPrimitiveRefinement": "task", "UnusedType": "type", "UnusedPredicate": "predicate", "UnusedParameter": "parameter"}.get(n)
        rules = [("kind", r"(?i)\b%s\b" % kind)] if kind else []
        data, args = [], []
        for fn, fty in w["fields"]:
            t = cx.world.lib.types[fty] if isinstance(fty, int) else fty
            if t.get("k") == "adt" and t["path"].endswith("WarningInfo"):
                args.append(struct("WarningInfo", symbol=nm("S"), position=P("L")))
                data += [SYM, L]
                rules.append(("line", r"line\W*" + L))
            else:
                args.append(nm("S"))
                data.append(SYM)
        judge(cx, "warning " + n, "WarningType", enum("WarningType", n, *args), data, rules, [], n3, q)
    # tokens, as syntax errors show them
    import lexing
    inv = {}
    for d, k in ((lexing.KEYWORDS, "KeywordName"), (lexing.PLAIN, "KeywordName"), (lexing.REQS, "RequirementType"), (lexing.OPS, "OperationType")):
        for w, n in d.items():
            inv.setdefault((k, n), set()).add(w)
    for w, n in (("=", "Equal"), ("<", "LessThan"), (">", "GreaterThan"), ("<=", "LessThanOrEqual"), (">=", "GreaterThanOrEqual")):
        inv[("OperationType", n)] = {w}
    for w, n in (("-", "Dash"), ("(", "LParentheses"), (")", "RParentheses")):
        inv[("PunctuationType", n)] = {w}
    q = {}
    for tv, k in (("Keyword", "KeywordName"), ("Operator", "OperationType"), ("Punctuator", "PunctuationType"), ("Requirement", "RequirementType")):
        for x in astb.info(k)["variants"]:
            ws = inv.get((k, x["name"]))
            if not ws:
                continue
            rx = "|".join(r"(?<![\w-])" + re.escape(w).replace("sub", r"\(?(sub)?\)?") + r"(?![\w-])" if w[0].isalpha() else r"(?<![<>=])" + re.escape(w) + r"(?![<>=])" for w in sorted(ws))
            judge(cx, "token %s::%s" % (tv, x["name"]), k, enum("Token", tv, enum(k, x["name"])), [], [("spelling", rx)], [], {}, q)
    judge(cx, "token Identifier", "Token", enum("Token", "Identifier", nm("S")), [SYM], [], [], n3, q)
    for k in ("Integer", "Real"):
        judge(cx, "token Number::" + k, "NumberType", enum("Token", "Number", enum("NumberType", k, num("L"))), [L], [], [], n3)
    judge(cx, "token EOF", "Token", enum("Token", "EOF"), [], [("end of file", r"(?i)end|eof")], [], {}, q)


def values(world, t, depth, n=None):
    """representative values of a type; all names and numbers are symbols"""
    prog = world.lib
    ty = prog.types[t] if isinstance(t, int) else t
    while ty["k"] == "ref":
        ty = prog.types[ty["to"]]
    values.n = k = getattr(values, "n", 0) + 1
    if ty["k"] == "str":
        return [nm("n%d" % k)]
    if ty["k"] == "tuple":
        vs = [values(world, x, depth) for x in ty["args"]]
        return [tup(*[v[0] for v in vs])] if all(vs) else []
    if ty["k"] != "adt":
        return [mk("sym", "v%d" % k)]
    last = ty["path"].split("::")[-1]
    args = [a for a in ty.get("args", []) if isinstance(a, int)]
    if last in ("Box", "Rc", "Arc"):
        return [mk("box", x) for x in values(world, args[0], depth)]
    if last == "Vec":
        xs = values(world, args[0], depth)
        return [vec()] + [vec(x) for x in xs[:12]] + ([vec(xs[0], xs[-1]), vec(*xs[:3])] if xs else [])
    if last == "Option":
        return [NONE] + [some(x) for x in values(world, args[0], depth)[:1]]
    if last == "String":
        return [nm("n%d" % k)]
    if depth == 0 and last == "Formula":
        return [enum("Formula", "Empty")]
    try:
        vs = astb.info(last)["variants"]
    except KeyError:
        return [mk("sym", "v%d" % k)]
    out = []
    for v in vs:
        fs = [values(world, ft, depth - (last == "Formula")) for _, ft in v["fields"]]
        if not all(fs):
            continue
        base = [x[0] for x in fs]
        mks = (lambda *xs: enum(last, v["name"], *xs)) if len(vs) > 1 else (lambda *xs: struct(last, **{f: x for (f, _), x in zip(v["fields"], xs)}))
        rows = [base] + [base[:i] + [x] + base[i + 1:] for i in range(len(fs)) for x in fs[i][1:20]]
        rows.append([x[-1] for x in fs])
        for r in rows:
            x = mks(*r)
            if x not in out:
                out.append(x)
    return out if len(out) < 40 else out[:40:2] + out[40::max(1, len(out) // 30)]


def shown_types(cx):
    """the types of the syntax tree that have a text, shown with representative values (C22: panics count)"""
    import jsonexp
    astb.setup(cx.world)
    w = cx.world
    for b in w.lib.bodies.values():
        if b.trait and ("fmt::Display" in b.trait or b.trait.endswith("ToString")) and b.impl is not None:
            ty = w.lib.peel(b.impl).get("path", "").split("::")[-1]
            if ty not in astb._paths or ty not in jsonexp.KNOWN:
                continue
            values.n = 0
            for v in values(w, w.lib.peel(b.impl), 2):
                cx.count("values displayed")
                try:
                    texts(w, v) if "Display" in b.trait else absint.Eng(w, 60000).call_body(absint.St(), b, [v], 0)
                except Budget as ex:
                    cx.undec("%s: %s" % (ty, ex))
