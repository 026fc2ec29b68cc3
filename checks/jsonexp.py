"""C16: the Serialize implementations of the syntax tree and the root object of to_json."""
import absint, astb, stages
from astb import struct, enum, vec, nm
from terms import *
from seqs import *
from absint import Budget

# type -> (field, may be left out if None)
STRUCTS = {
    "DomainAST": "name types constants requirements predicates compound_tasks methods actions functions",
    "ProblemAST": "requirements init_tn init_state goal objects",
    "Symbol": "name name_pos symbol_type? type_pos?",
    "TokenPosition": "line",
    "Predicate": "name name_pos variables",
    "Function": "name name_pos variables",
    "Task": "name name_pos parameters",
    "Action": "name name_pos parameters preconditions effects",
    "Method": "name task task_terms params precondition tn",
    "InitialTaskNetwork": "parameters tn",
    "HTN": "subtasks ordering_pos orderings constraints",
    "Subtask": "id task terms",
}
ENUMS = {
    "Formula": {"Empty": 0, "Atom": 1, "Not": 1, "And": 1, "Or": 1, "Xor": 1, "Imply": 2, "Exists": 2, "ForAll": 2, "Weighted": 2, "Equals": 2},
    "Constraint": {"Equal": 2, "NotEqual": 2},
    "TaskOrdering": {"Total": 0, "Partial": 1},
    "NumberType": {"Integer": 1, "Real": 1},
    "RequirementType": None,
}
KNOWN = set(STRUCTS) | set(ENUMS)


def ser_bodies(world, pred):
    r = [b for b in world.lib.bodies.values() if b.name == "serialize" and b.kind == "fn" and b.trait and "Serialize" in b.trait and b.impl is not None
         and pred(world.lib.peel(b.impl).get("path", ""))]
    return r[0] if len(r) == 1 else None


def ser_body(world, ty):
    return ser_bodies(world, lambda p: p.split("::")[-1] == ty)


def inner(world, e, st, n):
    """what a value is exported as whose type is a helper of the export (serialize_with and the like)"""
    for _ in range(4):
        if n is None or n[0] != "of" or n[1].op != "adt" or n[1].a[0].split("::")[-1] in KNOWN:
            return n
        b = ser_bodies(world, lambda p: p == n[1].a[0])
        if b is None:
            return n
        e2 = engine(world)
        try:
            outs = e2.call_body(st.copy(), b, [n[1], mk("sym", "SERIALIZER")], 0)
        except Budget:
            return None
        if len(outs) != 1 or outs[0][0].taint or outs[0][0].lossy or outs[0][1].op != "adt" or outs[0][1].a[5] != "Ok":
            return None
        n = norm(e2, outs[0][0], outs[0][1].a[2][0])
    return n


def engine(world, but=None):
    e = absint.Eng(world, 20000)
    for other in KNOWN:
        if other != but:
            e.hooks[(other, "serialize")] = lambda call: call.ret(ok(mk("json", call.e.freeze(call.st, call.args[0]))))
    return e


def norm(e, st, v):
    """('obj', {k: v}) | ('str', s) | ('of', term) | None"""
    if v.op == "json":
        if len(v.a) > 1 and v.a[1] is not None:
            return ("scalar", v.a[1], e.deref(st, v.a[0]))
        return ("of", e.deref(st, v.a[0]))
    if v.op == "jdone":
        k, tag, items = v.a[0], v.a[1], v.a[2]
        if k in ("struct", "map"):
            d = {}
            for it in items:
                kk = it.a[0][0]
                if kk.op != "str":
                    return None
                d.setdefault(kk.a[0], []).append(norm(e, st, it.a[0][1]))
            return ("obj", d)
        if k == "unit_variant":
            return ("str", tag.a[0])
        if k == "newtype_variant":
            return ("obj", {tag.a[0]: [norm(e, st, items[0])]})
        if k == "tuple_variant":
            return ("obj", {tag.a[0]: [("list", [norm(e, st, x) for x in items])]})
        if k in ("seq", "tuple", "tuple_struct"):
            return ("list", [norm(e, st, x) for x in items])
    return None


def runs(cx, ty, v, name):
    b = ser_body(cx.world, ty)
    if b is None:
        cx.undec("%s: no unique Serialize implementation" % name)
        return
    e = engine(cx.world, ty)
    try:
        outs = e.call_body(absint.St(), b, [v, mk("sym", "SERIALIZER")], 0)
    except Budget as ex:
        cx.undec("%s: %s" % (name, ex))
        return
    cx.count("serialisations")
    at = "%s (%s)" % (b.short(), b.span)
    for st, r in outs:
        if st.taint or st.lossy or r.op != "adt":
            cx.undec("%s: %s" % (name, "; ".join(map(str, st.taint)) or show(r)[:100]))
            continue
        if r.a[5] == "Err":
            cx.find(name + ": error", at, "%s is not exported but gives an error" % name)
            continue
        n = norm(e, st, r.a[2][0])
        if n is None:
            cx.undec("%s: result not determined: %s" % (name, show(r)[:200]))
            continue
        yield e, st, n, at


def is_val(cx, e, st, n, x, kind=None):
    """is the json n that of the value x?"""
    n = inner(cx.world, e, st, n)
    if n is None:
        return None
    if n[0] == "scalar":
        if kind in ("list", "obj"):
            return False
        if kind is not None and kind != n[1]:
            return False if kind in ("num", "str") else None
        n = ("of", n[2])
    if n[0] == "list" and x.op == "coll" and all(k == "e" for k, _ in x.a[1]):
        if len(n[1]) != len(x.a[1]):
            return False
        rs = [is_val(cx, e, st, m, y) for m, (_, y) in zip(n[1], x.a[1])]
        return False if False in rs else None if None in rs else True
    if n[0] in ("list", "obj", "str") and kind is not None and kind != n[0]:
        return False
    if n[0] == "of":
        y = n[1]
        if y is x:
            return True
        if y.op == "str" and x.op == "str":
            return y is x
        a, b = set(leaves(y)), set(leaves(x))
        if a and b and not (a & b):
            return False
        return e.truth(st, eq(y, x))
    return None


def leaves(t):
    return [y for y in walk(t) if y.op in ("sym", "nm")]


def check(cx):
    astb.setup(cx.world)
    for ty, spec in STRUCTS.items():
        spec = spec.split()
        try:
            v = astb.info(ty)["variants"][0]
        except KeyError:
            cx.undec("no type " + ty)
            continue
        fields = v["fields"]
        have = [f[0] for f in fields]
        want = {s.rstrip("?"): s.endswith("?") for s in spec}
        opt = [f for f, t in fields if is_opt(cx.world, t)]
        for f in want:
            if f not in have:
                cx.undec("%s has no field %s" % (ty, f))
        vecs = [f for f, t in fields if kind_of(cx.world, t) == "list"]
        for mask in ([()] + [(o,) for o in opt] + ([tuple(opt)] if len(opt) > 1 else []) + ([0, 1, 3] if vecs else [])):
            size, mask = (mask, ()) if isinstance(mask, int) else (None, mask)
            vals = {}
            kinds = {f: kind_of(cx.world, t) for f, t in fields}
            for f in have:
                if f in opt:
                    vals[f] = NONE if f in mask else some(mk("sym", "%s.%s" % (ty, f)))
                elif size is not None and f in vecs:
                    vals[f] = vec(*[mk("sym", "%s.%s.%d" % (ty, f, i)) for i in range(size)])
                else:
                    vals[f] = mk("sym", "%s.%s" % (ty, f))
            name = ty + (" without " + ", ".join(mask) if mask else "") + (" with %d elements" % size if size is not None else "")
            for e, st, n, at in runs(cx, ty, struct(ty, **vals), name):
                good = True
                if n[0] != "obj":
                    cx.find(name + ": no object", at, "%s is exported as %s instead of an object with its fields" % (name, n[0]))
                    continue
                d = n[1]
                for f, omit in want.items():
                    if f not in vals:
                        good = False
                        continue
                    absent = omit and vals[f] is NONE
                    if f not in d:
                        if not absent:
                            facts = "; ".join("%s is %s" % (show(k)[:80], b) for k, b in st.facts.items()) + "; ".join(
                                "%s is %s" % (show(k)[:80], "/".join(b)) for k, b in st.dom.items())
                            cx.find("%s.%s missing" % (ty, f), at, "the export of %s has no member '%s'%s" % (name, f, " when " + facts if facts else ""))
                            good = False
                        continue
                    if absent:
                        cx.find("%s.%s present" % (ty, f), at, "the export of %s has a member '%s' although it is absent" % (name, f))
                        good = False
                        continue
                    if len(d[f]) != 1:
                        cx.find("%s.%s repeated" % (ty, f), at, "the export of %s has the member '%s' more than once" % (name, f))
                        good = False
                        continue
                    t = is_val(cx, e, st, d[f][0], vals[f], kinds[f] if vals[f].op != "coll" else "list")
                    if t is False:
                        cx.find("%s.%s wrong" % (ty, f), at, "the export of %s has under '%s' %s" % (name, f, show(d[f][0][1])[:100]))
                    elif t is None:
                        cx.undec("%s: value of '%s' not determined: %s" % (name, f, str(d[f][0])[:100]))
                    good = good and t is True
                if good:
                    cx.ok({"type": name, "members": sorted(d)})
    for ty, spec in ENUMS.items():
        seen = {}
        try:
            vs = astb.info(ty)["variants"]
        except KeyError:
            cx.undec("no type " + ty)
            continue
        for v in vs:
            name = "%s::%s" % (ty, v["name"])
            if spec is not None and spec.get(v["name"]) != len(v["fields"]):
                cx.undec("%s is new" % name)
                continue
            vals = [mk("sym", "%s.%d" % (name, i)) for i in range(len(v["fields"]))]
            for e, st, n, at in runs(cx, ty, enum(ty, v["name"], *vals), name):
                good = True
                if not vals:
                    tag = n[1] if n[0] == "str" else None
                    if tag is None:
                        cx.undec("%s: %s" % (name, str(n)[:100]))
                        continue
                else:
                    if n[0] != "obj" or len(n[1]) != 1:
                        got = str(n)
                        if not all(any(y is x for y in flat_json(n)) for x in vals):
                            cx.find(name + ": lost", at, "the export of %s does not contain all of its parts: %s" % (name, got[:150]))
                        else:
                            cx.undec("%s: %s" % (name, got[:100]))
                        continue
                    tag, inner = list(n[1].items())[0]
                    inner = inner[0]
                    els = inner[1] if inner is not None and inner[0] == "list" else [inner]
                    if len(els) != len(vals):
                        cx.find(name + ": parts", at, "the export of %s has %d parts instead of %d" % (name, len(els), len(vals)))
                        continue
                    for i, (x, y) in enumerate(zip(els, vals)):
                        t = is_val(cx, e, st, x, y)
                        if t is False:
                            cx.find("%s: part %d" % (name, i), at, "part %d of the export of %s is %s" % (i, name, str(x)[:100]))
                        elif t is None:
                            cx.undec("%s: part %d not determined" % (name, i))
                        good = good and t is True
                if spec is not None and tag != v["name"]:
                    cx.find(name + ": tag", at, "%s is exported as '%s'" % (name, tag))
                    good = False
                if tag in seen:
                    cx.find(name + ": like " + seen[tag], at, "%s and %s are both exported as '%s'" % (name, seen[tag], tag))
                    good = False
                seen[tag] = name
                if good:
                    cx.ok({"type": name, "tag": tag})
    # the tree itself
    for k, ty in (("Domain", "DomainAST"), ("Problem", "ProblemAST")):
        x = mk("sym", ty)
        for e, st, n, at in runs(cx, "AbstractSyntaxTree", enum("AbstractSyntaxTree", k, x), "AbstractSyntaxTree::" + k):
            t = is_val(cx, e, st, n, x)
            if t is False or n[0] == "obj":
                cx.find("AbstractSyntaxTree::" + k, at, "the tree of a %s is exported as %s" % (k.lower(), str(n)[:100]))
            elif t is None:
                cx.undec("AbstractSyntaxTree::%s: %s" % (k, str(n)[:100]))
            else:
                cx.ok({"type": "AbstractSyntaxTree::" + k})
    root(cx)


def flat_json(n):
    if n is None:
        return []
    if n[0] == "of":
        return [n[1]]
    if n[0] == "list":
        return [y for x in n[1] for y in flat_json(x)]
    if n[0] == "obj":
        return [y for xs in n[1].values() for x in xs for y in flat_json(x)]
    return []


def kind_of(world, t):
    """list / num / str / None: the JSON kind of the values of a type"""
    ty = world.lib.types[t] if isinstance(t, int) else t
    while ty["k"] == "ref":
        ty = world.lib.types[ty["to"]]
    if ty["k"] == "adt":
        n = ty["path"].split("::")[-1]
        return "list" if n in ("Vec", "VecDeque", "HashSet", "BTreeSet", "LinkedList") else "str" if n == "String" else None
    if ty["k"] == "num":
        return "num"
    return "str" if ty["k"] == "str" else None


def is_opt(world, t):
    ty = world.lib.types[t] if isinstance(t, int) else t
    return ty["k"] == "adt" and ty["path"] == OPT


def root(cx):
    if not stages.have(cx, stages.STAGES[:1]):
        return
    for problem in (False, True):
        name = "to_json " + ("with" if problem else "without") + " a problem"
        ch = {"parse DOMAIN": "domain", "parse PROBLEM": "problem", "verify_domain": "ok", "verify_problem": "ok"}
        try:
            r = stages.Stage(cx.world, "to_json", ch, problem)
        except (Budget, KeyError) as ex:
            cx.undec("%s: %s" % (name, ex))
            continue
        at = "HDDLAnalyzer::to_json (%s)" % r.body.span
        for st, v in r.outs:
            if st.taint or st.lossy or v.op != "adt" or v.a[5] != "Ok" or v.a[2][0].op != "json":
                cx.undec("%s: %s" % (name, "; ".join(map(str, st.taint)) or "result not determined: " + show(v)[:100]))
                continue
            x = r.e.deref(st, v.a[2][0].a[0])
            d = members(cx, r.e, st, x)
            if d is None:
                cx.undec("%s: root not determined: %s" % (name, show(x)[:200]))
                continue
            good = True
            for k, want in (("domain", r.D), ("problem", r.P))[:2 if problem else 1]:
                got = d.pop(k, None)
                if got is None:
                    cx.find("%s: no %s" % (name, k), at, "%s gives an object without the member '%s'" % (name, k))
                    good = False
                    continue
                got = r.e.deref(st, got)
                while got.op == "box" or (got.op == "adt" and got.a[5] == "Some" and got.a[0] == OPT):
                    got = r.e.deref(st, got.a[0] if got.op == "box" else got.a[2][0])
                if got.op == "adt" and got.a[0].endswith("AbstractSyntaxTree"):
                    got = r.e.deref(st, got.a[2][0])
                if got is not want:
                    if got.op == "adt" and got.a[0].split("::")[-1] in ("DomainAST", "ProblemAST"):
                        cx.find("%s: %s" % (name, k), at, "%s has under '%s' a tree that is not that of the %s: %s" % (name, k, k, show(got)[:200]))
                    else:
                        cx.undec("%s: '%s' not determined: %s" % (name, k, show(got)[:200]))
                    good = False
            if good:
                cx.ok({"case": name})


def members(cx, e, st, x):
    if x.op == "coll" and x.a[0] == "map" and all(k == "e" for k, _ in x.a[1]):
        d = {}
        for _, p in x.a[1]:
            k = e.deref(st, p.a[0][0])
            if k.op != "str":
                return None
            d[k.a[0]] = p.a[0][1]
        return d
    if x.op == "adt":
        b = ser_body(cx.world, x.a[0].split("::")[-1])
        if b is None:
            return None
        e2 = absint.Eng(cx.world, 20000)
        outs = e2.call_body(absint.St(), b, [x, mk("sym", "SERIALIZER")], 0)
        if len(outs) != 1 or outs[0][0].taint or outs[0][0].lossy:
            return None
        n = norm(e2, outs[0][0], outs[0][1].a[2][0])
        if n is None or n[0] != "obj":
            return None
        return {k: v[0][1] for k, v in n[1].items() if v[0] is not None and v[0][0] == "of"}
    return None
