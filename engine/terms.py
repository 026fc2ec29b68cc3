"""Hash-consed terms: the abstract values of the analysis."""
_tab = {}


class T:
    __slots__ = ("op", "a", "n", "h", "_roots", "_refs")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    # identity equality (interned)


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = len(_tab)
        t.h = hash(k)
        t._roots = None
        t._refs = None
        _tab[k] = t
    return t


def I(n):
    return mk("int", n)


def B(b):
    return mk("bool", bool(b))


def S(s):
    return mk("str", s)


UNIT = mk("tup", ())
TRUE, FALSE = B(True), B(False)


def adt(path, v, fields, names=(), vname=None):
    return mk("adt", path, v, tuple(fields), None, tuple(names), vname)


OPT = "std::option::Option"
RES = "std::result::Result"


def some(x):
    return adt(OPT, 1, (x,), ("0",), "Some")


NONE = adt(OPT, 0, (), (), "None")


def ok(x):
    return adt(RES, 0, (x,), ("0",), "Ok")


def err(x):
    return adt(RES, 1, (x,), ("0",), "Err")


def tup(*xs):
    return mk("tup", tuple(xs))


def is_const(t):
    return t.op in ("int", "bool", "str", "flt")


# ------------------------------------------------------------------ integers
def lin_of(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    it = [(t, k) for t, k in d.items() if k]
    if not it:
        return I(c)
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    it.sort(key=lambda x: x[0].n)
    return mk("lin", c, tuple(it))


def add(a, b, sg=1):
    c1, d1 = lin_of(a)
    c2, d2 = lin_of(b)
    for t, k in d2.items():
        d1[t] = d1.get(t, 0) + sg * k
    return mklin(c1 + sg * c2, d1)


def sub(a, b):
    return add(a, b, -1)


def ge0(t):
    if t.op == "int":
        return B(t.a[0] >= 0)
    return mk("ge0", t)


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(add(sub(b, a), I(-1)))


# ------------------------------------------------------------------ booleans
def neg(x):
    if x.op == "bool":
        return B(not x.a[0])
    if x.op == "not":
        return x.a[0]
    return mk("not", x)


def conj(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            out.extend(x.a[0])
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out))


def disj(*xs):
    return neg(conj(*[neg(x) for x in xs]))


def is_intish(t):
    return t.op in ("int", "lin", "len")


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return FALSE
    if a.op == "adt" and b.op == "adt":
        if a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return FALSE
            return conj(*[eq(x, y) for x, y in zip(a.a[2], b.a[2])])
    if a.op == "tup" and b.op == "tup" and len(a.a[0]) == len(b.a[0]):
        return conj(*[eq(x, y) for x, y in zip(a.a[0], b.a[0])])
    if a.op == "lin" or b.op == "lin" or (a.op == "int") or (b.op == "int"):
        c, d = lin_of(sub(a, b))
        if not d:
            return B(c == 0)
        it = sorted(d.items(), key=lambda x: x[0].n)
        t, k = it[0]
        if abs(k) == 1:
            rest = mklin(-c * k, {x: -kk * k for x, kk in it[1:]})
            return mk("eq", t, rest)
        return mk("eq0", mklin(c, d))
    if a.op == "bool":
        return b if a.a[0] else neg(b)
    if b.op == "bool":
        return a if b.a[0] else neg(a)
    if a.n > b.n:
        a, b = b, a
    return mk("eq", a, b)


# ------------------------------------------------------------------ traversal
def subst(t, m, memo=None):
    """replace sub-terms by m (a dict) and re-normalise"""
    if not m:
        return t
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, T):
            r = m.get(x)
            if r is not None:
                return r
            r = memo.get(x)
            if r is None:
                na = tuple(go(y) for y in x.a)
                same = all(p is q or (not isinstance(p, T) and p == q) for p, q in zip(na, x.a))
                r = x if same else rebuild(x.op, na)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            r = tuple(go(y) for y in x)
            return r if any(p is not q for p, q in zip(r, x)) else x
        return x
    return go(t)


_rebuilders = {}


def rebuild(op, na):
    f = _rebuilders.get(op)
    if f is not None:
        return f(*na)
    return mk(op, *na)


def _rb_lin(c, items):
    r = I(c)
    for t, k in items:
        for _ in range(abs(k)):
            r = add(r, t, 1 if k > 0 else -1)
    return r


_rebuilders["lin"] = _rb_lin
_rebuilders["eq"] = lambda a, b: eq(a, b)
_rebuilders["not"] = lambda a: neg(a)
_rebuilders["and"] = lambda xs: conj(*xs)
_rebuilders["ge0"] = lambda a: ge0(a)
_rebuilders["fld"] = lambda x, v, n: proj(x, v, None, n)


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)


_none = frozenset()


def refs(t):
    """the pointers and cells in a term"""
    r = t._refs
    if r is None:
        acc = None
        st = list(t.a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                y = refs(x)
                if y:
                    acc = y if acc is None or acc is y else acc | y
            elif isinstance(x, (tuple, frozenset)):
                st.extend(x)
        r = acc or _none
        if t.op in ("ptr", "cell"):
            r = r | {t}
        t._refs = r
    return r


ROOTOPS = ("tok", "jv", "lp", "sk", "fresh")


def roots(t):
    r = t._roots
    if r is None:
        if t.op in ROOTOPS:
            r = frozenset((t,))
            acc = set(r)
            for x in _kids(t.a):
                acc |= roots(x)
            r = frozenset(acc)
        else:
            acc = None
            for x in _kids(t.a):
                y = roots(x)
                if y:
                    acc = y if acc is None else acc | y
            r = frozenset() if acc is None else acc
        t._roots = r
    return r


def _kids(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _kids(x)


def proj(x, vname, i, name):
    """field `name` (index i) of variant vname ('' for structs and tuples)"""
    if x.op == "adt":
        names = x.a[4]
        if vname and x.a[5] != vname:
            return mk("bot", x, vname, name)
        if name in names:
            return x.a[2][names.index(name)]
        if i is None:
            return mk("bot", x, vname, name)
        if i < len(x.a[2]):
            return x.a[2][i]
        return mk("bot", x, vname, name)
    if x.op == "tup":
        k = i if i is not None else int(name)
        if k < len(x.a[0]):
            return x.a[0][k]
        return mk("bot", x, vname, name)
    if x.op == "clo":
        k = i if i is not None else int(name)
        return x.a[1][k]
    if x.op == "upd":
        if (x.a[1], x.a[2]) == (vname, name):
            return x.a[3]
        return proj(x.a[0], vname, i, name)
    if x.op == "optex" and vname == "Some":
        return subst(x.a[1], {x.a[0].a[3]: mk("the", x.a[2], x.a[0])})
    return mk("fld", x, vname, name)


def setfield(x, vname, i, name, v):
    if x.op == "adt":
        fs = list(x.a[2])
        k = x.a[4].index(name) if name in x.a[4] else i
        if k is None or k >= len(fs):
            return mk("upd", x, vname, name, v)
        fs[k] = v
        return adt(x.a[0], x.a[1], fs, x.a[4], x.a[5])
    if x.op == "tup":
        fs = list(x.a[0])
        fs[i] = v
        return mk("tup", tuple(fs))
    if x.op == "clo":
        fs = list(x.a[1])
        fs[i] = v
        return mk("clo", x.a[0], tuple(fs))
    if x.op == "upd" and (x.a[1], x.a[2]) == (vname, name):
        return setfield(x.a[0], vname, i, name, v)
    if v.op == "fld" and v.a[0] is x and v.a[1] == vname and v.a[2] == name:
        return x
    return mk("upd", x, vname, name, v)


# ------------------------------------------------------------------ printing
def show(t, depth=0):
    if isinstance(t, (tuple, frozenset)):
        return "(" + ",".join(show(x) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    o = t.op
    if o in ("int", "bool"):
        return str(t.a[0])
    if o == "str":
        return repr(t.a[0])
    if o == "lin":
        r = "+".join((show(x) if k == 1 else "%d*%s" % (k, show(x))) for x, k in t.a[1])
        return "(%s%s)" % (r, "%+d" % t.a[0] if t.a[0] else "")
    if o == "fld":
        return "%s.%s" % (show(t.a[0]), (t.a[1] + "." if t.a[1] else "") + str(t.a[2]))
    if o == "adt":
        n = t.a[0].split("::")[-1]
        nm = n + ("::" + t.a[5] if t.a[5] and t.a[5] != n else "")
        if n in ("Option", "Result"):
            nm = t.a[5]
        names = t.a[4] or [str(i) for i in range(len(t.a[2]))]
        if not t.a[2]:
            return nm
        return nm + "{" + ",".join("%s:%s" % (k, show(v)) for k, v in zip(names, t.a[2])) + "}"
    if o == "tup":
        return "(" + ",".join(show(x) for x in t.a[0]) + ")"
    if o == "el":
        return "%s[%s]" % (show(t.a[0]), show(t.a[1]))
    if o == "eq":
        return "%s==%s" % (show(t.a[0]), show(t.a[1]))
    if o == "ge0":
        return "%s>=0" % show(t.a[0])
    if o == "not":
        return "!(" + show(t.a[0]) + ")"
    if o == "sym":
        return str(t.a[0])
    if o in ("tok", "jv", "lp"):
        return o + "".join("_%s" % show(x) for x in t.a)
    if o == "cat":
        return "cat(" + "".join(x.a[0] if x.op == "str" else "{%s}" % show(x) for x in t.a[0]) + ")"
    if o == "coll":
        return "%s[%s]" % (t.a[0], ", ".join(("*" if k == "s" else "") + show(x) for k, x in t.a[1]))
    return o + "<" + ",".join(show(x) for x in t.a) + ">"
