"""Sequences: explicit elements and summarised runs of unknown length.

coll(kind, parts): parts are ("e", x) or ("s", Q) with Q one of
  R                 an opaque term: all elements of that unknown sequence
  slice(R, a, b)    the elements a..b of it
  gmap(Q, ev, t)    t(x) for every element x of Q, in order
  gsub(Q, ev, t)    t(x) for some elements x of Q, in order
"""
from terms import *
import terms

DUMMY = mk("sym", "_")
EV = mk("ev", 0)


def has(t, x):
    return any(y is x for y in walk(t))


def slice_(R, a, b):
    if R.op == "slice":
        return slice_(R.a[0], add(R.a[1], a), add(R.a[1], b))
    if R.op == "gmap":
        return gmap(slice_(R.a[0], a, b), R.a[1], R.a[2])
    if R.op == "coll":
        if a.op == "int" and b.op == "int" and all(k == "e" for k, x in R.a[1]):
            return mk("coll", R.a[0], R.a[1][a.a[0]:b.a[0]])
        if a.op == "int" and a.a[0] == 0 and b is length(R):
            return R
        if a.op == "int" and b is length(R) and len(R.a[1]) >= a.a[0] and all(k == "e" for k, x in R.a[1][:a.a[0]]):
            return coll(R.a[0], R.a[1][a.a[0]:])
        return mk("slice", R, a, b)
    if R.op == "str" and a.op == "int" and b.op == "int":
        return S(R.a[0][a.a[0]:b.a[0]])
    if a is b:
        return EMPTY
    if a.op == "int" and a.a[0] == 0 and b is length(R):
        return R
    return mk("slice", R, a, b)


def gmap(Q, ev, t, exact=True):
    if t is ev and exact:
        return Q
    if Q.op == "coll":
        out = []
        for k, x in Q.a[1]:
            if k == "e":
                if exact:
                    out.append(("e", subst(t, {ev: x})))
                else:
                    out.append(("s", mk("gsub", mk("coll", "vec", (("e", x),)), ev, t)))
            else:
                out.append(("s", gmap(x, ev, t, exact)))
        return coll("vec", out)
    if Q.op == "gmap":
        return gmap(Q.a[0], Q.a[1], subst(t, {ev: Q.a[2]}), exact)
    if Q.op == "gsub":
        return gmap(Q.a[0], Q.a[1], subst(t, {ev: Q.a[2]}), False)
    return mk("gmap" if exact else "gsub", Q, ev, t)


def base_slice(Q):
    """(R, a, b) of the run a summary walks over"""
    if Q.op == "slice":
        return Q.a
    return (Q, I(0), length(Q))


def coll(kind, parts):
    out = []
    for k, x in parts:
        if k == "s" and x.op == "coll":
            out.extend(x.a[1])
        elif k == "s" and x.op == "slice" and x.a[1] is x.a[2]:
            continue
        else:
            out.append((k, x))
    # merge adjacent runs over the same sequence
    i = 0
    while i + 1 < len(out):
        m = _merge(out[i], out[i + 1])
        if m is not None:
            out[i:i + 2] = [m]
            if i:
                i -= 1
        else:
            i += 1
    if kind == "vec" and len(out) == 1 and out[0][0] == "s" and out[0][1].op in ("gmap", "slice"):
        return out[0][1]
    if kind == "vec" and len(out) == 1 and out[0][0] == "s" and out[0][1].op not in ("gsub",):
        return out[0][1]
    return mk("coll", kind, tuple(out))


def _run(x):
    """summary -> (R, a, b, ev, t, op)"""
    if x.op in ("gmap", "gsub"):
        R, a, b = base_slice(x.a[0])
        return R, a, b, x.a[1], x.a[2], x.op
    R, a, b = base_slice(x)
    return R, a, b, EV, EV, "gmap"


def _merge(p, q):
    if p[0] != "s":
        return None
    R, a, b, ev, t, op = _run(p[1])
    if q[0] == "e":
        if op == "gmap" and q[1] is subst(t, {ev: elem(R, b)}):
            nb = add(b, I(1))
            return ("s", gmap(slice_(R, a, nb), ev, t))
        return None
    R2, a2, b2, ev2, t2, op2 = _run(q[1])
    if R2 is R and a2 is b and t2 is t and op2 == op:
        return ("s", gmap(slice_(R, a, b2), ev, t, op == "gmap"))
    return None


def parts_of(C):
    if C.op == "coll":
        return C.a[1]
    return (("s", C),)


EMPTY = mk("coll", "vec", ())


_plain = {}


def plain(C):
    """are all parts of the collection single elements?"""
    r = _plain.get(C)
    if r is None:
        r = _plain[C] = all(k == "e" for k, x in C.a[1])
    return r


def length(C):
    if C.op == "coll":
        if plain(C):
            return I(len(C.a[1]))
        if C.a[0] in ("set", "map"):
            if all(k == "e" for k, x in C.a[1]):
                return I(len(C.a[1]))
            return mk("len", C)
        r = I(0)
        for k, x in C.a[1]:
            r = add(r, I(1) if k == "e" else length(x))
        return r
    if C.op == "gmap":
        return length(C.a[0])
    if C.op == "slice":
        return sub(C.a[2], C.a[1])
    if C.op == "bstr":
        return I(len(C.a[0]))
    if C.op == "str":
        return I(len(C.a[0].encode()))
    return mk("len", C)


def elem(C, i):
    if C.op == "coll":
        ps = C.a[1]
        if i.op == "int" and plain(C):
            return ps[i.a[0]][1] if 0 <= i.a[0] < len(ps) else mk("el", C, i)
        off = I(0)
        for n, (k, x) in enumerate(ps):
            if k == "e":
                if off is i:
                    return x
                off = add(off, I(1))
            else:
                d = sub(i, off)
                if d.op == "int" and d.a[0] < 0:
                    break
                if n == len(ps) - 1:
                    if off.op == "int":
                        return elem(x, d)
                off = add(off, length(x))
        return mk("el", C, i)
    if C.op == "gmap":
        return subst(C.a[2], {C.a[1]: elem(C.a[0], i)})
    if C.op == "gsub":
        return subst(C.a[2], {C.a[1]: elem(C.a[0], mk("idx", C, i))})
    if C.op == "slice":
        return elem(C.a[0], add(C.a[1], i))
    if C.op == "bytes":
        pass
    return mk("el", C, i)


R_ = terms._rebuilders
R_["coll"] = lambda kind, parts: coll(kind, parts)
R_["gmap"] = lambda Q, ev, t: gmap(Q, ev, t)
R_["gsub"] = lambda Q, ev, t: gmap(Q, ev, t, False)
R_["slice"] = lambda R, a, b: slice_(R, a, b)
R_["len"] = lambda C: length(C)
R_["el"] = lambda C, i: elem(C, i)


def cat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            out.extend(p.a[0])
        else:
            out.append(p)
    r = []
    for p in out:
        if p.op == "str" and r and r[-1].op == "str":
            r[-1] = S(r[-1].a[0] + p.a[0])
        elif p.op == "str" and p.a[0] == "":
            continue
        else:
            r.append(p)
    if not r:
        return S("")
    if len(r) == 1:
        return r[0]
    return mk("cat", tuple(r))


R_["cat"] = lambda parts: cat(parts)
