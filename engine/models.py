"""Transfer functions of the library calls the analysed code makes."""
import json
from terms import *
from seqs import *
from seqs import _run as run_of
import itertools
from mir import strip_generics

MODELS = {}
_n = itertools.count(1)


def model(*paths):
    def d(f):
        for p in paths:
            MODELS[p] = f
        return f
    return d


def fresh(why="x"):
    return mk("fresh", why, next(_n))


def ident(call):
    return call.ret(call.val(0))


def keep(call):
    return call.ret(call.args[0])


# ------------------------------------------------------------------ identities
for p in ("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::borrow::Cow::into_owned",
          "std::borrow::Cow::to_owned", "std::string::String::as_str", "std::vec::Vec::as_slice",
          "std::convert::AsRef::as_ref", "std::string::String::into_boxed_str", "core::str::to_owned",
          "std::string::String::as_bytes", "core::str::as_bytes", "std::string::String::into_bytes",
          "std::option::Option::cloned", "std::option::Option::copied", "std::option::Option::as_deref",
          "std::option::Option::as_ref", "std::result::Result::as_ref", "std::iter::Iterator::cloned",
          "std::iter::Iterator::copied", "std::hint::must_use", "core::slice::to_vec", "std::slice::to_vec",
          "std::boxed::Box::new", "std::sync::Arc::new", "std::rc::Rc::new", "std::borrow::Borrow::borrow",
          "std::cell::RefCell::borrow", "std::string::String::into_string", "core::slice::into_vec",
          "std::slice::into_vec", "std::hint::black_box", "std::boxed::Box::pin", "std::pin::Pin::new",
          "std::vec::Vec::into_boxed_slice", "core::str::as_str", "std::path::Path::to_path_buf",
          "std::path::PathBuf::as_path", "std::iter::Iterator::fuse", "std::convert::identity",
          "std::boxed::Box::leak", "std::sync::Arc::clone", "core::fmt::rt::Placeholder::new"):
    MODELS[p] = ident


@model("std::option::Option::as_deref_mut")
def _adm(call):
    return None


@model("std::clone::Clone::clone")
def _clone(call):
    b = call.e.dispatch_local(call)
    if b is not None and not b.derived:
        return call.e.call_body(call.st, b, call.args, call.fr.depth + 1)
    return call.ret(call.val(0))


@model("std::ops::Deref::deref")
def _deref(call):
    v = call.val(0)
    return call.ret(v)


@model("std::ops::DerefMut::deref_mut", "std::convert::AsMut::as_mut", "std::borrow::BorrowMut::borrow_mut",
       "std::vec::Vec::as_mut_slice", "std::iter::Iterator::by_ref", "std::pin::Pin::new_unchecked",
       "std::pin::Pin::as_mut", "std::pin::Pin::get_mut", "std::pin::Pin::get_unchecked_mut", "std::boxed::Box::as_mut")
def _dm(call):
    p = call.args[0]
    b = call.e.dispatch_local(call) if call.c.get("trait") else None
    if b is not None:
        return call.e.call_body(call.st, b, call.args, call.fr.depth + 1)
    if p.op == "ptr":
        v = call.e.load(call.st, p.a[0], tuple(p.a[1]))
        if v.op == "ptr":       # a guard that holds the reference
            return call.ret(v)
    return call.ret(p)


@model("std::borrow::Borrow::borrow")
def _borrow(call):
    b = call.e.dispatch_local(call)
    if b is not None:
        return call.e.call_body(call.st, b, call.args, call.fr.depth + 1)
    return call.ret(call.val(0))


@model("std::mem::swap")
def _swap(call):
    a, b = call.args
    if a.op != "ptr" or b.op != "ptr":
        return None
    x, y = call.val(0), call.val(1)
    call.setp(a, y)
    call.setp(b, x)
    return call.ret(UNIT)


@model("std::mem::replace", "std::option::Option::replace")
def _replace(call):
    x = call.val(0)
    v = call.args[1]
    call.setp(call.args[0], some(v) if "Option" in call.path else v)
    return call.ret(x)


@model("std::mem::take")
def _take(call):
    x = call.val(0)
    ty, prog = call.ty(0)
    d = default_of(call.e, ty, prog) if ty else None
    if d is None:
        if is_collterm(x):
            d = coll(x.a[0] if x.op == "coll" else "vec", ())
        elif x.op in ("str", "cat"):
            d = S("")
        else:
            return None
    call.setp(call.args[0], d)
    return call.ret(x)


@model("std::mem::drop", "std::mem::forget")
def _drop(call):
    return call.ret(UNIT)


def is_collterm(x):
    return x.op in ("coll", "gmap", "gsub", "slice")


def default_of(e, ty, prog):
    k = ty["k"]
    if k == "bool":
        return FALSE
    if k == "num":
        return I(0)
    if k == "tuple":
        if not ty.get("args") and not ty.get("tys"):
            return UNIT
        return None
    if k == "str":
        return S("")
    if k == "ref":
        return default_of(e, prog.ty(ty["to"]), prog)
    if k == "slice":
        return EMPTY
    if k == "adt":
        p = ty["path"]
        if p.endswith("::Vec") or p.endswith("::VecDeque"):
            return EMPTY
        if p.endswith("::String"):
            return S("")
        if p.endswith("HashSet") or p.endswith("BTreeSet"):
            return coll("set", ())
        if p.endswith("HashMap") or p.endswith("BTreeMap"):
            return coll("map", ())
        if p.endswith("option::Option"):
            return NONE
    return None


@model("std::default::Default::default")
def _default(call):
    ty, prog = call.ty(0)
    if ty is None:
        return None
    d = default_of(call.e, ty, prog)
    return call.ret(d) if d is not None else None


@model("std::option::Option::unwrap_or_default", "std::result::Result::unwrap_or_default")
def _uod(call):
    ty, prog = call.ty(0)
    d = default_of(call.e, ty, prog) if ty else None
    if d is None:
        return None
    v = call.val(0)
    want = "Some" if "Option" in call.path else "Ok"
    out = []
    for st, vn in call.e.variant(call.st, v, OPT if "Option" in call.path else RES):
        out.append((st, proj(v, want, 0, "0") if vn == want else d))
    return out


# ------------------------------------------------------------------ constructors of containers
for p in ("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::VecDeque::new",
          "std::collections::VecDeque::with_capacity", "std::collections::LinkedList::new"):
    MODELS[p] = lambda call: call.ret(EMPTY)
for p in ("std::collections::HashSet::new", "std::collections::BTreeSet::new", "std::collections::HashSet::with_capacity"):
    MODELS[p] = lambda call: call.ret(coll("set", ()))
for p in ("std::collections::HashMap::new", "std::collections::BTreeMap::new", "std::collections::HashMap::with_capacity"):
    MODELS[p] = lambda call: call.ret(coll("map", ()))
for p in ("std::string::String::new", "std::string::String::with_capacity"):
    MODELS[p] = lambda call: call.ret(S(""))


@model("std::boxed::Box::new_uninit")
def _box_uninit(call):
    k = call.e.new_cell(call.st, mk("uninit"))
    return call.ret(mk("ptr", k, ()))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def _box_vec(call):
    v = call.val(0)
    while v.op == "upd":
        v = v.a[3]
    if v.op == "adt" and v.a[2]:
        v = v.a[2][0]
    return call.ret(v)


# ------------------------------------------------------------------ sequences
def kind_of(v):
    return v.a[0] if v.op == "coll" else "vec"


@model("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def _push(call):
    v = call.val(0)
    call.setp(call.args[0], coll("vec", tuple(parts_of(v)) + (("e", call.args[1]),)))
    return call.ret(UNIT)


@model("std::collections::VecDeque::push_front")
def _pushf(call):
    v = call.val(0)
    call.setp(call.args[0], coll("vec", (("e", call.args[1]),) + tuple(parts_of(v))))
    return call.ret(UNIT)


@model("std::vec::Vec::insert")
def _vinsert(call):
    v, i = call.val(0), call.args[1]
    ps = list(parts_of(v))
    if i.op == "int" and len(ps) >= i.a[0] and all(k == "e" for k, _ in ps[:i.a[0]]):
        ps.insert(i.a[0], ("e", call.args[2]))
        call.setp(call.args[0], coll("vec", ps))
        return call.ret(UNIT)
    if i is length(v):
        call.setp(call.args[0], coll("vec", ps + [("e", call.args[2])]))
        return call.ret(UNIT)
    return None


@model("std::vec::Vec::pop", "std::collections::VecDeque::pop_back")
def _pop(call):
    return pop_end(call, True)


@model("std::collections::VecDeque::pop_front")
def _popf(call):
    return pop_end(call, False)


def pop_end(call, back):
    v = call.val(0)
    if v.op in ("fresh", "ext", "uninit"):
        return None
    ps = list(parts_of(v))
    out = []
    work = [(call.st, ps)]
    while work:
        st, ps = work.pop()
        if not ps:
            call.setp(call.args[0], EMPTY, st)
            out.append((st, NONE))
            continue
        k, x = ps[-1] if back else ps[0]
        rest = ps[:-1] if back else ps[1:]
        if k == "e":
            call.setp(call.args[0], coll("vec", rest), st)
            out.append((st, some(x)))
            continue
        R, a, b, ev, t, op = run_of(x)
        for s2, empty in call.e.branch(st, eq(a, b)):
            if empty:
                work.append((s2, rest))
                continue
            if op == "gsub":
                s2.lossy = True
                call.setp(call.args[0], fresh("popped"), s2)
                out.append((s2, fresh("pop")))
                continue
            i = add(b, I(-1)) if back else a
            y = subst(t, {ev: elem(R, i)})
            sl = slice_(R, a, i) if back else slice_(R, add(a, I(1)), b)
            seg = [("s", gmap(sl, ev, t))]
            call.setp(call.args[0], coll("vec", rest + seg if back else seg + rest), s2)
            out.append((s2, some(y)))
    return out


@model("std::vec::Vec::len", "core::slice::len", "std::collections::VecDeque::len", "std::collections::HashSet::len",
       "std::collections::HashMap::len", "std::collections::BTreeMap::len", "std::collections::BTreeSet::len",
       "std::string::String::len", "core::str::len", "std::iter::ExactSizeIterator::len")
def _len(call):
    v = call.val(0)
    if v.op == "it":
        v = coll("vec", v.a[0])
    if v.op in ITERK:
        return None
    return call.ret(length(v))


@model("std::vec::Vec::is_empty", "core::slice::is_empty", "std::collections::VecDeque::is_empty",
       "std::collections::HashSet::is_empty", "std::collections::HashMap::is_empty", "std::collections::BTreeMap::is_empty",
       "std::collections::BTreeSet::is_empty", "std::string::String::is_empty", "core::str::is_empty")
def _is_empty(call):
    v = call.val(0)
    if v.op == "str":
        return call.ret(B(v.a[0] == ""))
    if v.op == "coll" and any(k == "e" for k, _ in v.a[1]):
        return call.ret(FALSE)
    return call.ret(eq(length(v), I(0)))


@model("std::vec::Vec::clear", "std::string::String::clear", "std::collections::HashMap::clear",
       "std::collections::HashSet::clear", "std::collections::VecDeque::clear")
def _clear(call):
    v = call.val(0)
    call.setp(call.args[0], S("") if "String" in call.path else coll(kind_of(v), ()))
    return call.ret(UNIT)


def bounds(call, v, i):
    """[(state, in range?)]"""
    e = call.e
    out = []
    n = length(v)
    for st, r in e.branch(call.st, lt(i, n)):
        out.append((st, r))
    return out


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _index(call):
    v = call.val(0)
    i = call.val(1)
    mut = call.path.endswith("_mut")
    if kind_of(v) == "map":
        out = []
        for st, x in lookup(call, call.st, v, call.args[1]):
            if x is None:
                call.panic(st, "index")
            else:
                out.append((st, x.a[0][1]))
        return out
    if i.op == "adt":   # a range
        lo, hi = range_of(i, v)
        if lo is None:
            return None
        out = []
        cond = conj(le(lo, hi), le(hi, length(v)))
        ty = call.e.arg_type(call, 0)
        if v.op == "str" and lo.op == "int" and hi.op == "int" and cond is TRUE:
            try:
                return call.ret(S(v.a[0].encode()[lo.a[0]:hi.a[0]].decode()))
            except UnicodeDecodeError:
                cond = FALSE
        elif v.op != "coll" and ty is not None and (ty == "str" or ty.endswith("String")):
            # texts can only be cut between two characters
            for b in (lo, hi):
                if b.op == "int" and b.a[0] > 0:
                    cond = conj(cond, mk("spred", "boundary", v, b))
        # is anything known of the text?
        known = cond.op != "bool" and any(not (k.op == "spred" and k.a[0] == "boundary") and k.op not in ("eq", "le", "lt", "and", "ge")
                                          and any(y is v for y in walk(k)) for k in call.st.facts)
        for st, r in call.e.branch(call.st, cond):
            if r and mut:
                p = call.args[0]
                if lo.op == "int" and hi.op == "int" and hi.a[0] - lo.a[0] <= 64 and p.op == "ptr":
                    out.append((st, coll("vec", [("e", mk("ptr", p.a[0], tuple(p.a[1]) + (("i", I(k)),))) for k in range(lo.a[0], hi.a[0])])))
                else:
                    k = call.e.new_cell(st, mk("ext", "part", v, lo, hi))
                    st.add_taint("part of a sequence that may be written")
                    out.append((st, mk("ptr", k, ())))
            elif r:
                out.append((st, slice_(v, lo, hi)))
            else:
                if known:
                    st.lossy = True     # that may rule this out
                call.panic(st, "slice index")
        return out
    out = []
    for st, r in bounds(call, v, i):
        if not r:
            call.panic(st, "index")
        elif mut:
            p = call.args[0]
            out.append((st, mk("ptr", p.a[0], tuple(p.a[1]) + (("i", i),))) if p.op == "ptr" else (st, elem(v, i)))
        else:
            out.append((st, elem(v, i)))
    return out


def range_of(r, v):
    n = r.a[0].split("::")[-1]
    f = dict(zip(r.a[4], r.a[2]))
    if n == "Range":
        return f["start"], f["end"]
    if n == "RangeFrom":
        return f["start"], length(v)
    if n == "RangeTo":
        return I(0), f["end"]
    if n == "RangeFull":
        return I(0), length(v)
    if n == "RangeInclusive" and "start" in f:
        return f["start"], add(f["end"], I(1))
    if n == "RangeToInclusive":
        return I(0), add(f["end"], I(1))
    return None, None


@model("std::ops::RangeInclusive::new")
def _ri(call):
    return call.ret(adt("std::ops::RangeInclusive", 0, (call.args[0], call.args[1], FALSE), ("start", "end", "exhausted"),
                        "RangeInclusive"))


@model("std::ops::Range::contains", "std::ops::RangeInclusive::contains", "std::ops::RangeFrom::contains",
       "std::ops::RangeTo::contains")
def _rc(call):
    r, x = call.val(0), call.val(1)
    if r.op != "adt":
        return None
    f = dict(zip(r.a[4], r.a[2]))
    c = TRUE
    if "start" in f:
        c = conj(c, le(call.e.deref(call.st, f["start"]), x))
    if "end" in f:
        en = call.e.deref(call.st, f["end"])
        c = conj(c, le(x, en) if "Inclusive" in r.a[0] else lt(x, en))
    return call.ret(c)


@model("core::slice::get", "std::vec::Vec::get", "std::collections::VecDeque::get", "core::slice::get_mut")
def _get(call):
    v, i = call.val(0), call.val(1)
    if i.op == "adt":
        lo, hi = range_of(i, v)
        if lo is None:
            return None
        return [(st, some(slice_(v, lo, hi)) if r else NONE)
                for st, r in call.e.branch(call.st, conj(le(lo, hi), le(hi, length(v))))]
    if call.path.endswith("_mut"):
        p = call.args[0]
        if p.op != "ptr":
            return None
        return [(st, some(mk("ptr", p.a[0], tuple(p.a[1]) + (("i", i),))) if r else NONE) for st, r in bounds(call, v, i)]
    return [(st, some(elem(v, i)) if r else NONE) for st, r in bounds(call, v, i)]


@model("core::slice::first", "core::slice::last", "std::collections::VecDeque::front", "std::collections::VecDeque::back")
def _first(call):
    v = call.val(0)
    back = call.path.endswith("last") or call.path.endswith("back")
    ps = parts_of(v)
    if v.op == "coll" and ps and ps[-1 if back else 0][0] == "e":
        return call.ret(some(ps[-1 if back else 0][1]))
    if v.op == "coll" and not ps:
        return call.ret(NONE)
    n = length(v)
    return [(st, NONE if r else some(elem(v, add(n, I(-1)) if back else I(0)))) for st, r in call.e.branch(call.st, eq(n, I(0)))]


@model("std::vec::Vec::append", "std::collections::VecDeque::append")
def _append(call):
    a, b = call.val(0), call.val(1)
    call.setp(call.args[0], coll("vec", tuple(parts_of(a)) + tuple(parts_of(b))))
    call.setp(call.args[1], EMPTY)
    return call.ret(UNIT)


@model("std::vec::Vec::extend_from_slice")
def _efs(call):
    a, b = call.val(0), call.val(1)
    call.setp(call.args[0], coll("vec", tuple(parts_of(a)) + tuple(parts_of(b))))
    return call.ret(UNIT)


@model("std::vec::Vec::truncate")
def _trunc(call):
    v, n = call.val(0), call.val(1)
    if n.op == "int" and all(k == "e" for k, _ in parts_of(v)):
        call.setp(call.args[0], coll("vec", parts_of(v)[:n.a[0]]))
        return call.ret(UNIT)
    return None


@model("std::vec::Vec::reserve", "std::string::String::reserve", "std::vec::Vec::shrink_to_fit")
def _nop(call):
    return call.ret(UNIT)


@model("core::slice::reverse")
def _rev(call):
    v = call.val(0)
    if v.op == "coll" and all(k == "e" for k, _ in v.a[1]):
        call.setp(call.args[0], coll("vec", v.a[1][::-1]))
        return call.ret(UNIT)
    call.setp(call.args[0], mk("rev", v))
    return call.ret(UNIT)


@model("std::slice::sort", "core::slice::sort_unstable", "core::slice::sort")
def _sort(call):
    v = call.val(0)
    if v.op == "coll" and len(v.a[1]) <= 1 and all(k == "e" for k, _ in v.a[1]):
        return call.ret(UNIT)
    ps = [call.e.deref(call.st, x) for k, x in v.a[1]] if v.op == "coll" and all(k == "e" for k, _ in v.a[1]) else None
    if ps is not None and all(is_const(x) for x in ps):
        call.setp(call.args[0], coll("vec", [p for _, p in sorted(enumerate(v.a[1]), key=lambda q: (ps[q[0]].a[0], q[0]))]))
        return call.ret(UNIT)
    call.st.add_taint("order of sorted values")
    call.setp(call.args[0], mk("sorted", v))
    return call.ret(UNIT)


@model("std::slice::sort_by_key", "core::slice::sort_unstable_by_key", "std::slice::sort_by_cached_key", "std::slice::sort_by",
       "core::slice::sort_unstable_by")
def _sort_by(call):
    """elements whose keys are constants; a comparison that is some cmp of the two"""
    v = call.val(0)
    if v.op == "coll" and len(v.a[1]) <= 1 and all(k == "e" for k, _ in v.a[1]):
        return call.ret(UNIT)
    if v.op != "coll" or any(k != "e" for k, _ in v.a[1]) or len(v.a[1]) > 6:
        call.st.add_taint("order of sorted values")
        call.setp(call.args[0], mk("sorted", v))
        return call.ret(UNIT)
    els = [x for _, x in v.a[1]]
    if "key" in call.path:
        ks = []
        for x in els:
            o = call.e.call_value(call.st, call.fr, call.args[1], [x], call.blk)
            k = call.e.deref(o[0][0], o[0][1]) if len(o) == 1 else None
            if k is None or not is_const(k):
                call.st.add_taint("order of sorted values")
                call.setp(call.args[0], mk("sorted", v))
                return call.ret(UNIT)
            call.st = o[0][0]
            ks.append(k.a[0])
        call.setp(call.args[0], coll("vec", [("e", x) for _, _, x in sorted(zip(ks, range(len(els)), els), key=lambda q: q[:2])]))
        return call.ret(UNIT)
    out = []
    for x in els:                # insertion sort, stable
        i = len(out)
        while i > 0:
            o = call.e.call_value(call.st, call.fr, call.args[1], [out[i - 1], x], call.blk)
            r = call.e.deref(o[0][0], o[0][1]) if len(o) == 1 else None
            if r is None or r.op != "adt" or r.a[5] not in ("Less", "Equal", "Greater"):
                call.st.add_taint("order of sorted values")
                call.setp(call.args[0], mk("sorted", v))
                return call.ret(UNIT)
            call.st = o[0][0]
            if r.a[5] != "Greater":
                break
            i -= 1
        out.insert(i, x)
    call.setp(call.args[0], coll("vec", [("e", x) for x in out]))
    return call.ret(UNIT)


@model("std::slice::join", "std::slice::concat", "core::slice::join")
def _join(call):
    v = call.val(0)
    sep = call.val(1) if len(call.args) > 1 else S("")
    if v.op == "coll" and all(k == "e" for k, _ in v.a[1]):
        out = []
        for i, (k, x) in enumerate(v.a[1]):
            if i:
                out.append(sep)
            out.append(x)
        return call.ret(cat(out))
    return call.ret(mk("join", v, sep))


# ------------------------------------------------------------------ maps and sets
def keyterm(call, st, x, kty, kprog, qty):
    """what a stored key of type kty looks like when compared with a key of type qty"""
    e = call.e
    if kty is not None and qty is not None:
        k, q = peel(kty, kprog), peel(qty, kprog)
        if k["k"] == "adt" and (q["k"] != "adt" or q["path"] != k["path"]) and k["path"] in e.w.lib.adt_by_path and \
                e.w.lib.adt_by_path[k["path"]]["local"]:
            bs = [b for b in e.trait_impls.get(("std::borrow::Borrow", "borrow"), [])
                  if b.prog.peel(b.impl)["k"] == "adt" and b.prog.peel(b.impl)["path"] == k["path"]]
            for b in bs:
                outs = e.call_body(st.copy(), b, [x], call.fr.depth + 1)
                if len(outs) == 1:
                    return e.deref(outs[0][0], outs[0][1]), qty
    return x, qty if qty is not None else kty


def peel(ty, prog):
    while ty["k"] in ("ref", "ptr"):
        ty = prog.ty(ty["to"])
    return ty


def local_eq(call, st, a, b, path):
    e = call.e
    bs = [x for x in e.trait_impls.get(("std::cmp::PartialEq", "eq"), [])
          if x.prog.peel(x.impl)["k"] == "adt" and x.prog.peel(x.impl)["path"] == path]
    if not bs:
        return None
    if bs[0].derived:
        return eq(a, b)
    outs = e.call_body(st.copy(), bs[0], [a, b], call.fr.depth + 1)
    if len(outs) == 1:
        r = outs[0][1]
    else:
        return None
    # the hash must agree with the comparison
    hs = [x for x in e.trait_impls.get(("std::hash::Hash", "hash"), [])
          if x.prog.peel(x.impl)["k"] == "adt" and x.prog.peel(x.impl)["path"] == path]
    if hs and not hs[0].derived:
        hv = []
        for x in (a, b):
            s2 = st.copy()
            k = e.new_cell(s2, tup())
            e.pinned.append(k)
            o = e.call_body(s2, hs[0], [x, mk("ptr", k, ())], call.fr.depth + 1)
            e.pinned.pop()
            if len(o) != 1:
                return r
            hv.append(o[0][0].mem[k])
        if hv[0].op == "tup" and hv[1].op == "tup":
            r = conj(r, eq(hv[0], hv[1]))
    return r


def keyeq(call, st, stored, key, kty, kprog, qty):
    s, ty = keyterm(call, st, stored, kty, kprog, qty)
    s, key = call.e.deref(st, s), call.e.deref(st, key)
    if s is key:
        return TRUE
    path = None
    if ty is not None:
        t = peel(ty, kprog)
        if t["k"] == "adt":
            path = t["path"]
    if path is None and s.op == "adt":
        path = s.a[0]
    if path is not None and path in call.e.w.lib.adt_by_path and call.e.w.lib.adt_by_path[path]["local"]:
        r = local_eq(call, st, s, key, path)
        if r is not None:
            return r
    return eq(s, key)


def key_types(call, ismap):
    """(K, Q, prog) of a map or set call"""
    a = call.c.get("targs") or []
    tys = [x for x in a if isinstance(x, int)]
    prog = call.c.get("fnprog") or call.fr.body.prog
    if not tys:
        return None, None, prog
    k = prog.ty(tys[0])
    name = call.path.split("::")[-1]
    q = k
    if name in ("get", "contains", "contains_key", "get_mut", "remove", "take", "remove_entry", "get_key_value", "index") and len(tys) > 1:
        q = prog.ty(tys[-1])
        if q["k"] == "adt" and (q["path"].endswith("RandomState") or q["path"].endswith("Global")):
            q = k
    if k["k"] == "param":
        k = q = None
    return k, q, prog


def lookup(call, st, v, key, types=None):
    """[(state, entry or None)]; entries of maps are (key, value) pairs"""
    e = call.e
    ismap = kind_of(v) == "map"
    kty, qty, prog = types or key_types(call, ismap)
    key = e.deref(st, key)
    if v.op in ("fresh", "ext", "uninit", "jv", "const"):
        st.add_taint("lookup in an unmodelled collection")
        return [(st.copy(), fresh("entry")), (st, None)]
    out = []
    work = [(st, 0)]
    ps = parts_of(v)
    while work:
        st, n = work.pop()
        if n == len(ps):
            out.append((st, None))
            continue
        k, x = ps[n]
        if k == "e":
            sk = x.a[0][0] if ismap else x
            c = keyeq(call, st, sk, key, kty, prog, qty)
            for s2, r in e.branch(st, c):
                if r:
                    out.append((s2, x))
                else:
                    work.append((s2, n + 1))
            continue
        R, a, b, ev, t, op = run_of(x)
        i = mk("idxof", x, key)
        y = subst(t, {ev: elem(R, i)})
        sk = proj(y, "", 0, "0") if ismap else y
        c = keyeq(call, st, sk, key, kty, prog, qty)
        r = e.truth(st, c)
        if r is False or a is b:
            work.append((st, n + 1))
            continue
        at = mk("in", x, key)
        r = e.truth(st, at)
        if r is None:
            e.forks += 1
            e.mark_lossy(st, key)
            if op == "gsub":
                st.lossy = True
            s1 = st.copy()
            s1.facts[at] = True
            s1.symc += 1
            s1 = e.assume(s1, c, True)
            if s1 is not None:
                out.append((s1, y))
            st.facts[at] = False
            st.symc += 1
            work.append((st, n + 1))
        elif r:
            out.append((st, y))
        else:
            work.append((st, n + 1))
    return out


@model("std::collections::HashMap::get", "std::collections::BTreeMap::get")
def _mget(call):
    v = call.val(0)
    return [(st, NONE if x is None else some(entry_val(x))) for st, x in lookup(call, call.st, v, call.args[1])]


def entry_val(x):
    return x.a[0][1] if x.op == "tup" else mk("fld", x, "", "1")


@model("std::collections::HashMap::get_mut", "std::collections::BTreeMap::get_mut")
def _mgetm(call):
    v = call.val(0)
    p = call.args[0]
    out = []
    for st, x in lookup(call, call.st, v, call.args[1]):
        if x is None:
            out.append((st, NONE))
        elif x.op == "tup" and p.op == "ptr":
            out.append((st, some(mk("ptr", p.a[0], tuple(p.a[1]) + (("mv", x.a[0][0]),)))))
        else:
            st.add_taint("get_mut")
            out.append((st, fresh("mv")))
    return out


@model("std::collections::HashMap::contains_key", "std::collections::BTreeMap::contains_key",
       "std::collections::HashSet::contains", "std::collections::BTreeSet::contains")
def _contains(call):
    v = call.val(0)
    return [(st, B(x is not None)) for st, x in lookup(call, call.st, v, call.args[1])]


@model("std::collections::HashSet::get", "std::collections::BTreeSet::get")
def _sget(call):
    v = call.val(0)
    return [(st, NONE if x is None else some(x)) for st, x in lookup(call, call.st, v, call.args[1])]


@model("std::collections::HashMap::get_key_value")
def _gkv(call):
    v = call.val(0)
    return [(st, NONE if x is None else some(x)) for st, x in lookup(call, call.st, v, call.args[1])]


@model("std::collections::HashMap::insert", "std::collections::BTreeMap::insert")
def _minsert(call):
    v = call.val(0)
    k, x = call.args[1], call.args[2]
    out = []
    for st, old in lookup(call, call.st, v, k):
        out.append((st, map_put(call, st, call.args[0], v, old, k, x)))
    return out


def map_put(call, st, p, v, old, k, x):
    ps = list(parts_of(v))
    if old is None:
        call.setp(p, coll("map", ps + [("e", tup(k, x))]), st)
        return NONE
    for n, (kk, y) in enumerate(ps):
        if kk == "e" and y is old:
            ps[n] = ("e", tup(y.a[0][0], x))
            call.setp(p, coll("map", ps), st)
            return some(y.a[0][1])
    st.lossy = True
    st.add_taint("overwrite in a summarised map")
    call.setp(p, fresh("map"), st)
    return some(entry_val(old))


@model("std::collections::HashSet::insert", "std::collections::BTreeSet::insert")
def _sinsert(call):
    v = call.val(0)
    k = call.args[1]
    out = []
    for st, old in lookup(call, call.st, v, k):
        if old is None:
            call.setp(call.args[0], coll("set", tuple(parts_of(v)) + (("e", call.e.deref(st, k)),)), st)
        out.append((st, B(old is None)))
    return out


@model("std::collections::HashSet::replace")
def _sreplace(call):
    v = call.val(0)
    k = call.args[1]
    out = []
    for st, old in lookup(call, call.st, v, k):
        ps = list(parts_of(v))
        if old is None:
            ps.append(("e", k))
            call.setp(call.args[0], coll("set", ps), st)
            out.append((st, NONE))
        elif ("e", old) in ps:
            ps[ps.index(("e", old))] = ("e", k)
            call.setp(call.args[0], coll("set", ps), st)
            out.append((st, some(old)))
        else:
            return None
    return out


@model("std::collections::HashSet::remove", "std::collections::HashMap::remove", "std::collections::BTreeSet::remove",
       "std::collections::BTreeMap::remove", "std::collections::HashSet::take")
def _remove(call):
    v = call.val(0)
    out = []
    for st, old in lookup(call, call.st, v, call.args[1]):
        name = call.path.split("::")
        if old is None:
            r = FALSE if "Set" in name[-2] and name[-1] == "remove" else NONE
        else:
            ps = [p for p in parts_of(v) if not (p[0] == "e" and p[1] is old)]
            if len(ps) == len(parts_of(v)):
                st.add_taint("removal from a summarised collection")
                call.setp(call.args[0], fresh("coll"), st)
            else:
                call.setp(call.args[0], coll(kind_of(v), ps), st)
            r = TRUE if "Set" in name[-2] and name[-1] == "remove" else some(old if "Set" in name[-2] else entry_val(old))
        out.append((st, r))
    return out


@model("std::collections::HashMap::entry", "std::collections::BTreeMap::entry")
def _entry(call):
    return call.ret(mk("entry", call.args[0], call.args[1], tuple(x for x in (call.c.get("targs") or []) if isinstance(x, int))))


def _entry_or(call, mkval):
    en = call.val(0)
    if en.op != "entry":
        return None
    p, k, ts = en.a
    v = call.e.deref(call.st, p)
    prog = call.c.get("fnprog") or call.fr.body.prog
    kty = prog.ty(ts[0]) if ts else None
    if kty is not None and kty["k"] == "param":
        kty = None
    out = []
    for st, old in lookup(call, call.st, v, k, (kty, kty, prog)):
        if old is None:
            for s2, x in mkval(st):
                call.setp(p, coll("map", tuple(parts_of(call.e.deref(s2, p))) + (("e", tup(k, x)),)), s2)
                out.append((s2, mk("ptr", p.a[0], tuple(p.a[1]) + (("mv", k),))))
        elif old.op == "tup":
            out.append((st, mk("ptr", p.a[0], tuple(p.a[1]) + (("mv", old.a[0][0]),))))
        else:
            st.add_taint("entry")
            out.append((st, fresh("entry")))
    return out


@model("std::collections::hash_map::Entry::or_insert", "std::collections::btree_map::Entry::or_insert")
def _eoi(call):
    return _entry_or(call, lambda st: [(st, call.args[1])])


@model("std::collections::hash_map::Entry::or_insert_with", "std::collections::btree_map::Entry::or_insert_with")
def _eoiw(call):
    return _entry_or(call, lambda st: call.e.call_value(st, call.fr, call.args[1], [], call.blk))


@model("std::collections::hash_map::Entry::or_default", "std::collections::btree_map::Entry::or_default")
def _eod(call):
    ty, prog = call.ty(1)
    d = default_of(call.e, ty, prog) if ty else None
    if d is None:
        return None
    return _entry_or(call, lambda st: [(st, d)])


_SETS = ("std::collections::HashSet::", "std::collections::BTreeSet::")


def set_members(call, st, v, b, types):
    """[(state, elements of v in b, elements of v not in b)], as parts; None if v or b are not explicit sets"""
    if v.op != "coll" or b.op != "coll" or v.a[0] != "set" or b.a[0] != "set" or any(k != "e" for k, _ in v.a[1]):
        return None
    outs = [(st, (), ())]
    for p in v.a[1]:
        nxt = []
        for s2, ins, outside in outs:
            for s3, hit in lookup(call, s2, b, p[1], types):
                nxt.append((s3, ins + (p,), outside) if hit is not None else (s3, ins, outside + (p,)))
        outs = nxt
    return outs


@model(*[t + o for t in _SETS for o in ("union", "intersection", "difference", "symmetric_difference", "is_subset", "is_superset", "is_disjoint")])
def _setop(call):
    op = call.path.split("::")[-1]
    a, b = in_order(call, call.val(0)), in_order(call, call.val(1))
    k, _, prog = key_types(call, False)
    types = (k, k, prog)
    if "BTree" in call.path and op in ("union", "symmetric_difference"):
        if not all(x == "e" and is_const(y) for x, y in parts_of(a) + parts_of(b)):
            return None
    out = []
    if op in ("union", "symmetric_difference", "is_superset"):
        rs = set_members(call, call.st, b, a, types)
        if rs is None:
            return None
        for st, both, only_b in rs:
            if op == "is_superset":
                out.append((st, B(not only_b)))
            elif op == "union":
                out.append((st, tuple(a.a[1]) + only_b))
            else:
                qs = set_members(call, st, a, b, types)
                if qs is None:
                    return None
                out.extend((s2, only_a + only_b) for s2, _, only_a in qs)
    else:
        rs = set_members(call, call.st, a, b, types)
        if rs is None:
            return None
        for st, both, only_a in rs:
            out.append((st, both if op == "intersection" else only_a if op == "difference" else B(not only_a) if op == "is_subset" else B(not both)))
    if "BTree" in call.path:
        out = [(st, tuple(sorted(x, key=lambda p: p[1].a[0])) if isinstance(x, tuple) and len(x) > 1 and all(is_const(p[1]) for p in x) else x) for st, x in out]
    return [(st, mk("it", x) if isinstance(x, tuple) else x) for st, x in out]


# ------------------------------------------------------------------ iterators
ITERK = ("imap", "ifilter", "ifiltermap", "izip", "ichain", "ienum", "iskip", "itake", "itakewhile", "iskipwhile",
         "irev", "iflat", "ipeek", "iinspect", "range")


def in_order(call, v, path=None, ti=0):
    """the elements of a set or map in the order in which it hands them out: a B-tree sorts them, a hash table has an order
    of its own (here: that of insertion, or the reverse of it)"""
    e = call.e
    if v.op != "coll" or v.a[0] not in ("set", "map"):
        return v
    ps = v.a[1]
    if len(ps) < 2:
        return v
    path = path or call.path
    if "::BTree" not in path and "::Hash" not in path:
        t, prog = call.ty(ti)
        t = peel(t, prog) if t is not None else None
        path = t["path"] if t is not None and t["k"] == "adt" else ""
    name = path.split("::")
    if any(n.startswith("BTree") for n in name):
        key = (lambda p: p[1]) if v.a[0] == "set" else (lambda p: p[1].a[0][0])
        if all(k == "e" for k, _ in ps) and all(is_const(key(p)) for p in ps):
            return coll(v.a[0], sorted(ps, key=lambda p: key(p).a[0]))
        call.st.add_taint("order of the elements of a B-tree")
        return v
    e.hash_iter.add((call.fr.body.short() if call.fr.body is not None else "?", call.blk["sp"] if call.blk else "?"))
    if e.hash_rev:
        if any(n.startswith("Hash") for n in name):
            return coll(v.a[0], ps[::-1])
        call.st.add_taint("order of the elements of a set of unknown kind")
    return v


def arg_iter(call, i, ti):
    """the iterator that argument i, of the type that is the generic argument ti, turns into"""
    v = call.args[i]
    x = call.e.deref(call.st, v)
    if x.op == "coll" and x.a[0] in ("set", "map") and len(x.a[1]) > 1:
        return mk("it", tuple(in_order(call, x, "?", ti).a[1]))
    return as_iter(call.e, call.st, v)


def as_iter(e, st, v, keepptr=True):
    """the iterator a value turns into"""
    if v.op == "coll" and v.a[0] in ("set", "map") and e.hash_rev and len(v.a[1]) > 1:
        st.add_taint("order of the elements of a set of unknown kind")
    if v.op == "ptr":
        x = e.deref(st, v)
        if x.op in ITERK or x.op in ("it", "range", "irepeat") or own_next(e, x) is not None:
            return v        # by reference
        if x.op == "coll" and x.a[0] == "map":
            return mk("it", tuple((("e", tup(p[1].a[0][0], mk("ptr", v.a[0], tuple(v.a[1]) + (("mv", p[1].a[0][0]),))))
                                   if p[0] == "e" else p) for p in x.a[1]))
        if x.op == "coll" and all(k == "e" for k, _ in x.a[1]):
            return mk("it", tuple(("e", mk("ptr", v.a[0], tuple(v.a[1]) + (("i", I(n)),))) for n in range(len(x.a[1]))))
        if x.op in ("coll", "gmap", "slice", "fld", "sym"):
            # handed out as a pointer so that writes are noticed
            n = length(x)
            return mk("it", (("s", gmap(mk("iota", x), EV, mk("mutel", v, EV))),))
        return mk("ext", "iter_mut", x)
    if v.op in ITERK or v.op in ("it", "range", "irepeat"):
        return v
    if v.op == "adt":
        p = v.a[0]
        if own_next(e, v) is not None:
            return v
        if p == OPT:
            return mk("it", (("e", v.a[2][0]),) if v.a[2] else ())
        if p.endswith("ops::Range"):
            return mk("range", v.a[2][0], v.a[2][1])
        if p.endswith("RangeInclusive"):
            return mk("range", v.a[2][0], add(v.a[2][1], I(1)))
        if p.endswith("RangeFrom"):
            return mk("range", v.a[2][0], mk("sym", "inf"))
    if v.op == "rev" :
        return mk("irev", as_iter(e, st, v.a[0]))
    return mk("it", tuple(parts_of(v)))


@model("core::slice::iter", "std::iter::IntoIterator::into_iter", "std::collections::HashSet::iter",
       "std::collections::BTreeSet::iter", "std::collections::HashMap::iter", "std::collections::BTreeMap::iter",
       "std::collections::VecDeque::iter", "std::vec::Vec::iter", "std::option::Option::iter",
       "std::collections::HashMap::into_iter", "std::vec::Vec::into_iter")
def _iter(call):
    v = call.args[0]
    x = call.e.deref(call.st, v)
    if v.op == "ptr" and not (x.op in ITERK or x.op == "it") and not call.e.is_mut_ref_arg(call):
        v = x
    b = call.e.dispatch_local(call)
    if b is not None:
        return None
    if x.op == "adt" and x.a[0] not in (OPT,) and "Range" not in x.a[0]:
        return call.ret(v)
    if v.op == "coll" and v.a[0] in ("set", "map"):
        return call.ret(mk("it", tuple(in_order(call, v).a[1])))
    return call.ret(as_iter(call.e, call.st, v))


@model("core::slice::iter_mut", "std::collections::HashMap::iter_mut", "std::vec::Vec::iter_mut")
def _iter_mut(call):
    return call.ret(as_iter(call.e, call.st, call.args[0]))


@model("std::collections::HashMap::keys", "std::collections::BTreeMap::keys", "std::collections::HashMap::into_keys", "std::collections::BTreeMap::into_keys")
def _keys(call):
    return call.ret(mk("it", tuple(("e", x.a[0][0]) if k == "e" else ("s", gmap(x, EV, proj(EV, "", 0, "0"))) for k, x in parts_of(in_order(call, call.val(0))))))


@model("std::collections::HashMap::values", "std::collections::BTreeMap::values", "std::collections::HashMap::into_values", "std::collections::BTreeMap::into_values")
def _values(call):
    return call.ret(mk("it", tuple(("e", x.a[0][1]) if k == "e" else ("s", gmap(x, EV, proj(EV, "", 1, "1"))) for k, x in parts_of(in_order(call, call.val(0))))))


@model("std::vec::Vec::drain", "std::collections::HashMap::drain", "std::collections::HashSet::drain")
def _drain(call):
    v = call.val(0)
    if len(call.args) > 1:
        r = call.val(1)
        if not (r.op == "adt" and r.a[0].endswith("RangeFull")):
            return None
    call.setp(call.args[0], coll(kind_of(v), ()))
    return call.ret(mk("it", tuple(parts_of(in_order(call, v)))))


def adapter(op, *extra):
    def f(call):
        it = as_iter(call.e, call.st, call.args[0])
        return call.ret(mk(op, it, *(list(call.args[1:]) + list(extra))))
    return f


MODELS["std::iter::Iterator::map"] = adapter("imap")
MODELS["std::iter::Iterator::filter"] = adapter("ifilter")
MODELS["std::iter::Iterator::filter_map"] = adapter("ifiltermap")
MODELS["std::iter::Iterator::enumerate"] = adapter("ienum", I(0))
MODELS["std::iter::Iterator::skip"] = adapter("iskip")
MODELS["std::iter::Iterator::take"] = adapter("itake")
MODELS["std::iter::Iterator::take_while"] = adapter("itakewhile", FALSE)
MODELS["std::iter::Iterator::skip_while"] = adapter("iskipwhile", FALSE)
MODELS["std::iter::Iterator::rev"] = adapter("irev")
MODELS["std::iter::Iterator::flat_map"] = adapter("iflat", NONE)
MODELS["std::iter::Iterator::peekable"] = adapter("ipeek", NONE)
MODELS["std::iter::Iterator::inspect"] = adapter("iinspect")


@model("std::iter::Iterator::flatten")
def _flatten(call):
    return call.ret(mk("iflat", as_iter(call.e, call.st, call.args[0]), mk("idfn"), NONE))


@model("std::iter::Iterator::zip", "std::iter::zip")
def _zip(call):
    return call.ret(mk("izip", arg_iter(call, 0, 0), arg_iter(call, 1, 1)))


@model("std::iter::Iterator::chain")
def _chain(call):
    a, b = arg_iter(call, 0, 0), arg_iter(call, 1, 1)
    if a.op == "it" and b.op == "it":
        return call.ret(mk("it", a.a[0] + b.a[0]))
    return call.ret(mk("ichain", a, b))


@model("std::iter::once")
def _once(call):
    return call.ret(mk("it", (("e", call.args[0]),)))


@model("std::iter::empty")
def _empty(call):
    return call.ret(mk("it", ()))


@model("std::iter::Peekable::peek")
def _peek(call):
    p = call.args[0]
    v = call.val(0)
    if v.op != "ipeek" or p.op != "ptr":
        return None
    if v.a[1] is not NONE:
        return call.ret(v.a[1].a[2][0])
    out = []
    for st, x, it2 in step(call, call.st, v.a[0]):
        call.setp(p, mk("ipeek", it2, some(x)), st)
        out.append((st, x))
    return out


NEXT = {"imap": ("map_next", 1), "ifilter": ("filter_next", 1), "ifiltermap": ("filter_map_next", 1), "izip": ("zip_next", 1),
        "ichain": ("chain_next", 1), "ienum": ("enumerate_next", 1), "iskip": ("skip_next", 1), "itake": ("take_next", 1),
        "itakewhile": ("take_while_next", 2), "iskipwhile": ("skip_while_next", 2), "iinspect": ("inspect_next", 1),
        "iflat": ("flat_map_next", 2), "ipeek": ("peekable_next", 1)}


FLIP = []


def own_next(e, v, tr="std::iter::Iterator", name="next"):
    """the next of a type of the program that is an iterator itself"""
    if v.op != "adt":
        return None
    bs = [b for b in e.trait_impls.get((tr, name), []) if b.prog.peel(b.impl).get("path") == v.a[0]]
    return bs[0] if len(bs) == 1 else None


def step(call, st, v):
    """one step of an iterator value: [(state, Option, new iterator)]"""
    e = call.e
    if v.op == "ptr":
        out = []
        for s2, x, v2 in step(call, st, e.deref(st, v)):
            e.store(s2, v.a[0], tuple(v.a[1]), v2)
            out.append((s2, x, v))
        return out
    if v.op == "it":
        return step_it(call, st, list(v.a[0]))
    if v.op == "range":
        out = []
        if v.a[1].op == "sym":
            return [(st, some(v.a[0]), mk("range", add(v.a[0], I(1)), v.a[1]))]
        for s2, r in e.branch(st, lt(v.a[0], v.a[1])):
            out.append((s2, some(v.a[0]), mk("range", add(v.a[0], I(1)), v.a[1])) if r else (s2, NONE, v))
        return out
    if v.op == "irepeat":
        return [(st, some(v.a[0]), v)]
    if v.op == "adt":
        b = own_next(e, v)
        if b is not None:
            k = e.new_cell(st, v)
            e.pinned.append(k)
            outs = e.call_body(st, b, [mk("ptr", k, ())], call.fr.depth + 1)
            e.pinned.pop()
            return [(s2, x, s2.mem.pop(k, v)) for s2, x in outs]
    if v.op == "irev" and v.a[0].op == "adt":
        b = own_next(e, v.a[0], "std::iter::DoubleEndedIterator", "next_back")
        if b is not None:
            k = e.new_cell(st, v.a[0])
            e.pinned.append(k)
            outs = e.call_body(st, b, [mk("ptr", k, ())], call.fr.depth + 1)
            e.pinned.pop()
            return [(s2, x, mk("irev", s2.mem.pop(k, v.a[0]))) for s2, x in outs]
    if v.op == "irev":
        for f in FLIP:
            w = f(v.a[0])
            if w is not None:
                return step(call, st, w)
    if v.op == "irev" and v.a[0].op == "range":
        x = v.a[0]
        return [(s2, some(add(x.a[1], I(-1))), mk("irev", mk("range", x.a[0], add(x.a[1], I(-1))))) if r else (s2, NONE, v)
                for s2, r in e.branch(st, lt(x.a[0], x.a[1]))]
    if v.op == "irev":
        x = v.a[0]
        if x.op == "it" and all(k == "e" for k, _ in x.a[0]):
            ps = x.a[0]
            return [(st, some(ps[-1][1]), mk("irev", mk("it", ps[:-1])))] if ps else [(st, NONE, v)]
        if x.op == "it":
            ps = list(x.a[0])
            out = []
            work = [(st, ps)]
            while work:
                st, ps = work.pop()
                if not ps:
                    out.append((st, NONE, mk("irev", mk("it", ()))))
                    continue
                k, y = ps[-1]
                if k == "e":
                    out.append((st, some(y), mk("irev", mk("it", tuple(ps[:-1])))))
                    continue
                R, a, b, ev, t, op = run_of(y)
                if op == "gsub":
                    break
                for s2, r in e.branch(st, eq(a, b)):
                    if r:
                        work.append((s2, ps[:-1]))
                    else:
                        i = add(b, I(-1))
                        out.append((s2, some(subst(t, {ev: elem(R, i)})),
                                    mk("irev", mk("it", tuple(ps[:-1]) + (("s", gmap(slice_(R, a, i), ev, t)),)))))
            else:
                return out
    if v.op in NEXT:
        fn, nx = NEXT[v.op]
        keys = []
        args = []
        for x in v.a:
            if x.op == "ptr":
                keys.append(None)
                args.append(x)
                continue
            k = e.new_cell(st, x)
            keys.append(k)
            args.append(mk("ptr", k, ()))
        e.pinned.extend(keys)
        outs = e.call_body(st, e.prel.bodies["prelude::" + fn], args, call.fr.depth + 1)
        del e.pinned[len(e.pinned) - len(keys):]
        res = []
        for s2, x in outs:
            na = []
            for k, old in zip(keys, v.a):
                if k is None:
                    na.append(old)
                else:
                    na.append(s2.mem.pop(k))
            res.append((s2, x, mk(v.op, *na)))
        return res
    st.add_taint("iteration over an unmodelled iterator " + show(v)[:80])
    s1 = st.copy()
    return [(s1, some(fresh("item")), v), (st, NONE, v)]


def step_it(call, st, ps):
    e = call.e
    out = []
    work = [(st, ps)]
    while work:
        st, ps = work.pop()
        if not ps:
            out.append((st, NONE, mk("it", ())))
            continue
        k, x = ps[0]
        if k == "e":
            out.append((st, some(x), mk("it", tuple(ps[1:]))))
            continue
        if x.op in ("ext", "fresh", "uninit", "const"):
            st.add_taint("iteration over unmodelled " + show(x)[:80])
        R, a, b, ev, t, op = run_of(x)
        if op == "gsub":
            s1 = st.copy()
            st.lossy = s1.lossy = True
            st.symc += 1
            s1.symc += 1
            i = mk("nat", next(_n))
            s1.facts[ge0(sub(i, a))] = True
            s1.facts[ge0(add(sub(b, i), I(-1)))] = True
            y = subst(t, {ev: elem(R, i)})
            out.append((s1, some(y), mk("it", (("s", gmap(slice_(R, add(i, I(1)), b), ev, t, False)),) + tuple(ps[1:]))))
            work.append((st, ps[1:]))
            continue
        for s2, r in e.branch(st, eq(a, b)):
            # assuming a == b may have renamed positions
            if r:
                m = s2.last_subst
                rest = ps[1:]
                if m:
                    rest = [(kk, subst(y, m)) for kk, y in rest]
                work.append((s2, rest))
            else:
                y = subst(t, {ev: elem(R, a)})
                seg = slice_(R, add(a, I(1)), b)
                out.append((s2, some(y), mk("it", tuple(coll_parts([("s", gmap(seg, ev, t))] + ps[1:])))))
    return out


def coll_parts(ps):
    return [p for p in ps if not (p[0] == "s" and p[1] is EMPTY)]


@model("std::iter::Iterator::next")
def _next(call):
    p = call.args[0]
    v = call.val(0)
    if v.op == "adt":
        b = call.e.dispatch_local(call)
        if b is not None:
            return call.e.call_body(call.st, b, call.args, call.fr.depth + 1)
        v = as_iter(call.e, call.st, v)
    if v.op in ("fresh", "ext", "uninit"):
        return None
    if p.op != "ptr":
        call.st.add_taint("next on a value")
        return None
    out = []
    for st, x, v2 in step(call, call.st, v):
        q = p
        y = call.e.load(st, q.a[0], tuple(q.a[1]))
        while y.op == "ptr":
            q = y
            y = call.e.load(st, q.a[0], tuple(q.a[1]))
        if v.op != "ptr":
            call.e.store(st, q.a[0], tuple(q.a[1]), v2)
        out.append((st, x))
    return out


@model("std::iter::DoubleEndedIterator::next_back")
def _next_back(call):
    p = call.args[0]
    v = call.val(0)
    if p.op != "ptr" or v.op != "it":
        return None
    out = []
    for st, x, v2 in step(call, call.st, mk("irev", v)):
        call.setp(p, v2.a[0], st)
        out.append((st, x))
    return out


def collect_into(call, st, it, ty, prog):
    """[(state, collection)]"""
    e = call.e
    P = e.prel.bodies
    d = call.fr.depth + 1
    k = ty["k"] if ty is not None else None
    p = ty["path"] if k == "adt" else ""
    if k == "adt" and p.endswith("Option") or p.endswith("Result"):
        inner = prog.ty([x for x in ty["args"] if isinstance(x, int)][0])
        fn = "collect_result_vec" if p.endswith("Result") else "collect_option_vec"
        cell = e.new_cell(st, it)
        outs = e.call_body(st, P["prelude::" + fn], [it], d)
        if inner["k"] == "adt" and inner["path"].endswith("Vec"):
            return outs
        res = []
        want = "Ok" if p.endswith("Result") else "Some"
        for s2, v in outs:
            if v.op == "adt" and v.a[5] == want:
                for s3, c in collect_into(call, s2, mk("it", parts_of(v.a[2][0])), inner, prog):
                    res.append((s3, ok(c) if want == "Ok" else some(c)))
            else:
                res.append((s2, v))
        return res
    if p.endswith("Vec") or p.endswith("VecDeque") or p.endswith("Box"):
        if it.op == "it":
            return [(st, coll("vec", it.a[0]))]
        return e.call_body(st, P["prelude::collect_vec"], [it], d)
    if p.endswith("String"):
        return e.call_body(st, P["prelude::collect_string"], [it], d)
    if p.endswith("HashSet") or p.endswith("BTreeSet") or p.endswith("HashMap") or p.endswith("BTreeMap"):
        ismap = p.endswith("Map")
        kty = prog.ty([x for x in ty["args"] if isinstance(x, int)][0])
        return extend_assoc(call, st, coll("map" if ismap else "set", ()), it, ismap, (kty, kty, prog))
    return None


def extend_assoc(call, st, base, it, ismap, types):
    e = call.e
    if it.op != "it":
        outs = e.call_body(st, e.prel.bodies["prelude::collect_vec"], [it], call.fr.depth + 1)
    else:
        outs = [(st, coll("vec", it.a[0]))]
    res = []
    for st, v in outs:
        work = [(st, base, list(parts_of(v)))]
        while work:
            st, acc, ps = work.pop()
            if not ps:
                res.append((st, acc))
                continue
            k, x = ps[0]
            if k == "s":
                # later entries win: keep order
                work.append((st, coll(kind_of(acc), tuple(parts_of(acc)) + ((k, x),)), ps[1:]))
                continue
            x = e.deref(st, x)
            key = proj(x, "", 0, "0") if ismap else x
            for s2, old in lookup(call, st, acc, key, types):
                if old is None:
                    a2 = coll(kind_of(acc), tuple(parts_of(acc)) + (("e", x),))
                elif ismap:
                    q = list(parts_of(acc))
                    if ("e", old) in q:
                        q[q.index(("e", old))] = ("e", tup(proj(old, "", 0, "0"), proj(x, "", 1, "1")))
                        a2 = coll("map", q)
                    else:
                        s2.lossy = True
                        a2 = acc
                else:
                    a2 = acc
                work.append((s2, a2, ps[1:]))
    return res


@model("std::iter::Iterator::collect")
def _collect(call):
    it = as_iter(call.e, call.st, call.args[0])
    ty, prog = call.ty(1)
    if ty is None:
        return None
    return collect_into(call, call.st, it, ty, prog)


@model("std::iter::FromIterator::from_iter")
def _from_iter(call):
    it = arg_iter(call, 0, 2)
    ty, prog = call.ty(0)
    if ty is None:
        return None
    return collect_into(call, call.st, it, ty, prog)


@model("std::iter::Extend::extend")
def _extend(call):
    p = call.args[0]
    v = call.val(0)
    it = arg_iter(call, 1, 2)
    if p.op != "ptr":
        return None
    ty, prog = call.ty(0)
    if ty is not None and ty["k"] == "adt" and ty["path"].endswith("String"):
        outs = call.e.call_body(call.st, call.e.prel.bodies["prelude::collect_string"], [it], call.fr.depth + 1)
        for st, s in outs:
            call.setp(p, cat([call.e.deref(st, p), s]), st)
        return [(st, UNIT) for st, _ in outs]
    if kind_of(v) in ("set", "map"):
        ismap = kind_of(v) == "map"
        kty = None
        if ty is not None and ty["k"] == "adt":
            kty = prog.ty([x for x in ty["args"] if isinstance(x, int)][0])
        out = []
        for st, c in extend_assoc(call, call.st, v, it, ismap, (kty, kty, prog)):
            call.setp(p, c, st)
            out.append((st, UNIT))
        return out
    if it.op == "it":
        call.setp(p, coll("vec", tuple(parts_of(v)) + it.a[0]))
        return call.ret(UNIT)
    return call.e.call_body(call.st, call.e.prel.bodies["prelude::extend_vec"], [p, it], call.fr.depth + 1)


@model("std::iter::Iterator::sum", "std::iter::Iterator::min", "std::iter::Iterator::max")
def _sum(call):
    return None


@model("std::iter::Iterator::last")
def _last(call):
    it = as_iter(call.e, call.st, call.args[0])
    if it.op == "it":
        ps = it.a[0]
        if not ps:
            return call.ret(NONE)
        if ps[-1][0] == "e":
            return call.ret(some(ps[-1][1]))
        v = coll("vec", ps)
        if len(ps) == 1 and run_of(ps[0][1])[5] == "gmap":
            n = length(v)
            return [(st, NONE if r else some(elem(v, add(n, I(-1))))) for st, r in call.e.branch(call.st, eq(n, I(0)))]
    return None


@model("std::iter::Iterator::count")
def _count(call):
    it = as_iter(call.e, call.st, call.args[0])
    if it.op == "it":
        return call.ret(length(coll("vec", it.a[0])))
    return None


# ------------------------------------------------------------------ Option / Result
@model("std::option::Option::unwrap", "std::option::Option::expect", "std::result::Result::unwrap", "std::result::Result::expect",
       "std::result::Result::unwrap_err", "std::result::Result::expect_err", "std::option::Option::unwrap_unchecked")
def _unwrap(call):
    v = call.val(0)
    isopt = "::Option::" in call.path
    want = "Some" if isopt else ("Err" if call.path.endswith("_err") else "Ok")
    out = []
    for st, vn in call.e.variant(call.st, v, OPT if isopt else RES):
        if vn == want:
            out.append((st, proj(v, want, 0, "0")))
        else:
            call.panic(st, call.path.split("::")[-2] + "::" + call.path.split("::")[-1])
    return out


@model("std::option::Option::take")
def _otake(call):
    v = call.val(0)
    call.setp(call.args[0], NONE)
    return call.ret(v)


@model("std::option::Option::insert")
def _oinsert(call):
    call.setp(call.args[0], some(call.args[1]))
    p = call.args[0]
    return call.ret(mk("ptr", p.a[0], tuple(p.a[1]) + (("f", "Some", 0, "0"),)))


@model("std::option::Option::unwrap_or_else")
def _noop(call):
    return None


CF = "std::ops::ControlFlow"


@model("std::ops::Try::branch")
def _branch(call):
    v = call.val(0)
    ty, prog = call.ty(0)
    path = ty["path"] if ty and ty["k"] == "adt" else (v.a[0] if v.op == "adt" else RES)
    out = []
    for st, vn in call.e.variant(call.st, v, path):
        if vn in ("Ok", "Some", "Continue"):
            out.append((st, adt(CF, 0, (proj(v, vn, 0, "0"),), ("0",), "Continue")))
        elif vn == "None":
            out.append((st, adt(CF, 1, (NONE,), ("0",), "Break")))
        else:
            out.append((st, adt(CF, 1, (err(proj(v, "Err", 0, "0")),), ("0",), "Break")))
    return out


@model("std::ops::FromResidual::from_residual")
def _from_res(call):
    v = call.val(0)
    if v.op == "adt" and v.a[5] == "None":
        ty, prog = call.ty(0)
        return call.ret(NONE)
    x = proj(v, "Err", 0, "0")
    prog = call.c.get("fnprog") or call.fr.body.prog
    ra = [i for i in (call.c.get("rargs") or []) if isinstance(i, int)]
    F = E_ = None
    if len(ra) >= 3:
        E_, F = prog.ty(ra[1]), prog.ty(ra[2])
    if F is not None and E_ is not None and F["s"] != E_["s"]:
        r = conv(call, call.st, x, F, prog, E_)
        if r is not None:
            return [(st, err(y)) for st, y in r]
        call.st.add_taint("error conversion")
        return call.ret(err(mk("ext", "from", x)))
    return call.ret(err(x))


def conv(call, st, x, to, prog, frm=None):
    """From::from"""
    e = call.e
    t = peel(to, prog)
    if t["k"] == "adt":
        bs = [b for b in e.trait_impls.get(("std::convert::From", "from"), [])
              if b.prog.peel(b.impl)["k"] == "adt" and b.prog.peel(b.impl)["path"] == t["path"]]
        if bs:
            if len(bs) > 1:
                want = x.a[0] if x.op == "adt" else (peel(frm, prog).get("path") if frm is not None else None)
                if want is None:
                    want = e.type_of(x)
                b2 = [b for b in bs if b.prog.peel(b.locals[1]).get("path") == want]
                bs = b2 or bs
            if len(bs) == 1:
                h = e.hook_for(bs[0])
                if h is not None:
                    old, call.args = call.args, [x]
                    r = h(call)
                    call.args = old
                    return r
                return e.call_body(st, bs[0], [x], call.fr.depth + 1)
            return None
    if frm is not None:
        f = peel(frm, prog)
        if f["s"] == t["s"]:
            return [(st, x)]
        strs = ("str", "std::string::String", "std::borrow::Cow")
        def sname(q):
            return q["k"] if q["k"] == "str" else q.get("path", "")
        if sname(f) in strs and (sname(t) in strs or t["k"] == "str"):
            return [(st, x)]
        if f["k"] in ("num", "char", "bool"):
            if t["s"] in ("f64", "f32"):
                return [(st, mk("flt", float(x.a[0])) if x.op in ("int", "flt") else mk("ext", "float", x))]
            return [(st, I(int(x.a[0])) if x.op == "bool" and t["k"] == "num" else x)]
        if t["k"] == "adt" and t["path"].endswith("option::Option"):
            return [(st, some(x))]
        if f["k"] == "array" and t["k"] == "adt":
            return collect_into(call, st, mk("it", parts_of(x)), t, prog)
        if t["k"] == "adt" and t["path"].split("::")[-1] in ("Vec", "Box", "Arc", "Rc", "VecDeque"):
            if t["path"].endswith("Vec") and sname(f) in strs:
                return [(st, mk("bytes_of", x))]
            return [(st, x)]
        if t["k"] == "adt" and t["path"].endswith("PathBuf"):
            return [(st, x)]
    return None


@model("std::convert::From::from")
def _from(call):
    to, prog = call.ty(0)
    frm, _ = call.ty(1)
    if to is None:
        return None
    return conv(call, call.st, call.val(0), to, prog, frm)


@model("std::convert::Into::into")
def _into(call):
    frm, prog = call.ty(0)
    to, _ = call.ty(1)
    if to is None:
        return None
    return conv(call, call.st, call.val(0), to, prog, frm)


# ------------------------------------------------------------------ comparison
@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _eq(call):
    a, b = call.val(0), call.val(1)
    ne = call.path.endswith("::ne")

    def fin(t):
        return neg(t) if ne else t
    if a is b:
        return call.ret(fin(TRUE))
    ty, prog = call.ty(0)
    path = None
    if ty is not None:
        t = peel(ty, prog)
        if t["k"] == "adt":
            path = t["path"]
    if path is None and a.op == "adt":
        path = a.a[0]
    return [(st, fin(r)) for st, r in eq_vals(call, call.st, a, b, path)]


def eq_vals(call, st, a, b, path):
    e = call.e
    a, b = e.deref(st, a), e.deref(st, b)
    if a is b:
        return [(st, TRUE)]
    info = e.w.lib.adt_by_path.get(path) if path else None
    if info is not None and info["local"]:
        bs = [x for x in e.trait_impls.get(("std::cmp::PartialEq", "eq"), [])
              if x.prog.peel(x.impl)["k"] == "adt" and x.prog.peel(x.impl)["path"] == path]
        if bs and not bs[0].derived:
            return e.call_body(st, bs[0], [a, b], call.fr.depth + 1)
        if a.op == "adt" and b.op == "adt":
            return [(st, eq(a, b))]
        # derived: compare variants first
        if info["kind"] == "enum":
            out = []
            x, y = (a, b) if a.op == "adt" else (b, a)
            if x.op == "adt":
                vs = tuple(v["name"] for v in info["variants"])
                if not x.a[2]:
                    return [(st, mk("is", y, x.a[5], vs))]
                for s2, r in e.branch(st, mk("is", y, x.a[5], vs)):
                    if not r:
                        out.append((s2, FALSE))
                        continue
                    c = conj(*[eq(f, proj(y, x.a[5], i, n)) for i, (f, n) in enumerate(zip(x.a[2], x.a[4]))])
                    out.append((s2, c))
                return out
    if path in (OPT, RES) or (a.op == "adt" and a.a[0] in (OPT, RES)) or (b.op == "adt" and b.a[0] in (OPT, RES)):
        pth = path if path in (OPT, RES) else (a.a[0] if a.op == "adt" else b.a[0])
        out = []
        for s2, va in e.variant(st, a, pth):
            for s3, vb in e.variant(s2, b, pth):
                if va != vb:
                    out.append((s3, FALSE))
                elif va == "None":
                    out.append((s3, TRUE))
                else:
                    x, y = proj(a, va, 0, "0"), proj(b, vb, 0, "0")
                    out.extend(eq_vals(call, s3, x, y, x.a[0] if x.op == "adt" else None))
        return out
    if is_collterm(a) and is_collterm(b) and a.op == "coll" and b.op == "coll" and all(k == "e" for k, _ in a.a[1] + b.a[1]):
        if len(a.a[1]) != len(b.a[1]):
            return [(st, FALSE)]
        if a.a[0] in ("set", "map") and b.a[0] == a.a[0]:
            ismap = a.a[0] == "map"
            outs = []
            todo = [(st, TRUE, list(a.a[1]))]
            while todo:
                s2, c, ps = todo.pop()
                if not ps:
                    outs.append((s2, c))
                    continue
                x = ps[0][1]
                for s3, hit in lookup(call, s2, b, x.a[0][0] if ismap else x, (None, None, None)):
                    if hit is None:
                        outs.append((s3, FALSE))
                    elif ismap:
                        vx, vy = x.a[0][1], hit.a[0][1]
                        for s4, c2 in eq_vals(call, s3, vx, vy, vx.a[0] if vx.op == "adt" else None):
                            todo.append((s4, conj(c, c2), ps[1:]))
                    else:
                        todo.append((s3, c, ps[1:]))
            return outs
        outs = [(st, TRUE)]
        for (k, x), (k2, y) in zip(a.a[1], b.a[1]):
            nxt = []
            for s2, c in outs:
                for s3, c2 in eq_vals(call, s2, x, y, x.a[0] if x.op == "adt" else None):
                    nxt.append((s3, conj(c, c2)))
            outs = nxt
        return outs
    if a.op == "bstr" or b.op == "bstr":
        from absint import streq
        return [(st, streq(a, b))]
    return [(st, eq(a, b))]


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _ord(call):
    a, b = call.val(0), call.val(1)
    n = call.path.split("::")[-1]
    from absint import int_sorted
    if int_sorted(a) or int_sorted(b) or a.op == "byte" or b.op == "byte":
        return call.ret({"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[n])
    return None


@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def _cmp(call):
    a, b = call.val(0), call.val(1)
    O = "std::cmp::Ordering"
    def o(v, n):
        x = adt(O, v, (), (), n)
        return some(x) if "partial" in call.path else x
    from absint import int_sorted
    out = []
    if a.op == "str" and b.op == "str":
        return call.ret(o(0, "Less") if a.a[0] < b.a[0] else o(2, "Greater") if a.a[0] > b.a[0] else o(1, "Equal"))
    for st, r in call.e.branch(call.st, eq(a, b)):
        if r:
            out.append((st, o(1, "Equal")))
        else:
            lt_ = lt(a, b) if (int_sorted(a) or int_sorted(b)) else mk("lt", a, b)
            for s2, r2 in call.e.branch(st, lt_):
                out.append((s2, o(0, "Less") if r2 else o(2, "Greater")))
    return out


@model("std::cmp::min", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::Ord::max")
def _minmax(call):
    a, b = call.val(0), call.val(1)
    mn = call.path.endswith("min")
    return [(st, (a if r else b) if mn else (b if r else a)) for st, r in call.e.branch(call.st, le(a, b))]


@model("std::hash::Hash::hash")
def _hash(call):
    b = call.e.dispatch_local(call)
    if b is not None and not b.derived:
        return call.e.call_body(call.st, b, call.args, call.fr.depth + 1)
    p = call.args[1]
    h = call.val(1)
    if h.op == "tup":
        call.setp(p, mk("tup", h.a[0] + (call.val(0),)))
    return call.ret(UNIT)


@model("std::intrinsics::discriminant_value", "std::mem::discriminant")
def _dv(call):
    v = call.val(0)
    ty, prog = call.ty(0)
    if ty is None:
        return None
    return call.ret(call.e.disc(call.st, v, peel(ty, prog), prog))


# ------------------------------------------------------------------ cells
@model("std::cell::Cell::new", "std::cell::RefCell::new")
def _cnew(call):
    k = call.e.new_cell(call.st, call.args[0])
    return call.ret(mk("cell", k))


def _cell(call):
    v = call.val(0)
    return v.a[0] if v.op == "cell" else None


@model("std::cell::Cell::get", "std::cell::RefCell::borrow")
def _cget(call):
    k = _cell(call)
    if k is None:
        return None
    return call.ret(call.st.mem.get(k, mk("uninit")))


@model("std::cell::RefCell::borrow_mut", "std::cell::Cell::as_ptr")
def _cbm(call):
    k = _cell(call)
    return None if k is None else call.ret(mk("ptr", k, ()))


@model("std::cell::Cell::set")
def _cset(call):
    k = _cell(call)
    if k is None:
        return None
    call.st.mem[k] = call.args[1]
    return call.ret(UNIT)


@model("std::cell::Cell::replace", "std::cell::RefCell::replace")
def _crep(call):
    k = _cell(call)
    if k is None:
        return None
    old = call.st.mem.get(k)
    call.st.mem[k] = call.args[1]
    return call.ret(old)


# ------------------------------------------------------------------ formatting
def display(call, st, v, ty, prog, debug=False):
    """[(state, text)]"""
    e = call.e
    v = e.deref(st, v)
    while v.op == "box":
        v = e.deref(st, v.a[0])
    if v.op in ("str", "cat"):
        x = dbg_text(e, st, v, None, None) if debug else None
        return [(st, v if not debug else mk("dbg", v) if x is None else S(x))]
    t = peel(ty, prog) if ty is not None else None
    while t is not None and t["k"] == "adt" and t["path"].split("::")[-1] in ("Box", "Arc", "Rc", "Cow") and t.get("args"):
        a = [x for x in t["args"] if isinstance(x, int)]
        if t["path"].endswith("Cow"):
            t = {"k": "str", "s": "str"}
            break
        t = peel(prog.ty(a[0]), prog)
    if debug:
        if t is not None and t["k"] == "adt":
            bs = [b for b in e.trait_impls.get(("std::fmt::Debug", "fmt"), []) if not b.derived
                  and b.prog.peel(b.impl).get("path") == t["path"]]
            if bs:
                return run_fmt(call, st, bs[0], v)
        x = dbg_text(e, st, v, t, prog)
        return [(st, mk("dbg", v) if x is None else S(x))]
    if v.op == "int":
        if t is not None and t["k"] == "char":
            return [(st, S(chr(v.a[0])))]
        return [(st, S(str(v.a[0])))]
    if v.op == "bool":
        return [(st, S("true" if v.a[0] else "false"))]
    if v.op == "flt":
        import models2
        return [(st, S(models2.show_float(v.a[0])))]
    path = None
    if t is not None and t["k"] == "adt":
        path = t["path"]
    elif v.op == "adt":
        path = v.a[0]
    if path is not None and path.endswith("string::String"):
        return [(st, v)]
    if path is not None:
        bs = [b for b in e.trait_impls.get(("std::fmt::Display", "fmt"), []) if b.prog.peel(b.impl).get("path") == path]
        if bs:
            h = e.hooks.get(("Display", path.split("::")[-1]))
            if h is not None:
                return h(call, st, v)
            return run_fmt(call, st, bs[0], v)
    if t is not None and t["k"] == "str":
        return [(st, v)]
    return [(st, mk("disp", v))]


def dbg_text(e, st, v, t, prog):
    """{:?} of a value that is known completely"""
    v = e.deref(st, v)
    if v.op == "str":
        return json.dumps(v.a[0], ensure_ascii=False) if all(32 <= ord(c) < 127 for c in v.a[0]) else None
    if v.op == "bool":
        return "true" if v.a[0] else "false"
    if v.op == "int":
        if t is None or t["k"] == "char":
            return None if t is None or not 32 <= v.a[0] < 127 else "'%s'" % chr(v.a[0]).replace("\\", "\\\\").replace("'", "\\'")
        return str(v.a[0]) if t["k"] == "num" else None
    args = [] if prog is None else [peel(prog.ty(x), prog) for x in (t or {}).get("args") or [] if isinstance(x, int)]
    if v.op == "coll" and v.a[0] == "vec" and all(k == "e" for k, _ in v.a[1]):
        it = peel(prog.ty(t["to"]), prog) if t is not None and t["k"] in ("slice", "array") else args[0] if args else None
        xs = [dbg_text(e, st, x, it, prog) for _, x in v.a[1]]
        return None if None in xs else "[" + ", ".join(xs) + "]"
    if v.op == "tup" and (t is None or t["k"] == "tuple"):
        xs = [dbg_text(e, st, x, args[i] if i < len(args) else None, prog) for i, x in enumerate(v.a[0])]
        return None if None in xs else "(" + ", ".join(xs) + ("," if len(xs) == 1 else "") + ")"
    if v.op == "adt" and v.a[0] in (OPT, RES):
        i = 1 if v.a[5] == "Err" else 0
        xs = [dbg_text(e, st, x, args[i] if i < len(args) else None, prog) for x in v.a[2]]
        return None if None in xs else v.a[5] + ("(" + ", ".join(xs) + ")" if xs else "")
    if v.op == "adt" and not v.a[2] and v.a[5]:
        bs = [b for b in e.trait_impls.get(("std::fmt::Debug", "fmt"), []) if b.derived and b.prog.peel(b.impl).get("path") == v.a[0]]
        return v.a[5] if bs else None
    return None


def run_fmt(call, st, body, v):
    e = call.e
    k = e.new_cell(st, S(""))
    out = []
    e.pinned.append(k)
    for s2, r in e.call_body(st, body, [v, mk("ptr", k, ())], call.fr.depth + 1):
        out.append((s2, s2.mem.pop(k, S(""))))
    e.pinned.pop()
    return out


@model("core::fmt::rt::Argument::new_display")
def _nd(call):
    ty, prog = call.ty(0)
    return [(st, mk("fa", x)) for st, x in display(call, call.st, call.args[0], ty, prog)]


@model("core::fmt::rt::Argument::new_debug")
def _ndb(call):
    ty, prog = call.ty(0)
    return [(st, mk("fa", x)) for st, x in display(call, call.st, call.args[0], ty, prog, True)]


@model("std::fmt::Arguments::from_str")
def _afs(call):
    return call.ret(mk("fargs", call.val(0)))


def template(e, t, args):
    b = t.a[0] if t.op == "bytes" else tuple(t.a[0].encode("latin1")) if t.op == "str" else None
    if b is None:
        return None
    out, i, n = [], 0, 0
    while i < len(b):
        c = b[i]
        if c == 0:
            return cat(out)
        if c < 128:
            out.append(S(bytes(b[i + 1:i + 1 + c]).decode("utf8", "replace")))
            i += 1 + c
        elif c == 128:
            ln = b[i + 1] | (b[i + 2] << 8)
            out.append(S(bytes(b[i + 3:i + 3 + ln]).decode("utf8", "replace")))
            i += 3 + ln
        else:
            opts = c & 0x3f
            i += 1
            fl = wi = pr = None
            if opts & 1:
                fl = tuple(b[i:i + 4])
                i += 4
            if opts & 2:
                wi = b[i] | b[i + 1] << 8
                i += 2
            if opts & 4:
                pr = b[i] | b[i + 1] << 8
                i += 2
            ix = n
            if opts & 8:
                ix = b[i] | b[i + 1] << 8
                i += 2
            if ix >= len(args):
                return None
            a = args[ix]
            if fl or wi or pr:
                a = mk("padded", a, str((fl, wi, pr)))
            out.append(a)
            n = ix + 1
    return cat(out)


@model("std::fmt::Arguments::new")
def _an(call):
    t, a = call.val(0), call.val(1)
    if not (a.op == "coll" and all(k == "e" for k, _ in a.a[1])):
        return None
    args = [x.a[0] if x.op == "fa" else mk("disp", x) for _, x in a.a[1]]
    r = template(call.e, t, args)
    if r is None:
        return None
    return call.ret(mk("fargs", r))


def ftext(v):
    return v.a[0] if v.op == "fargs" else mk("disp", v)


@model("std::fmt::format", "std::fmt::Arguments::to_string", "alloc::fmt::format")
def _format(call):
    return call.ret(ftext(call.val(0)))


def sink(call, s):
    p = call.args[0]
    v = call.val(0)
    if p.op == "ptr" and v.op in ("str", "cat", "disp", "dbg", "utf8", "sym", "fld", "join", "jv", "chr", "padded") or (p.op == "ptr" and is_strish(v)):
        call.setp(p, cat([v, s]))
        return call.ret(ok(UNIT))
    return None


def is_strish(v):
    return v.op in ("el", "ext")


@model("std::fmt::Formatter::write_fmt", "std::fmt::Write::write_fmt")
def _wf(call):
    return sink(call, ftext(call.val(1)))


@model("std::fmt::Formatter::write_str", "std::fmt::Formatter::pad", "std::fmt::Write::write_str")
def _ws(call):
    return sink(call, call.val(1))


@model("std::fmt::Formatter::write_char", "std::fmt::Write::write_char")
def _wc(call):
    return sink(call, chr_term(call.val(1)))


@model("std::fmt::Display::fmt")
def _dfmt(call):
    ty, prog = call.ty(0)
    out = []
    for st, s in display(call, call.st, call.args[0], ty, prog):
        p = call.args[1]
        call.setp(p, cat([call.e.deref(st, p), s]), st)
        out.append((st, ok(UNIT)))
    return out


@model("std::string::ToString::to_string")
def _tos(call):
    ty, prog = call.ty(0)
    b = call.e.dispatch_local(call)
    if b is not None:
        return call.e.call_body(call.st, b, call.args, call.fr.depth + 1)
    v = call.val(0)
    if ty is not None and ty["k"] == "param":
        ty = None
    return display(call, call.st, v, ty, prog)


# ------------------------------------------------------------------ strings and characters
def chr_term(c):
    return S(chr(c.a[0])) if c.op == "int" else mk("chr", c)


@model("std::string::String::push")
def _spush(call):
    call.setp(call.args[0], cat([call.val(0), chr_term(call.val(1))]))
    return call.ret(UNIT)


@model("std::string::String::push_str")
def _spushs(call):
    x = call.val(1)
    call.setp(call.args[0], cat([call.val(0), chr_term(x) if x.op in ("int", "byte") else x]))
    return call.ret(UNIT)


@model("std::ops::Add::add")
def _sadd(call):
    ty, prog = call.ty(0)
    if ty is not None and ty["k"] == "adt" and ty["path"].endswith("String"):
        return call.ret(cat([call.val(0), call.val(1)]))
    return call.ret(add(call.val(0), call.val(1)))


@model("std::ops::AddAssign::add_assign")
def _sadda(call):
    ty, prog = call.ty(0)
    if ty is not None and ty["k"] == "adt" and ty["path"].endswith("String"):
        call.setp(call.args[0], cat([call.val(0), call.val(1)]))
        return call.ret(UNIT)
    return None


def bytesof(s):
    return s.a[0] if s.op == "str" else None


@model("core::str::contains", "core::str::starts_with", "core::str::ends_with")
def _scontains(call):
    s, p = call.val(0), call.val(1)
    n = call.path.split("::")[-1]
    pv = p.a[0] if p.op == "str" else chr(p.a[0]) if p.op == "int" else None
    if s.op == "str" and pv is not None:
        return call.ret(B({"contains": pv in s.a[0], "starts_with": s.a[0].startswith(pv), "ends_with": s.a[0].endswith(pv)}[n]))
    if n == "starts_with" and s.op == "cat" and s.a[0][0].op == "str" and pv is not None and s.a[0][0].a[0].startswith(pv):
        return call.ret(TRUE)
    if n == "contains" and s.op == "cat" and pv is not None and any(x.op == "str" and pv in x.a[0] for x in s.a[0]):
        return call.ret(TRUE)
    return call.ret(mk("spred", n, s, p))


NEVER8 = frozenset(range(0xf8, 0x100))


def text_bytes(call, st, b):
    """[(state, bytes of an explicit slice, all ASCII?)] or None"""
    if b.op != "coll" or any(k != "e" for k, _ in b.a[1]):
        return None
    els = [x for _, x in b.a[1]]
    if any(x.op not in ("int", "byte") for x in els):
        return None
    outs = [(st, True)]
    for x in els:
        nxt = []
        for s, r in outs:
            if not r:
                nxt.append((s, r))
                continue
            for s2, r2 in call.e.branch(s, lt(x, I(128))):
                nxt.append((s2, r2))
        outs = nxt
    return [(s, els, r) for s, r in outs]


def mkbstr(st, els):
    v = []
    for x in els:
        if x.op == "byte":
            d = st.dom.get(x)
            if d is not None and len(d) == 1:
                x = I(next(iter(d)))
        v.append(x)
    if all(x.op == "int" for x in v):
        return S("".join(chr(x.a[0]) for x in v))
    return mk("bstr", tuple(v))


@model("core::str::chars", "core::str::bytes", "core::str::char_indices")
def _chars(call):
    s = call.val(0)
    if s.op == "str" and s.a[0].isascii():
        v = [I(ord(c)) for c in s.a[0]]
    elif s.op == "bstr":
        v = list(s.a[0])
    else:
        return None
    if call.path.endswith("indices"):
        v = [tup(I(i), x) for i, x in enumerate(v)]
    return call.ret(mk("it", tuple(("e", x) for x in v)))


@model("core::str::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes")
def _as_bytes(call):
    s = call.val(0)
    if s.op == "str":
        return call.ret(coll("vec", [("e", I(c)) for c in s.a[0].encode()]))
    if s.op == "bstr":
        return call.ret(coll("vec", [("e", c) for c in s.a[0]]))
    return call.ret(s)


def num_parse(st, s, ty):
    """True/False/None: does the text parse?"""
    import re
    if s.op not in ("str", "bstr"):
        return None
    els = [I(ord(c)) for c in s.a[0]] if s.op == "str" else list(s.a[0])
    doms = [frozenset((x.a[0],)) if x.op == "int" else st.dom.get(x, frozenset(range(256))) for x in els]
    D = frozenset(range(48, 58))
    t = ""
    for d in doms:
        if d <= D:
            t += "d"
        elif d == frozenset((46,)):
            t += "."
        elif not (d & (D | frozenset(b"+-.eE_infatyNIFATY"))):
            t += "x"
        else:
            return None
    if "x" in t:
        return False
    if ty in ("i64", "u64", "usize", "isize", "i128", "u128"):
        if "." in t or not t:
            return False
        if s.op == "str":
            n = int(s.a[0])
            return n < {"i64": 1 << 63, "isize": 1 << 63, "i128": 1 << 127, "u128": 1 << 128}.get(ty, 1 << 64)
        return True if len(t) <= 18 else None
    if ty in ("i32", "u32"):
        return False if "." in t or not t else (True if len(t) <= 9 else None) if s.op != "str" else int(s.a[0]) < (1 << (31 if ty == "i32" else 32))
    if ty in ("f64", "f32"):
        return t.count(".") <= 1 and "d" in t
    return None


@model("core::str::parse")
def _parse(call):
    s = call.val(0)
    _ty = call.ty(0)[0]
    r = num_parse(call.st, s, _ty["s"]) if _ty else None
    if r is not None:
        return call.ret(ok(mk("num", s, _ty["s"])) if r else err(mk("parse_err", s, _ty["s"])))
    ty, prog = call.ty(0)
    n = ty["s"] if ty else "?"
    at = mk("parses", s, n)
    return [(st, ok(mk("num", s, n)) if r else err(mk("parse_err", s, n))) for st, r in call.e.branch(call.st, at)]


@model("core::str::trim", "core::str::trim_start", "core::str::trim_end", "core::str::to_lowercase", "core::str::to_uppercase",
       "core::str::to_ascii_lowercase", "core::str::to_ascii_uppercase", "std::str::to_lowercase", "std::str::to_uppercase")
def _strim(call):
    s = call.val(0)
    n = call.path.split("::")[-1]
    if s.op == "str":
        f = {"trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip}.get(n) or (str.lower if "lower" in n else str.upper)
        return call.ret(S(f(s.a[0])))
    return call.ret(mk("sfn", n, s))


for _nm in ("is_alphanumeric", "is_alphabetic", "is_numeric", "is_whitespace", "is_ascii_digit", "is_ascii_alphanumeric",
            "is_ascii_alphabetic", "is_ascii_whitespace", "is_ascii_lowercase", "is_ascii_uppercase", "is_ascii", "is_control",
            "is_ascii_control", "is_ascii_graphic", "is_ascii_punctuation"):
    def _f(call, nm=_nm):
        import absint
        v = call.val(0)
        if v.op == "int":
            r = absint.chp_eval(nm, v.a[0])
            if r is not None:
                return call.ret(B(r))
        return call.ret(mk("chp", nm, v))
    MODELS["std::char::methods::" + _nm] = _f
    MODELS["core::num::" + _nm] = _f
    MODELS["core::char::methods::" + _nm] = _f


@model("std::str::from_utf8", "core::str::converts::from_utf8")
def _futf8(call):
    b = call.val(0)
    h = getattr(call.e, "utf8_hook", None)
    if h is not None:
        return h(call, b)
    t = text_bytes(call, call.st, b)
    if t is not None:
        out = []
        for st, els, r in t:
            if r:
                out.append((st, ok(mkbstr(st, els))))
            else:
                # bytes from 0xf8 on never occur in UTF-8; other non-ASCII texts are left undecided
                call.e.nonascii += 1
                for x in els:
                    d = (st.dom.get(x, frozenset(range(256))) if x.op == "byte" else frozenset((x.a[0],))) & NEVER8
                    if d:
                        if x.op == "byte":
                            st.dom[x] = d
                        out.append((st, err(mk("utf8err", b))))
                        break
        return out
    return [(st, ok(mk("utf8", b)) if r else err(mk("utf8err", b))) for st, r in call.e.branch(call.st, mk("isutf8", b))]


@model("std::string::String::from_utf8")
def _sfutf8(call):
    b = call.val(0)
    return [(st, ok(mk("utf8", b)) if r else err(mk("utf8err", b))) for st, r in call.e.branch(call.st, mk("isutf8", b))]


@model("std::string::String::from_utf8_lossy")
def _lossy(call):
    t = text_bytes(call, call.st, call.val(0))
    if t is not None:
        return [(st, mkbstr(st, els) if r else mk("lossy", call.val(0))) for st, els, r in t]
    return call.ret(mk("lossy", call.val(0)))


# ------------------------------------------------------------------ panics
def _panic(call):
    call.panic(call.st, call.path)
    return []


for p in ("core::panicking::panic_fmt", "core::panicking::panic", "core::panicking::assert_failed", "std::rt::begin_panic",
          "core::panicking::todo_default_msg", "core::panicking::unreachable_default_msg", "core::panicking::panic_explicit",
          "core::panicking::panic_display", "core::panicking::panic_const::panic_const_add_overflow", "core::panicking::unimplemented_default_msg",
          "std::option::expect_failed", "std::option::unwrap_failed", "std::result::unwrap_failed",
          "core::panicking::unreachable_display", "std::process::abort", "std::intrinsics::abort"):
    MODELS[p] = _panic


@model("std::process::exit")
def _exit(call):
    call.e.events(call.st, tup(S("exit"), call.val(0)))
    call.e.ended.append(call.st)
    return []


# ------------------------------------------------------------------ functions as values
@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _callfn(call):
    t = call.val(1)
    args = list(t.a[0]) if t.op == "tup" else [t]
    return call.e.call_value(call.st, call.fr, call.args[0], args, call.blk)


# ------------------------------------------------------------------ petgraph
PG = "semantic_analyzer::petgraph::"


def graph(nodes=None, edges=None):
    return mk("graph", nodes or coll("set", ()), edges or coll("set", ()))


def pg(name):
    return (PG + name, "petgraph::" + name, "syntactic_analyzer::petgraph::" + name)


@model(*pg("graphmap::GraphMap::new"), *pg("prelude::GraphMap::new"))
def _gnew(call):
    return call.ret(graph())


def set_add(call, st, s, x):
    out = []
    for s2, old in lookup(call, st, s, x, (None, None, None)):
        out.append((s2, s if old is not None else coll("set", tuple(parts_of(s)) + (("e", x),))))
    return out


@model(*pg("graphmap::GraphMap::add_node"))
def _gadd(call):
    g = call.val(0)
    x = call.val(1)
    if g.op != "graph":
        return None
    out = []
    for st, ns in set_add(call, call.st, g.a[0], x):
        call.setp(call.args[0], mk("graph", ns, g.a[1]), st)
        out.append((st, x))
    return out


def edge_add(call, st, g, a, b):
    out = []
    for s1, n1 in set_add(call, st, g.a[0], a):
        for s2, n2 in set_add(call, s1, n1, b):
            for s3, es in set_add(call, s2, g.a[1], tup(a, b)):
                out.append((s3, mk("graph", n2, es)))
    return out


@model(*pg("graphmap::GraphMap::add_edge"))
def _gedge(call):
    g = call.val(0)
    if g.op != "graph":
        return None
    out = []
    for st, g2 in edge_add(call, call.st, g, call.val(1), call.val(2)):
        call.setp(call.args[0], g2, st)
        out.append((st, NONE))
    return out


@model(*pg("graphmap::GraphMap::contains_node"))
def _gcontains(call):
    g = call.val(0)
    if g.op != "graph":
        return None
    return [(st, B(x is not None)) for st, x in lookup(call, call.st, g.a[0], call.args[1], (None, None, None))]


@model(*pg("graphmap::GraphMap::contains_edge"))
def _gcedge(call):
    g = call.val(0)
    if g.op != "graph":
        return None
    return [(st, B(x is not None)) for st, x in lookup(call, call.st, g.a[1], tup(call.val(1), call.val(2)), (None, None, None))]


@model(*pg("graphmap::GraphMap::node_count"))
def _gnc(call):
    g = call.val(0)
    return call.ret(length(g.a[0])) if g.op == "graph" else None


@model(*pg("graphmap::GraphMap::edge_count"))
def _gec(call):
    g = call.val(0)
    return call.ret(length(g.a[1])) if g.op == "graph" else None


@model(*pg("graphmap::GraphMap::nodes"))
def _gnodes(call):
    g = call.val(0)
    return call.ret(mk("it", parts_of(g.a[0]))) if g.op == "graph" else None


@model(*pg("graphmap::GraphMap::from_edges"))
def _gfe(call):
    it = as_iter(call.e, call.st, call.args[0])
    if it.op != "it":
        return None
    work = [(call.st, graph(), list(it.a[0]))]
    out = []
    while work:
        st, g, ps = work.pop()
        if not ps:
            out.append((st, g))
            continue
        k, x = ps[0]
        if k == "e":
            a, b = proj(x, "", 0, "0"), proj(x, "", 1, "1")
            for s2, g2 in edge_add(call, st, g, a, b):
                work.append((s2, g2, ps[1:]))
        else:
            ns = coll("set", tuple(parts_of(g.a[0])) + (("s", gmap(x, EV, proj(EV, "", 0, "0"))), ("s", gmap(x, EV, proj(EV, "", 1, "1")))))
            es = coll("set", tuple(parts_of(g.a[1])) + (("s", gmap(x, EV, tup(proj(EV, "", 0, "0"), proj(EV, "", 1, "1")))),))
            work.append((st, mk("graph", ns, es), ps[1:]))
    return out


def graph_of(e, st, v):
    v = e.deref(st, v)
    return v if v.op == "graph" else None


def reach(e, st, g, a):
    """known successors closure of node a: (set of terms, complete?)"""
    seen, work, complete = [a], [a], True
    es = parts_of(g.a[1])
    while work:
        x = work.pop()
        for k, y in es:
            if k == "s":
                complete = False
                continue
            s, t = y.a[0]
            r = e.truth(st, eq(s, x))
            if r is None:
                complete = False
            elif r and not any(t is z or e.truth(st, eq(t, z)) for z in seen):
                seen.append(t)
                work.append(t)
    return seen, complete


@model(*pg("algo::toposort"), *pg("algo::is_cyclic_directed"))
def _topo(call):
    g = graph_of(call.e, call.st, call.val(0))
    if g is None:
        return None
    e = call.e
    bools = call.path.endswith("directed")

    def res(cyc):
        if bools:
            return B(cyc)
        return err(mk("cycle", g)) if cyc else ok(mk("topo", g))
    at = mk("cyclic", g)
    r = e.truth(call.st, at)
    if r is None:
        complete = True
        for k, y in parts_of(g.a[1]):
            if k == "s":
                complete = False
                continue
            s, t = y.a[0]
            seen, c = reach(e, call.st, g, t)
            complete = complete and c
            if any(s is z or e.truth(call.st, eq(s, z)) for z in seen):
                r = True
                break
        if r is None and complete:
            r = False
    if r is not None:
        return call.ret(res(r))
    return [(st, res(v)) for st, v in e.branch(call.st, at)]


@model(*pg("algo::has_path_connecting"))
def _hpc(call):
    g = graph_of(call.e, call.st, call.val(0))
    if g is None:
        return None
    e = call.e
    a, b = call.val(1), call.val(2)
    at = mk("path", g, a, b)
    r = e.truth(call.st, at)
    if r is None:
        seen, complete = reach(e, call.st, g, a)
        if any(b is z or e.truth(call.st, eq(b, z)) for z in seen):
            r = True
        elif complete:
            rs = [e.truth(call.st, eq(b, z)) for z in seen]
            if all(x is False for x in rs):
                r = False
    if r is not None:
        return call.ret(B(r))
    return [(st, B(v)) for st, v in e.branch(call.st, at)]


# ------------------------------------------------------------------ prelude definitions
PRELUDE = {}
for n in ("all", "any", "find", "find_map", "position", "count", "for_each", "fold", "try_for_each", "try_fold", "last", "nth"):
    PRELUDE["std::iter::Iterator::" + n] = "iter_" + n
for n in ("map", "and_then", "or_else", "or", "and", "unwrap_or", "unwrap_or_else", "ok_or", "ok_or_else", "filter", "is_some_and",
          "is_none_or", "map_or", "map_or_else", "zip", "flatten", "is_some", "is_none", "get_or_insert_with", "as_mut"):
    PRELUDE["std::option::Option::" + n] = "opt_" + n
for n in ("map", "map_err", "and_then", "or_else", "ok", "err", "unwrap_or", "unwrap_or_else", "is_ok", "is_err", "map_or",
          "map_or_else", "is_ok_and"):
    PRELUDE["std::result::Result::" + n] = "res_" + n
PRELUDE["core::bool::then"] = "bool_then"
PRELUDE["core::bool::then_some"] = "bool_then_some"
PRELUDE["std::vec::Vec::retain"] = "vec_retain"
PRELUDE["core::slice::contains"] = "slice_contains"
PRELUDE["std::collections::VecDeque::contains"] = "slice_contains"


# ------------------------------------------------------------------ serde
@model("serde_json::to_string_pretty", "serde_json::to_string")
def _tojson(call):
    return call.ret(ok(mk("json", call.e.freeze(call.st, call.args[0]))))


@model("serde::Serialize::serialize")
def _ser(call):
    return call.ret(ok(mk("json", call.e.freeze(call.st, call.args[0]))))


@model("serde::Serializer::serialize_struct", "serde::Serializer::serialize_struct_variant", "serde::Serializer::serialize_tuple_variant",
       "serde::Serializer::serialize_map", "serde::Serializer::serialize_tuple", "serde::Serializer::serialize_tuple_struct", "serde::Serializer::serialize_seq")
def _serstart(call):
    k = call.path.split("serialize_")[-1]
    tag = call.val(3) if k.endswith("_variant") else UNIT
    return call.ret(ok(mk("jopen", k, tag, ())))


@model("serde::ser::SerializeStruct::serialize_field", "serde::ser::SerializeStructVariant::serialize_field", "serde::ser::SerializeMap::serialize_entry",
       "serde::ser::SerializeTupleVariant::serialize_field", "serde::ser::SerializeTuple::serialize_element", "serde::ser::SerializeSeq::serialize_element",
       "serde::ser::SerializeTupleStruct::serialize_field")
def _serfield(call):
    v = call.val(0)
    if v.op != "jopen":
        return None
    it = (tup(call.val(1), mk("json", call.e.freeze(call.st, call.args[2]))) if len(call.args) > 2 else mk("json", call.e.freeze(call.st, call.args[1])))
    call.setp(call.args[0], mk("jopen", v.a[0], v.a[1], v.a[2] + (it,)))
    return call.ret(ok(UNIT))


@model("serde::ser::SerializeStruct::skip_field", "serde::ser::SerializeStructVariant::skip_field")
def _serskip(call):
    return call.ret(ok(UNIT))


@model("serde::ser::SerializeStruct::end", "serde::ser::SerializeStructVariant::end", "serde::ser::SerializeTupleVariant::end",
       "serde::ser::SerializeMap::end", "serde::ser::SerializeTuple::end", "serde::ser::SerializeSeq::end", "serde::ser::SerializeTupleStruct::end")
def _serend(call):
    v = call.val(0)
    if v.op != "jopen":
        return None
    return call.ret(ok(mk("jdone", *v.a)))


@model("serde::Serializer::serialize_unit_variant")
def _seruv(call):
    return call.ret(ok(mk("jdone", "unit_variant", call.val(3), ())))


@model("serde::Serializer::serialize_newtype_variant")
def _sernv(call):
    return call.ret(ok(mk("jdone", "newtype_variant", call.val(3), (mk("json", call.e.freeze(call.st, call.args[4])),))))


@model("serde::Serializer::serialize_newtype_struct")
def _serns(call):
    return call.ret(ok(mk("json", call.e.freeze(call.st, call.args[2]))))


@model("serde::Serializer::serialize_some", "serde::Serializer::serialize_bool")
def _serprim(call):
    return call.ret(ok(mk("json", call.e.freeze(call.st, call.args[1]))))


@model(*["serde::Serializer::serialize_" + t for t in "u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64".split()])
def _sernum(call):
    return call.ret(ok(mk("json", call.e.freeze(call.st, call.args[1]), "num")))


@model("serde::Serializer::serialize_str", "serde::Serializer::serialize_char")
def _serstr(call):
    return call.ret(ok(mk("json", call.e.freeze(call.st, call.args[1]), "str")))


@model("serde::Serializer::collect_seq")
def _serseq(call):
    v = call.val(1)
    if v.op != "coll" or any(k != "e" for k, _ in v.a[1]):
        return None
    return call.ret(ok(mk("jdone", "seq", UNIT, tuple(mk("json", call.e.freeze(call.st, x)) for _, x in v.a[1]))))


@model("serde::Serializer::serialize_none", "serde::Serializer::serialize_unit")
def _sernone(call):
    return call.ret(ok(mk("json", NONE)))
