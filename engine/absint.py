"""Abstract interpreter over MIR.

Values are terms (terms.py, seqs.py). Control flow is followed path-sensitively; at loop heads the arriving states
are partitioned by their control shape and joined by least general generalisation until a fixpoint is reached.
"""
import itertools, json, math, os, re, sys, time
from terms import *
from seqs import *
import mir
from mir import strip_generics


SECONDS = 60     # for one abstract run


DEEP = 300       # nested calls on an explicit input of a few dozen elements that count as endless
LONG = 1500      # iterations of one loop, likewise


HASH_REV = False
ENGINES = None   # a list: remember every engine
TRACK = None     # a set: remember the blocks visited


class Budget(Exception):
    pass


class Diverges(Budget):
    """an explicit input of a few dozen elements leads to endless recursion"""
    def __init__(self, text, body):
        Budget.__init__(self, text)
        self.body = body


UNINIT = mk("uninit")
_ctr = itertools.count(1)


class St:
    __slots__ = ("mem", "facts", "dom", "world", "taint", "lossy", "symc", "via", "last_subst")

    def __init__(self):
        self.mem, self.facts, self.dom, self.world = {}, {}, {}, {}
        self.taint = frozenset()
        self.lossy = False
        self.symc = 0
        self.via = ()
        self.last_subst = None

    def copy(self):
        s = St.__new__(St)
        s.mem, s.facts, s.dom, s.world = dict(self.mem), dict(self.facts), dict(self.dom), dict(self.world)
        s.taint, s.lossy, s.symc, s.via = self.taint, self.lossy, self.symc, self.via
        s.last_subst = None
        return s

    def add_taint(self, why):
        if why not in self.taint:
            self.taint = self.taint | {why}

    def subst(self, m):
        memo = {}
        for d in (self.mem, self.world):
            for k, v in list(d.items()):
                if isinstance(v, T):
                    d[k] = subst(v, m, memo)
        nf = {}
        for k, v in self.facts.items():
            k2 = subst(k, m, memo)
            if k2.op == "bool":
                if k2.a[0] != v:
                    return False
                continue
            if k2.op == "not":
                k2, v = k2.a[0], not v
            nf[k2] = v
        self.facts = nf
        self.dom = {subst(k, m, memo): v for k, v in self.dom.items()}
        return True


class Frame:
    __slots__ = ("body", "fid", "depth", "sub")

    def __init__(self, body, fid, depth):
        self.body, self.fid, self.depth = body, fid, depth


def ptr(key, path=()):
    return mk("ptr", key, path)


def is_(x, v, allv):
    """x (an enum value) is of variant v"""
    if x.op == "adt":
        return B(x.a[5] == v)
    return mk("is", x, v, tuple(allv))


import terms as _terms
_terms._rebuilders["is"] = lambda x, v, allv: is_(x, v, allv)
_terms._rebuilders["disc"] = lambda x, p: x if x.op != "adt" else mk("disc", x, p)


INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
CHP2 = {}
CLOSED = frozenset(("dbg", "disp", "padded", "num", "sfn", "spred", "lossy", "chcase", "parses", "utf8", "sorted", "int", "bool", "str", "flt", "tup",
                    "adt", "coll", "bytes", "eq", "not", "and", "ge0", "lt", "len", "lin", "cat", "bytes_of", "chr", "is"))


def int_range(ty):
    w = INTS.get(ty)
    if w is None:
        return None, None
    return (0, (1 << w) - 1) if ty[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def scalar_text(o):
    """a scalar constant as the compiler prints it"""
    m = re.fullmatch(r"(-?\d[\d.eE+-]*)_?(f32|f64)", o)
    if m:
        return mk("flt", float(m.group(1)))
    m = re.fullmatch(r"(-?\d+)_?([iu](?:\d+|size))", o)
    if m:
        return I(int(m.group(1)))
    return None


def int_sorted(t):
    return t.op in ("int", "lin", "len", "idx") or (t.op == "jv" and t.a[2] == "int")


class Eng:
    def __init__(self, world, max_steps=400000):
        self.w = world
        self.hooks = {}          # body short name or (type suffix, name) -> fn(eng, st, args, call)
        self.models = {}
        import models, models2
        self.models = models.MODELS
        self.prel = world.prelude
        self.panics = []
        self.steps = 0
        self.max_steps = max_steps
        if ENGINES is not None:
            ENGINES.append(self)
        self.deadline = time.time() + SECONDS
        self.decide = None       # scenario knowledge: fn(st, atom) -> True/False/None
        self.stack = []
        self.pinned = []
        self.ended = []
        self.unmodelled = {}
        self.functions = set()
        self.calls = 0
        self.forks = 0
        self.joins = 0
        self.maxdepth = 60
        self.disjuncts = 24
        self.nonascii = 0
        self.on_drop = None
        self.hash_rev = HASH_REV # hash tables hand out their elements in the reverse of the order of insertion
        self.hash_iter = set()   # where hash tables with more than one element are iterated
        self.unroll = False      # keep all visits of a loop head apart (finite inputs only)
        self.stuck = []          # loop heads visited twice in the same state
        self.opaque_fns = {}     # body key -> op name: treat as uninterpreted pure function
        self.on_branch_lossy = True
        self.sites = ()          # types whose values remember where they were made
        self.cur_span = None
        self.trait_impls = {}
        for p in dict.fromkeys((world.lib, world.cli, world.lsp, world.prelude)):
            for b in p.bodies.values():
                if b.trait and b.impl is not None and b.kind == "fn":
                    tr = strip_generics(b.trait).split("<")[0]
                    self.trait_impls.setdefault((tr, b.name), []).append(b)
        self.droppers = {b.prog.peel(b.impl).get("path"): b for b in self.trait_impls.get(("std::ops::Drop", "drop"), []) if b.prog.tag != "prelude" or True}

    # ------------------------------------------------------------ memory
    def load(self, st, key, path):
        v = st.mem.get(key, UNINIT)
        for step in path:
            v = self.step_get(st, v, step)
        return v

    def step_get(self, st, v, step):
        if v.op == "ptr" and step[0] != "*":
            v = self.load(st, v.a[0], v.a[1])
        k = step[0]
        if k == "f":
            if v.op == "box" or v.op == "arc":
                return self.step_get(st, v.a[0], step)
            if v.op == "upd" or v.op == "adt" or v.op == "tup" or v.op == "clo":
                return proj(v, step[1], step[2], step[3])
            if v.op == "coro":
                return v.a[1][step[2]]
            nm = step[3] if step[3] is not None else str(step[2])
            return mk("fld", v, step[1] or "", nm)
        if k == "i":
            return elem(v, step[1])
        if k == "mv":      # value of a map entry
            for kk, x in parts_of(v):
                if kk == "e" and x.a[0][0] is step[1]:
                    return x.a[0][1]
            return mk("mapval", v, step[1])
        if k == "last":
            ps = parts_of(v)
            return ps[-1][1]
        return mk("stepget", v, k)

    def store(self, st, key, path, val):
        if not path:
            st.mem[key] = val
            return
        st.mem[key] = self.setpath(st, st.mem.get(key, UNINIT), path, val)

    def setpath(self, st, v, path, val):
        if not path:
            return val
        step = path[0]
        k = step[0]
        if v.op == "ptr":
            # a step through a stored &mut
            self.store(st, v.a[0], tuple(v.a[1]) + tuple(path), val)
            return v
        if k == "f":
            old = self.step_get(st, v, step)
            nv = self.setpath(st, old, path[1:], val)
            if v.op == "coro":
                fs = list(v.a[1])
                fs[step[2]] = nv
                return mk("coro", v.a[0], tuple(fs))
            nm = step[3] if step[3] is not None else str(step[2])
            return setfield(v, step[1] or "", step[2], nm, nv)
        if k == "i":
            ps = list(parts_of(v))
            i = step[1]
            if i.op == "int" and i.a[0] < len(ps) and all(kk == "e" for kk, x in ps[:i.a[0] + 1]):
                kk, x = ps[i.a[0]]
                ps[i.a[0]] = ("e", self.setpath(st, x, path[1:], val))
                return coll(v.a[0] if v.op == "coll" else "vec", ps)
            st.add_taint("write to an element of a summarised sequence")
            return mk("fresh", next(_ctr))
        if k == "mv":
            ps = list(parts_of(v))
            for n, (kk, x) in enumerate(ps):
                if kk == "e" and x.a[0][0] is step[1]:
                    ps[n] = ("e", tup(x.a[0][0], self.setpath(st, x.a[0][1], path[1:], val)))
                    return coll("map", ps)
            st.add_taint("write to an entry of a summarised map")
            return v
        st.add_taint("write through " + k)
        return v

    def new_cell(self, st, val):
        key = ("h", next(_ctr))
        st.mem[key] = val
        return key

    def deref(self, st, v):
        """value behind a &mut (or the value itself)"""
        n = 0
        while v.op == "ptr" and n < 20:
            v = self.load(st, v.a[0], v.a[1])
            n += 1
        return v

    def place(self, st, fr, pl):
        """-> (key, path)"""
        key, path = (fr.fid, pl[0]), ()
        vname = ""
        for p in pl[1]:
            k = p[0]
            if k == "*":
                v = self.load(st, key, path)
                if v.op == "ptr":
                    key, path = v.a[0], tuple(v.a[1])
                elif v.op == "pinned":
                    v = v.a[0]
                    key, path = v.a[0], tuple(v.a[1])
                vname = ""
            elif k == "f":
                path = path + (("f", vname, p[1], p[2] if p[2] is not None else str(p[1])),)
                vname = ""
            elif k == "v":
                vname = p[2] or ""
            elif k == "i":
                path = path + (("i", st.mem.get((fr.fid, p[1]), UNINIT)),)
            elif k == "ci":
                if p[2]:
                    n = length(self.load(st, key, path))
                    path = path + (("i", sub(n, I(p[1]))),)
                else:
                    path = path + (("i", I(p[1])),)
            elif k == "ss":
                v = self.load(st, key, path)
                hi = sub(length(v), I(p[2])) if p[3] else I(p[2])
                key = self.new_cell(st, slice_(v, I(p[1]), hi))
                path = ()
        return key, path

    def read(self, st, fr, pl):
        if not pl[1]:
            return st.mem.get((fr.fid, pl[0]), UNINIT)
        key, path = self.place(st, fr, pl)
        return self.load(st, key, path)

    def operand(self, st, fr, op):
        k = op[0]
        if k in ("cp", "mv"):
            return self.read(st, fr, op[1])
        if k == "c":
            return self.const(st, fr.body.prog, op[1])
        return mk("rt")

    def const(self, st, prog, c):
        ty = prog.ty(c["ty"])
        if "fn" in c:
            return mk("fn", ty["path"], c["fn"], c["ty"], prog.tag)
        if "static" in c:
            key = c["static"]
            if key in prog.bodies and c["sfreeze"] and not c["smut"]:
                return self.const_body(st, prog.bodies[key])
            return mk("static", key)
        if "uneval" in c:
            key = c["uneval"] + ("#promoted%d" % c["promoted"] if "promoted" in c else "")
            if "promoted" not in c and ("int" in c or "str" in c):
                return self.lit(ty, c)
            for p in (prog, self.w.lib):
                if key in p.bodies:
                    return self.const_body(st, p.bodies[key])
        return self.lit(ty, c)

    def lit(self, ty, c):
        if "int" in c:
            if ty["k"] == "bool":
                return B(c["int"])
            if ty["s"] in ("f64", "f32"):
                import struct
                return mk("flt", struct.unpack("<d" if ty["s"] == "f64" else "<f", c["int"].to_bytes(8 if ty["s"] == "f64" else 4, "little"))[0])
            return I(c["int"])
        if "str" in c:
            return S(c["str"])
        if "bytes" in c:
            return mk("bytes", tuple(c["bytes"]))
        if c.get("zst"):
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "adt":
                return adt(ty["path"], 0, (), (), None)
            return mk("zst", ty["s"])
        if "other" in c:
            o = c["other"]
            if o.startswith('"') and o.endswith('"'):
                return S(json.loads(o))
            x = scalar_text(o)
            if x is not None:
                return x
            return mk("const", o)
        return mk("const", json.dumps(c, sort_keys=True))

    def const_body(self, st, body):
        outs = self.call_body(st.copy(), body, [], 0)
        if len(outs) == 1:
            s2, v = outs[0]
            for k, x in s2.mem.items():
                if k not in st.mem and k[0] == "h":
                    st.mem[k] = x
            return self.strip_ptr(s2, v)
        return mk("const", body.key)

    def strip_ptr(self, st, v):
        return self.deref(st, v)

    # ------------------------------------------------------------ facts
    def truth(self, st, t):
        o = t.op
        if o == "bool":
            return t.a[0]
        if o == "not":
            r = self.truth(st, t.a[0])
            return None if r is None else not r
        if o == "and":
            unk = False
            for x in t.a[0]:
                r = self.truth(st, x)
                if r is False:
                    return False
                if r is None:
                    unk = True
            return None if unk else True
        r = st.facts.get(t)
        if r is not None:
            return r
        if o == "is":
            d = st.dom.get(t.a[0])
            if d is not None:
                if t.a[1] not in d:
                    return False
                if len(d) == 1:
                    return True
        elif o == "eq":
            a, b = t.a
            if b.op == "disc" or a.op == "disc":
                if a.op != "disc":
                    a, b = b, a
                if b.op == "disc" and a.op == "disc":
                    da, db = st.dom.get(a.a[0]), st.dom.get(b.a[0])
                    if da is not None and db is not None:
                        if not (da & db):
                            return False
                        if len(da) == 1 and da == db:
                            return True
            if a.op == "byte" or b.op == "byte" or a.op == "lin":
                r = self.byte_truth(st, t)
                if r is not None:
                    return r
            for x, y in ((a, b), (b, a)):
                if x.op == "adt" and y.op != "adt":
                    d = st.dom.get(y)
                    if d is not None and x.a[5] is not None:
                        if x.a[5] not in d:
                            return False
                        if len(d) == 1 and not x.a[2]:
                            return True
                if is_const(x) and not is_const(y):
                    for f, v in st.facts.items():
                        if v and f.op == "eq" and (f.a[0] is y or f.a[1] is y):
                            z = f.a[1] if f.a[0] is y else f.a[0]
                            if is_const(z):
                                return z is x
                    if y.op == "cat" and x.op == "str":
                        ps = y.a[0]
                        if ps[0].op == "str" and not x.a[0].startswith(ps[0].a[0]):
                            return False
                        if ps[-1].op == "str" and not x.a[0].endswith(ps[-1].a[0]):
                            return False
            if int_sorted(a) or int_sorted(b):
                d = sub(a, b)
                if self.ge(st, add(d, I(-1))) or self.ge(st, add(sub(b, a), I(-1))):
                    return False
                if self.ge(st, d) and self.ge(st, sub(b, a)):
                    return True
        elif o == "ge0":
            r = self.byte_truth(st, t)
            if r is not None:
                return r
            if self.ge(st, t.a[0]):
                return True
            if self.ge(st, add(sub(I(0), t.a[0]), I(-1))):
                return False
        elif o == "chp":
            r = self.byte_truth(st, t)
            if r is not None:
                return r
        if self.decide is not None:
            r = self.decide(st, t)
            if r is not None:
                return r
        return None

    def ge(self, st, t, depth=2):
        """is t >= 0 known?"""
        c, d = lin_of(t)
        if not d:
            return c >= 0
        # every atom with positive coefficient that is a length / index is >= 0
        if c >= 0 and all(k > 0 and self.nonneg(x) for x, k in d.items()):
            return True
        if depth == 0:
            return False
        for f, v in st.facts.items():
            if f.op == "ge0":
                g = f.a[0] if v else add(sub(I(0), f.a[0]), I(-1))
            elif f.op == "eq" and v and (int_sorted(f.a[0]) or int_sorted(f.a[1])):
                for g in (sub(f.a[0], f.a[1]), sub(f.a[1], f.a[0])):
                    if set(lin_of(g)[1]) & set(d) and self.ge(st, sub(t, g), depth - 1):
                        return True
                continue
            else:
                continue
            gd = lin_of(g)[1]
            if any(x in d and (gd[x] > 0) == (d[x] > 0) for x in gd):
                if self.ge(st, sub(t, g), depth - 1):
                    return True
        return False

    def nonneg(self, t):
        return t.op in ("len", "idx", "byte", "discr", "cursor", "nat") or (t.op == "jv" and t.a[2] == "int") or (
            t.op == "fld" or t.op == "el")

    def byte_atom(self, t):
        """the single byte term a unary atom talks about"""
        b = None
        for x in walk(t):
            if x.op == "byte":
                if b is not None and x is not b:
                    return None
                b = x
        return b

    def byte_truth(self, st, t):
        b = self.byte_atom(t)
        if b is None:
            return None
        d = st.dom.get(b)
        if d is None:
            d = BYTES
        vals = set()
        for v in d:
            r = self.byte_eval(t, b, v)
            if r is None:
                return None
            vals.add(r)
            if len(vals) == 2:
                return None
        return vals.pop() if vals else None

    def byte_eval(self, t, b, v):
        key = (t, b, v)
        r = _bcache.get(key, 0)
        if r == 0:
            x = subst(t, {b: I(v)})
            if x.op == "chp":
                x = chp_eval(x.a[0], x.a[1].a[0]) if x.a[1].op == "int" else None
            elif x.op == "bool":
                x = x.a[0]
            else:
                x = None
            _bcache[key] = r = x
        return r

    def assume(self, st, t, val):
        """st with t == val, or None if impossible (st may be modified)"""
        r = self.truth(st, t)
        if r is not None:
            return st if r == val else None
        o = t.op
        if o == "not":
            return self.assume(st, t.a[0], not val)
        if o == "and":
            if val:
                for x in t.a[0]:
                    st = self.assume(st, x, True)
                    if st is None:
                        return None
                return st
            unk = [x for x in t.a[0] if self.truth(st, x) is None]
            if len(unk) == 1:
                return self.assume(st, unk[0], False)
            st.facts[t] = False
            return st
        if o == "is":
            x, v, allv = t.a
            d = st.dom.get(x)
            if d is None:
                d = frozenset(allv)
            d = frozenset((v,)) & d if val else d - {v}
            if not d:
                return None
            st.dom[x] = d
            return st
        b = self.byte_atom(t)
        if b is not None and o in ("eq", "ge0", "chp"):
            d = st.dom.get(b, BYTES)
            nd = []
            good = True
            for v in d:
                r = self.byte_eval(t, b, v)
                if r is None:
                    good = False
                    break
                if r == val:
                    nd.append(v)
            if good:
                if not nd:
                    return None
                st.dom[b] = frozenset(nd)
                return st
        st.facts[t] = val
        if val and o == "eq":
            # a length that turns out to be a position ends a traversal
            a, b2 = t.a
            for x, y in ((a, b2), (b2, a)):
                if x.op == "jv" and x.a[2] == "int" and (y.op == "len" or y.op == "lin") and not has(y, x):
                    if not st.subst({x: y}):
                        return None
                    st.last_subst = {x: y}
                    break
        return st

    def branch(self, st, t, why=""):
        """[(state, truth value)]"""
        st.last_subst = None
        r = self.truth(st, t)
        if r is not None:
            return [(st, r)]
        self.forks += 1
        self.mark_lossy(st, t)
        out = []
        s1 = st.copy()
        s1.symc += 1
        s2 = st
        s2.symc += 1
        s1 = self.assume(s1, t, True)
        if s1 is not None:
            out.append((s1, True))
        s2 = self.assume(s2, t, False)
        if s2 is not None:
            out.append((s2, False))
        return out

    def mark_lossy(self, st, t):
        if st.lossy:
            return
        for x in walk(t):
            if x.op == "jv" and x.a[2] != "int" and not self.linked(st, x):
                st.lossy = True
                return
            if x.op in ("ext", "fresh", "static", "const", "mapval", "stepget", "uninit", "bot"):
                st.add_taint("branch on unmodelled value " + show(x)[:120])
                return
            if x.op in ("dbg", "disp", "padded", "num", "sfn", "spred", "lossy", "chcase", "parses", "utf8", "sorted") and not any(
                    y.op not in CLOSED for y in walk(x)):
                st.add_taint("branch on a function of constants that is not computed: " + show(x)[:100])
                return

    def linked(self, st, jv):
        for v in st.world.values():
            if isinstance(v, T) and jv in roots(v):
                return True
        return False

    # ------------------------------------------------------------ execution
    def call_body(self, st, body, args, depth):
        """run a body; -> [(state, return value)]"""
        if depth > self.maxdepth:
            if self.unroll and self.maxdepth >= DEEP and not (st.taint or st.lossy):
                raise Diverges("call depth in " + body.short(), body)
            raise Budget("call depth in " + body.short())
        self.functions.add(body.key)
        self.calls += 1
        oc = getattr(self, "opaque_call", None)
        if oc is not None and oc(st, body, args):
            fr_args = []
            for a in args:
                if a.op == "ptr":
                    v = self.deref(st, a)
                    if v.op == "cell":
                        continue
                    st.add_taint("summarised call of " + body.short())
                    self.store(st, a.a[0], tuple(a.a[1]), mk("fresh", next(_ctr)))
                else:
                    fr_args.append(a)
            return [(st, mk("app", body.key, *fr_args))]
        fid = next(_ctr)
        fr = Frame(body, fid, depth)
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        self.stack.append(body)
        try:
            res = self.run(st, fr, 0, None, None)
        finally:
            self.stack.pop()
        outs = []
        for s, v in res["rets"]:
            for k in [k for k in s.mem if k[0] == fid]:
                del s.mem[k]
            outs.append((s, v))
        jr = getattr(self, "join_returns", None)
        if jr is not None and len(outs) > 1:
            outs = jr(body, outs)
        return outs

    def run(self, st, fr, bb, region, head):
        stack = [(st, bb)]
        back, exits, rets = [], [], []
        loops = fr.body.loops()
        first = True
        while stack:
            st, bb = stack.pop()
            if region is not None and bb not in region:
                exits.append((st, bb))
                continue
            if bb == head and not first:
                back.append(st)
                continue
            if bb in loops and not (bb == head and first):
                stack.extend(reversed(self.run_loop(st, fr, bb)))
                continue
            first = False
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("step budget in " + fr.body.short())
            if self.steps % 64 == 0 and time.time() > self.deadline:
                raise Budget("time budget in " + fr.body.short())
            if TRACK is not None:
                TRACK.add((fr.body.key, bb))
            blk = fr.body.blocks[bb]
            for s in blk["s"]:
                self.stmt(st, fr, s)
            t = blk["t"]
            k = t[0]
            if k == "goto":
                stack.append((st, t[1]))
            elif k == "drop":
                if self.on_drop is not None:
                    self.on_drop(st, fr, t[2], t[3])
                if self.droppers:
                    key, path = self.place(st, fr, t[2])
                    for s2 in self.run_drop(st, fr, ptr(key, path)):
                        stack.append((s2, t[1]))
                else:
                    stack.append((st, t[1]))
            elif k == "return":
                rets.append((st, st.mem.get((fr.fid, 0), UNIT)))
            elif k == "switch":
                for s2, nb in reversed(self.switch(st, fr, t)):
                    stack.append((s2, nb))
            elif k == "call":
                for s2, v in reversed(self.call(st, fr, t, blk)):
                    if t[4] is None:
                        continue
                    key, path = self.place(s2, fr, t[3])
                    self.store(s2, key, path, v)
                    stack.append((s2, t[4]))
            elif k == "assert":
                cond = self.operand(st, fr, t[1])
                want = t[2]
                for s2, v in self.branch(st, cond):
                    if v == want:
                        stack.append((s2, t[5]))
                    else:
                        self.panic(s2, fr, blk["sp"], t[3])
            elif k == "yield":
                st.add_taint("suspension point")
            elif k == "unreachable":
                pass
            else:
                pass
        return {"back": back, "exits": exits, "rets": rets}

    def run_drop(self, st, fr, p):
        """the Drop code of the value behind p and of its fields: [state]"""
        v = self.load(st, p.a[0], p.a[1])
        if v.op != "adt":
            return [st]
        sts = [st]
        b = self.droppers.get(v.a[0])
        if b is not None:
            sts = [s for s, _ in self.call_body(st, b, [p], fr.depth + 1)]
        for i, (x, n) in enumerate(zip(v.a[2], v.a[4])):
            if x.op == "adt":
                sts = [s2 for s in sts for s2 in self.run_drop(s, fr, ptr(p.a[0], tuple(p.a[1]) + (("f", v.a[5] or "", i, n),)))]
        return sts

    def arg_type(self, call, i):
        """the type of the first argument as text"""
        t = call.c.get("a0")
        if t is None or i:
            return None
        prog = call.fr.body.prog
        ty = prog.types[t]
        while ty["k"] in ("ref", "ptr"):
            ty = prog.types[ty["to"]]
        return ty.get("s")

    def panic(self, st, fr, sp, what):
        self.panics.append((st, list(self.stack), sp, what))

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        targets, other = t[2], t[3]
        if v.op == "int":
            for val, bb in targets:
                if val == v.a[0]:
                    return [(st, bb)]
            return [(st, other)]
        if v.op == "bool":
            for val, bb in targets:
                if val == int(v.a[0]):
                    return [(st, bb)]
            return [(st, other)]
        if v.op == "disc":
            x, path = v.a
            variants = self.variants(path, fr.body.prog)
            d = st.dom.get(x)
            if d is None:
                d = frozenset(n for n, _ in variants)
            byval = {}
            for n, dv in variants:
                if n in d:
                    byval[dv] = n
            live = []
            for val, bb in targets:
                if val in byval:
                    live.append((byval.pop(val), bb))
            rest = frozenset(byval.values())
            out = []
            n = len(live) + (1 if rest else 0)
            if n > 1:
                self.forks += 1
                self.mark_lossy(st, x)
                st.symc += 1
            for name, bb in live:
                s2 = st.copy() if n > 1 else st
                s2.dom[x] = frozenset((name,))
                out.append((s2, bb))
            if rest:
                s2 = st.copy() if n > 1 else st
                s2.dom[x] = rest
                out.append((s2, other))
            return out
        # a boolean or integer term
        ty = fr.body.prog.ty(t[4])
        if ty["k"] == "bool":
            out = []
            for s2, r in self.branch(st, v):
                for val, bb in targets:
                    if val == int(r):
                        out.append((s2, bb))
                        break
                else:
                    out.append((s2, other))
            return out
        out = []
        cur = st
        b = self.byte_atom(v)
        for val, bb in targets:
            if cur is None:
                break
            nxt = None
            for s2, r in self.branch(cur, eq(v, I(val))):
                if r:
                    out.append((s2, bb))
                else:
                    nxt = s2
            cur = nxt
        if cur is not None:
            out.append((cur, other))
        return out

    def variants(self, path, prog):
        for p in (prog, self.w.lib, self.w.cli, self.w.lsp, self.w.prelude):
            a = p.adt_by_path.get(path)
            if a is not None:
                return [(v["name"], v["discr"]) for v in a["variants"]]
        raise KeyError("unknown enum " + path)

    def adt_info(self, path, prog=None):
        for p in ([prog] if prog else []) + [self.w.lib, self.w.cli, self.w.lsp, self.w.prelude]:
            a = p.adt_by_path.get(path)
            if a is not None:
                return a
        return None

    # ------------------------------------------------------------ statements
    def stmt(self, st, fr, s):
        if s[0] == "=":
            self.cur_span = s[3] if len(s) > 3 else None
            v = self.rvalue(st, fr, s[2], s[1])
            pl = s[1]
            if not pl[1]:
                st.mem[(fr.fid, pl[0])] = v
            else:
                key, path = self.place(st, fr, pl)
                self.store(st, key, path, v)
        elif s[0] == "setd":
            st.add_taint("set discriminant")

    def rvalue(self, st, fr, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            if r[1] in ("mut", "raw"):
                key, path = self.place(st, fr, r[2])
                return ptr(key, path)
            v = self.read(st, fr, r[2])
            return v
        if k == "cast":
            v = self.operand(st, fr, r[2])
            return self.cast(st, fr, r, v)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]),
                              fr.body.prog.types[r[4]].get("s") if len(r) > 4 else None)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if v.op == "int":
                    lo, hi = int_range(fr.body.prog.types[r[3]].get("s") if len(r) > 3 else None)
                    return I(hi + lo - v.a[0]) if lo is not None else mk("ext", "bitnot", v)
                return neg(v)
            if r[1] == "Neg":
                return mk("flt", -v.a[0]) if v.op == "flt" else sub(I(0), v)
            if r[1] == "PtrMetadata":
                return length(self.deref(st, v))
            return mk("ext", "un" + r[1], v)
        if k == "discr":
            x = self.deref(st, self.read(st, fr, r[1]))
            return self.disc(st, x, fr.body.prog.peel(r[2]), fr.body.prog)
        if k == "agg":
            return self.agg(st, fr, r[1], [self.operand(st, fr, o) for o in r[2]])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2] or 0
            if n <= 16:
                return mk("coll", "vec", tuple(("e", v) for _ in range(n)))
            return mk("ext", "repeat", v, n)
        return mk("ext", "rvalue", json.dumps(r)[:80])

    def disc(self, st, x, ty, prog):
        if x.op == "adt":
            a = self.adt_info(x.a[0], prog)
            if a is not None:
                for v in a["variants"]:
                    if v["name"] == x.a[5]:
                        return I(v["discr"])
            return I(x.a[1])
        if ty["k"] == "adt":
            vs = self.variants(ty["path"], prog)
            d = st.dom.get(x)
            if d is not None and len(d) == 1:
                n = next(iter(d))
                for nm, dv in vs:
                    if nm == n:
                        return I(dv)
            return mk("disc", x, ty["path"])
        return mk("disc", x, ty["s"])

    def cast(self, st, fr, r, v):
        ty = fr.body.prog.types[r[3]] if isinstance(r[3], int) else r[3]
        to = ty.get("s") if isinstance(ty, dict) else None
        if v.op == "bool" and to in INTS:
            return I(int(v.a[0]))
        if to in ("f64", "f32"):
            return mk("flt", float(v.a[0])) if v.op in ("int", "flt") else mk("ext", "float", v)
        if v.op == "flt" and to in INTS:
            x, (lo, hi) = v.a[0], int_range(to)
            return I(0 if x != x else max(lo, min(hi, int(max(-1e40, min(1e40, x))))))
        if v.op == "int" and to in INTS:
            lo, hi = int_range(to)
            return I((v.a[0] - lo) % (hi - lo + 1) + lo)
        w = NARROW.get(ty.get("s")) if isinstance(ty, dict) else None
        if w is not None and v.op not in ("byte", "disc", "bool", "ptr", "fn", "clo"):
            if v.op == "int":
                x = v.a[0] & ((1 << w) - 1)
                if ty["s"][0] == "i" and x >> (w - 1):
                    x -= 1 << w
                return I(x)
            return mk("trunc", ty["s"], v)
        return v

    def binop(self, st, op, a, b, ty=None):
        a, b = self.deref(st, a), self.deref(st, b)
        wo = op.endswith("WithOverflow")
        base = op[:-12] if wo else op[:-9] if op.endswith("Unchecked") else op
        if a.op == "flt" and b.op == "flt":
            x, y = a.a[0], b.a[0]
            r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(base)
            if r is not None:
                return B(r)
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y, "Rem": lambda: math.fmod(x, y)}[base]()
            except (ZeroDivisionError, ValueError, OverflowError):
                r = math.nan if x == 0 or x != x or base == "Rem" else math.copysign(math.inf, x)
            return mk("flt", r)
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            r = None
            if base in ("Add", "Sub", "Mul"):
                r = x + y if base == "Add" else x - y if base == "Sub" else x * y
            elif base in ("Div", "Rem") and y:
                q = abs(x) // abs(y)
                q = q if (x < 0) == (y < 0) else -q
                r = q if base == "Div" else x - q * y
            elif base in ("BitAnd", "BitOr", "BitXor"):
                r = x & y if base == "BitAnd" else x | y if base == "BitOr" else x ^ y
            elif base in ("Shl", "Shr") and ty in INTS:
                y %= INTS[ty]
                r = x << y if base == "Shl" else x >> y
            elif base == "Cmp":
                return adt("std::cmp::Ordering", (x > y) - (x < y) + 1, (), (), "Less" if x < y else "Equal" if x == y else "Greater")
            if r is not None:
                lo, hi = int_range(ty)
                if lo is None:
                    return tup(I(r), B(r < 0 and base == "Sub")) if wo else I(r)
                w = I((r - lo) % (hi - lo + 1) + lo)
                return tup(w, B(not lo <= r <= hi)) if wo else w
        if base == "Add":
            return tup(add(a, b), FALSE) if wo else add(a, b)
        if base == "Sub":
            if wo:
                return tup(sub(a, b), FALSE if ty in INTS and ty[0] == "i" else lt(a, b))
            return sub(a, b)
        if base == "Mul":
            if a.op == "int" or b.op == "int":
                k, x = (a, b) if a.op == "int" else (b, a)
                c, d = lin_of(x)
                v = mklin(c * k.a[0], {t: n * k.a[0] for t, n in d.items()})
            else:
                v = mk("ext", "mul", a, b)
            return tup(v, FALSE) if wo else v
        if op == "Eq":
            return self.eqt(a, b)
        if op == "Ne":
            return neg(self.eqt(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op in ("BitAnd", "BitOr", "BitXor") and (ty is None or ty == "bool"):
            if op == "BitAnd":
                return conj(a, b)
            if op == "BitOr":
                return disj(a, b)
            return neg(eq(a, b))
        return mk("ext", "bin" + op, a, b)

    def eqt(self, a, b):
        # discriminant comparisons
        for x, y in ((a, b), (b, a)):
            if x.op == "disc" and y.op == "int":
                vs = self.variants(x.a[1], self.w.lib)
                for n, dv in vs:
                    if dv == y.a[0]:
                        return is_(x.a[0], n, [v for v, _ in vs])
                return FALSE
        return streq(a, b)

    def agg(self, st, fr, k, ops):
        if k[0] == "tuple":
            return tup(*ops)
        if k[0] == "array":
            return mk("coll", "vec", tuple(("e", x) for x in ops))
        if k[0] == "adt":
            a = fr.body.prog.adts[k[1]]
            v = a["variants"][k[2]]
            names = tuple(f[0] for f in v["fields"])
            if a["path"].rsplit("::", 1)[-1] in self.sites:
                st.via = (fr.body.short(), v["name"], self.cur_span)
            if len(names) == len(ops):
                # an enum value rebuilt from its own parts
                if ops and a["kind"] == "enum" and ops[0].op == "fld":
                    x = ops[0].a[0]
                    if all(o.op == "fld" and o.a[0] is x and o.a[1] == v["name"] and o.a[2] == n
                           for o, n in zip(ops, names)) and st.dom.get(x) == frozenset((v["name"],)):
                        return x
                return adt(a["path"], k[2], ops, names, v["name"])
            return adt(a["path"], k[2], ops, names[:len(ops)], v["name"])
        if k[0] == "closure":
            return mk("clo", k[1], tuple(ops), fr.body.prog.tag)
        if k[0] == "coroutine":
            return mk("coro", k[1], tuple(ops), fr.body.prog.tag)
        return mk("ext", "agg", *ops)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, t, blk):
        c = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        if "indirect" in c:
            f = self.operand(st, fr, c["indirect"])
            return self.call_value(st, fr, f, args, blk)
        return self.call_path(st, fr, c, args, blk)

    def prog_of(self, tag):
        return {"lib": self.w.lib, "cli": self.w.cli, "lsp": self.w.lsp, "prelude": self.w.prelude}[tag]

    def call_value(self, st, fr, f, args, blk):
        """call a function value with untupled args"""
        f0 = f
        f = self.deref(st, f)
        if f.op == "fn":
            prog = self.prog_of(f.a[4 - 1]) if False else self.prog_of(f.a[3])
            ty = prog.ty(f.a[2])
            c = {"path": ty["path"], "key": ty["key"], "targs": ty["args"], "fnprog": prog, "rkey": ty["key"]}
            body = prog.bodies.get(ty["key"])
            if body is None:
                ctor = self.ctor(ty["path"], args)
                if ctor is not None:
                    return [(st, ctor)]
            return self.call_path(st, fr, c, args, blk)
        if f.op == "clo":
            body = self.prog_of(f.a[2]).bodies[f.a[1 - 1]]
            envty = body.prog.ty(body.locals[1])
            if envty["k"] == "ref" and envty["mut"]:
                env = f0 if f0.op == "ptr" else ptr(self.new_cell(st, f))
            else:
                env = f
            return self.call_body(st, body, [env] + list(args), fr.depth + 1)
        if f.op == "idfn":
            return [(st, args[0])]
        st.add_taint("call of an unknown function value")
        return [(st, mk("fresh", next(_ctr)))]

    def ctor(self, path, args):
        p = path.split("::")
        for prog in (self.w.lib, self.w.cli):
            a = prog.adt_by_path.get("::".join(p[:-1]))
            if a is not None:
                for i, v in enumerate(a["variants"]):
                    if v["name"] == p[-1]:
                        return adt(a["path"], i, args, tuple(f[0] for f in v["fields"]), v["name"])
            a = prog.adt_by_path.get(path)
            if a is not None and len(a["variants"]) == 1:
                v = a["variants"][0]
                return adt(a["path"], 0, args, tuple(f[0] for f in v["fields"]), v["name"])
        if path.endswith("Option::Some") or p[-1] == "Some":
            return some(args[0])
        if p[-1] == "Ok":
            return ok(args[0])
        if p[-1] == "Err":
            return err(args[0])
        return None

    def targ(self, fr, c, i, which="targs"):
        """type i of the callee's generic arguments"""
        a = c.get(which) or []
        n = -1
        for x in a:
            if isinstance(x, int):
                n += 1
                if n == i:
                    prog = c.get("fnprog") or fr.body.prog
                    return prog.ty(x), prog
        return None, None

    def call_path(self, st, fr, c, args, blk):
        prog = c.get("fnprog") or fr.body.prog
        body = None
        for k in (c.get("rkey"), c["key"]):
            if k is None:
                continue
            for p in ((prog, self.w.lib) if prog is not self.w.lib else (prog,)):
                if k in p.bodies:
                    body = p.bodies[k]
                    break
            if body is not None:
                break
        path = strip_generics(c["path"])
        rpath = strip_generics(c["rpath"]) if c.get("rpath") else path
        call = Call(self, st, fr, c, path, rpath, args, blk)
        if body is not None and c.get("trait") and body.impl is None and body.kind == "fn" and args:
            # the default body of a trait method: the type's own one wins
            b = self.dispatch(st, c, path, args, fr)
            if b is not None:
                body = b
        if body is not None and body.kind in ("fn", "closure", "coroutine"):
            h = self.hook_for(body)
            if h is not None:
                return h(call)
            if c.get("trait") and c["trait"].startswith("std::ops::Fn") and body.kind == "closure":
                targs = args[1].a[0] if len(args) > 1 and args[1].op == "tup" else tuple(args[1:])
                return self.call_value(st, fr, args[0], list(targs), blk)
            if body.derived and body.trait:
                r = self.derived(call, body)
                if r is not None:
                    return r
            if body.kind == "coroutine":
                return self.models["std::future::Future::poll"](call)
            return self.call_body(st, body, args, fr.depth + 1)
        h = self.hooks.get(path) or self.hooks.get(rpath)
        if h is not None:
            return h(call)
        m = self.models.get(path)
        if m is None and rpath != path:
            m = self.models.get(rpath)
        if m is not None:
            r = m(call)
            if r is not None:
                return r
        # constructor functions
        v = self.ctor(path, args)
        if v is not None and (path.split("::")[-1][:1].isupper()):
            return [(st, v)]
        # a prelude definition
        import models
        pn = models.PRELUDE.get(path) or models.PRELUDE.get(rpath)
        if pn is not None:
            return self.call_body(st, self.prel.bodies["prelude::" + pn], args, fr.depth + 1)
        # unresolved trait method: dispatch on the receiver
        if c.get("trait"):
            b = self.dispatch(st, c, path, args, fr)
            if b is not None:
                h = self.hook_for(b)
                if h is not None:
                    return h(call)
                return self.call_body(st, b, args, fr.depth + 1)
        return self.unknown(call)

    def derived(self, call, body):
        import models
        if body.name == "clone":
            return [(call.st, call.val(0))]
        if body.name in ("eq", "ne") and body.impl is not None:
            t = body.prog.peel(body.impl)
            if t["k"] == "adt":
                return models.eq_vals(call, call.st, call.val(0), call.val(1), t["path"])
        return None

    def variant(self, st, v, path):
        """[(state, variant name of v)]"""
        v = self.deref(st, v)
        if v.op == "adt":
            return [(st, v.a[5])]
        vs = [n for n, _ in self.variants(path, self.w.lib)]
        d = st.dom.get(v)
        names = [n for n in vs if d is None or n in d]
        if self.decide is not None and len(names) > 1:
            names = [n for n in names if self.decide(st, mk("is", v, n, tuple(vs))) is not False]
        if len(names) > 1:
            self.forks += 1
            self.mark_lossy(st, v)
            st.symc += 1
        out = []
        for n in names:
            s2 = st.copy() if len(names) > 1 else st
            s2.dom[v] = frozenset((n,))
            out.append((s2, n))
        return out

    def dispatch_local(self, call):
        if not call.c.get("trait"):
            return None
        return self.dispatch(call.st, call.c, call.path, call.args, call.fr)

    def is_mut_ref_arg(self, call):
        ty, prog = call.ty(0)
        return ty is not None and ty["k"] == "ref" and ty["mut"] and "IntoIterator" in call.path

    def events(self, st, ev):
        tr = st.world.get("trace", EMPTY)
        st.world["trace"] = coll("vec", tuple(parts_of(tr)) + (("e", ev),))

    def dispatch(self, st, c, path, args, fr):
        tr = strip_generics(c["trait"]).split("<")[0]
        name = path.split("::")[-1]
        cands = self.trait_impls.get((tr, name), [])
        if not cands:
            return None
        want = None
        ty, prog = self.targ(fr, c, 0)
        if ty is not None:
            while ty["k"] in ("ref", "ptr"):
                ty = prog.ty(ty["to"])
            if ty["k"] == "adt":
                want = ty["path"]
        if want is None and args:
            v = self.deref(st, args[0])
            if v.op == "adt":
                want = v.a[0]
            else:
                want = self.type_of(v)
        if want is None:
            return None
        r = [b for b in cands if b.prog.peel(b.impl)["k"] == "adt" and b.prog.peel(b.impl)["path"] == want]
        return r[0] if len(r) == 1 else None

    def type_of(self, v):
        tv = getattr(self, "types_of_terms", None)
        return tv(v) if tv else None

    def hook_for(self, body):
        h = self.hooks.get(body.key)
        if h is not None:
            return h
        if body.impl is not None:
            t = body.prog.peel(body.impl)
            if t["k"] == "adt":
                return self.hooks.get((t["path"].split("::")[-1], body.name))
        return None

    def unknown(self, call):
        st = call.st
        self.unmodelled[call.path] = self.unmodelled.get(call.path, 0) + 1
        for a in call.args:
            for x in walk(a):
                if x.op == "ptr":
                    st.add_taint("unmodelled " + call.path)
                    # what the pointer refers to is unknown now
                    self.store(st, x.a[0], tuple(x.a[1]), mk("fresh", next(_ctr)))
        return [(st, mk("ext", call.path, *[self.freeze(st, a) for a in call.args]))]

    def freeze(self, st, v):
        return self.deref(st, v)

    # ------------------------------------------------------------ loops
    def run_loop(self, st, fr, head):
        region = fr.body.loops()[head]
        live = liveness(fr.body)[head]
        heads, exits, order = {}, {}, []
        work = [(st, 0)]
        rounds = 0
        ndis, seen = {}, set()
        while work:
            s, n = work.pop()
            rounds += 1
            if rounds > 40000:
                raise Budget("loop does not stabilise in " + fr.body.short())
            self.prune(s, fr, live)
            if self.unroll:
                # finite, explicit input: every visit is a state of its own
                sig = signature(s)
                anc = n or frozenset()
                if sig in anc or len(anc) > LONG:
                    self.stuck.append((s, fr.body, head))
                    continue
                if sig in seen:
                    continue
                seen.add(sig)
                key = ("u", rounds)
                order.append(key)
                cur = s.copy()
                cur.symc = 0
                res = self.run(cur, fr, head, region, head)
                exits[key] = res["exits"]
                for b in reversed(res["back"]):
                    work.append((b, anc | {sig}))
                continue
            key = self.shape(s, fr, head)
            if s.symc == 0 and n < 60 and n > 0:
                # nothing symbolic happened since the last visit: the loop is unrolled concretely
                key = (key, ("conc", n))
            if s.symc and self.explicit_head(s, fr, live):
                # the next element is explicit: the traversal is finite here, keep the paths apart
                m = ndis.get(key, 0)
                if m < self.disjuncts:
                    sig = signature(s)
                    if (key, sig) in seen:
                        continue
                    seen.add((key, sig))
                    ndis[key] = m + 1
                    key = (key, ("dis", m))
            if key in heads:
                old = heads[key]
                g = self.join(old, s, (fr.body.key, head))
                if g is None:
                    continue
                self.joins += 1
                heads[key] = g
                cur = g
            else:
                heads[key] = s
                order.append(key)
                cur = s
            cur = cur.copy()
            cur.symc = 0
            res = self.run(cur, fr, head, region, head)
            exits[key] = res["exits"]
            for b in reversed(res["back"]):
                work.append((b, n + 1))
        out = []
        for k in order:
            for s, bb in exits.get(k, []):
                s = s.copy()
                s.symc = 1 if (s.symc or len(order) > 1) else 0
                out.append((s, bb))
        self.stack_trim = None
        return dedupe(out)

    def explicit_head(self, st, fr, live):
        got = False
        for k, v in st.mem.items():
            if k[0] == fr.fid and k[1] in live or k[0] == "h":
                while v.op in ITERS and v.op != "range":
                    v = v.a[0]
                if v.op == "ptr":
                    v = self.deref(st, v)
                    while v.op in ITERS and v.op != "range":
                        v = v.a[0]
                if v.op == "it":
                    if v.a[0] and v.a[0][0][0] == "s":
                        return False
                    got = True
        return got

    def prune(self, st, fr, live):
        fid = fr.fid
        keep = set()
        work = []
        pins = set(self.pinned)
        for k in st.mem:
            if k[0] != fid or k[1] in live:
                keep.add(k)
                work.append(st.mem[k])
        for v in st.world.values():
            if isinstance(v, T):
                work.append(v)
        while work:
            for x in refs(work.pop()):
                if x.op == "ptr":
                    k = x.a[0]
                    if k not in keep and k in st.mem:
                        keep.add(k)
                        work.append(st.mem[k])
        if len(keep) != len(st.mem):
            st.mem = {k: v for k, v in st.mem.items() if k in keep}
        # heap cells nobody points to
        tgt = set()
        for v in list(st.mem.values()) + [v for v in st.world.values() if isinstance(v, T)]:
            for x in refs(v):
                tgt.add(x.a[0])
        dead = [k for k in st.mem if k[0] == "h" and k not in tgt and k not in pins]
        for k in dead:
            del st.mem[k]

    def shape(self, st, fr, head):
        out = []
        for k in sorted((k for k in st.mem if k[0] == fr.fid or k[0] == "h"), key=lambda k: (str(k[0]), k[1])):
            out.append(((k[0] == "h" and "h" or 0, k[1] if k[0] != "h" else 0), self.vshape(st, st.mem[k], 2)))
        ws = tuple((n, self.wshape(st, n, v)) for n, v in sorted(st.world.items()))
        return (tuple(x for x in out if x[1] is not None), ws)

    def wshape(self, st, n, v):
        f = getattr(self, "world_shape", None)
        if f:
            return f(st, n, v)
        return None

    def vshape(self, st, v, d):
        if not isinstance(v, T):
            return v
        o = v.op
        if o == "bool":
            return v.a[0]
        if o == "adt":
            if v.a[0] in ("std::option::Option", "std::result::Result") or not v.a[2]:
                r = v.a[5]
                if d and v.a[2]:
                    return (r, self.vshape(st, v.a[2][0], d - 1))
                return r
            if d:
                r = tuple(self.vshape(st, x, d - 1) for x in v.a[2])
                return (v.a[5],) + r
            return v.a[5]
        if o == "tup" and d:
            return tuple(self.vshape(st, x, d - 1) for x in v.a[0])
        if o == "it":
            return ("it",) + tuple((k, x.n if k == "e" else self.sshape(x)) for k, x in v.a[0])
        if o in ITERS:
            return (o,) + tuple(self.vshape(st, x, d) for x in v.a if isinstance(x, T) and x.op not in ("clo", "fn", "int", "lin"))
        if o == "clo" and d:
            return ("clo", v.a[0]) + tuple(self.vshape(st, x, d - 1) for x in v.a[1])
        return None

    def sshape(self, x):
        R, a, b, ev, t, op = _run_of(x)
        while R.op == "jv" and False:
            pass
        return ("s", R.n if R.op != "jv" else 0)

    def join(self, s0, s1, hid):
        return Lgg(self, s0, s1, hid).result()


from seqs import _run as _run_of

ITERS = ("imap", "ifilter", "ifiltermap", "izip", "ichain", "ienum", "iskip", "itake", "itakewhile", "iskipwhile",
         "irev", "iflat", "ipeek", "iinspect", "range")


def streq(a, b):
    """equality of texts made of explicit bytes"""
    for x, y in ((a, b), (b, a)):
        if x.op == "bstr" and y.op == "str":
            w = y.a[0].encode()
            if len(w) != len(x.a[0]):
                return FALSE
            return conj(*[eq(p, I(q)) for p, q in zip(x.a[0], w)])
        if x.op == "bstr" and y.op == "bstr":
            if len(x.a[0]) != len(y.a[0]):
                return FALSE
            return conj(*[eq(p, q) for p, q in zip(x.a[0], y.a[0])])
    return eq(a, b)


NARROW = {"u8": 8, "i8": 8, "u16": 16, "i16": 16}


def signature(s):
    return (frozenset((k, v.n) for k, v in s.mem.items()), frozenset(s.facts.items()), frozenset(s.dom.items()),
            frozenset((k, v.n if isinstance(v, T) else str(v)) for k, v in s.world.items()), s.taint, s.lossy)


def dedupe(outs):
    seen, r = set(), []
    for s, bb in outs:
        k = (bb, signature(s))
        if k in seen:
            continue
        seen.add(k)
        r.append((s, bb))
    return r


class Call:
    __slots__ = ("e", "st", "fr", "c", "path", "rpath", "args", "blk")

    def __init__(self, e, st, fr, c, path, rpath, args, blk):
        self.e, self.st, self.fr, self.c, self.path, self.rpath, self.args, self.blk = e, st, fr, c, path, rpath, args, blk

    def ty(self, i, which="targs"):
        return self.e.targ(self.fr, self.c, i, which)

    def val(self, i):
        return self.e.deref(self.st, self.args[i])

    def ret(self, v):
        return [(self.st, v)]

    def setp(self, p, v, st=None):
        """store through a pointer argument"""
        st = st or self.st
        if p.op == "ptr":
            self.e.store(st, p.a[0], tuple(p.a[1]), v)
        else:
            st.add_taint("write through a shared value in " + self.path)

    def panic(self, st=None, what=None):
        self.e.panic(st or self.st, self.fr, self.blk["sp"], what or self.path)


# ---------------------------------------------------------------- bytes
BYTES = frozenset(range(256))
_bcache = {}


def chp_eval(name, v):
    if name in CHP2:
        return bool(CHP2[name](chr(v)))
    import unicodedata
    c = chr(v)
    cat_ = unicodedata.category(c)
    if name == "is_alphanumeric":
        return cat_[0] == "L" or cat_[0] == "N" or v in ()
    if name == "is_alphabetic":
        return cat_[0] == "L"
    if name == "is_numeric":
        return cat_[0] == "N"
    if name == "is_whitespace":
        return v in (9, 10, 11, 12, 13, 32, 0x85, 0xa0)
    if name == "is_ascii_whitespace":
        return v in (9, 10, 12, 13, 32)
    if name == "is_ascii_digit":
        return 48 <= v <= 57
    if name == "is_ascii_alphanumeric":
        return v < 128 and c.isalnum()
    if name == "is_ascii_alphabetic":
        return v < 128 and c.isalpha()
    if name == "is_ascii_lowercase":
        return 97 <= v <= 122
    if name == "is_ascii_uppercase":
        return 65 <= v <= 90
    if name == "is_ascii":
        return v < 128
    if name == "is_control" or name == "is_ascii_control":
        return v < 32 or v == 127 or (name == "is_control" and 128 <= v < 160)
    if name == "is_ascii_graphic":
        return 33 <= v <= 126
    if name == "is_ascii_punctuation":
        return 33 <= v <= 126 and not c.isalnum()
    return None


_terms._rebuilders["chp"] = lambda n, b: (mk("chp", n, b) if b.op != "int" or chp_eval(n, b.a[0]) is None
                                          else B(chp_eval(n, b.a[0])))


# ---------------------------------------------------------------- liveness
def liveness(body):
    lv = getattr(body, "_live", None) if hasattr(body, "_live") else None
    lv = _live.get(body.key + body.crate)
    if lv is not None:
        return lv
    n = len(body.blocks)
    use, deff = [], []

    def pl_use(pl, u):
        u.add(pl[0])
        for p in pl[1]:
            if p[0] == "i":
                u.add(p[1])

    def op_use(o, u):
        if o and o[0] in ("cp", "mv"):
            pl_use(o[1], u)

    def rv_use(r, u):
        k = r[0]
        if k in ("use", "repeat"):
            op_use(r[1], u)
        elif k in ("ref",):
            pl_use(r[2], u)
        elif k == "cast":
            op_use(r[2], u)
        elif k == "bin":
            op_use(r[2], u)
            op_use(r[3], u)
        elif k == "un":
            op_use(r[2], u)
        elif k == "discr":
            pl_use(r[1], u)
        elif k == "agg":
            for o in r[2]:
                op_use(o, u)
    for bl in body.blocks:
        u, d = set(), set()

        def usev(f):
            x = set()
            f(x)
            u.update(y for y in x if y not in d)
        for s in bl["s"]:
            if s[0] == "=":
                usev(lambda x: rv_use(s[2], x))
                if s[1][1]:
                    usev(lambda x: pl_use(s[1], x))
                else:
                    d.add(s[1][0])
            else:
                usev(lambda x: pl_use(s[1], x))
        t = bl["t"]
        k = t[0]
        if k == "switch":
            usev(lambda x: op_use(t[1], x))
        elif k == "call":
            for a in t[2]:
                usev(lambda x: op_use(a, x))
            if "indirect" in t[1]:
                usev(lambda x: op_use(t[1]["indirect"], x))
            if t[3][1]:
                usev(lambda x: pl_use(t[3], x))
            else:
                d.add(t[3][0])
        elif k == "assert":
            usev(lambda x: op_use(t[1], x))
        elif k == "yield":
            usev(lambda x: op_use(t[1], x))
        elif k == "return":
            usev(lambda x: x.add(0))
        use.append(u)
        deff.append(d)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s_ in body.succ(i):
                o |= live[s_]
            x = use[i] | (o - deff[i])
            if x != live[i]:
                live[i] = x
                ch = True
    _live[body.key + body.crate] = live
    return live


_live = {}


# ---------------------------------------------------------------- join
class Lgg:
    def __init__(self, eng, s0, s1, hid):
        self.e, self.s0, self.s1, self.hid = eng, s0, s1, hid
        self.pairs = {}
        self.memo = {}
        self.new_ok = True
        self.fail = False

    def var(self, a, b):
        k = (a, b)
        v = self.pairs.get(k)
        if v is None:
            if not self.new_ok:
                self.fail = True
                return a
            sort = "int" if (int_sorted(a) and int_sorted(b)) else "any"
            v = mk("jv", self.hid[0] + ":" + str(self.hid[1]), next(_ctr), sort)
            self.pairs[k] = v
        return v

    def mine(self, t):
        """does t mention a variable minted at this head?"""
        h = self.hid[0] + ":" + str(self.hid[1])
        return any(r.op == "jv" and r.a[0] == h for r in roots(t))

    def is_mine(self, t):
        return t.op == "jv" and t.a[0] == self.hid[0] + ":" + str(self.hid[1])

    def lg(self, a, b):
        if a is b and not self.mine(a):
            return a
        k = (a, b)
        if k in self.pairs:
            return self.pairs[k]
        if k in self.memo:
            return self.memo[k]
        r = self.lg0(a, b)
        if self.new_ok:
            self.memo[k] = r
        return r

    def lg0(self, a, b):
        if int_sorted(a) and int_sorted(b):
            # keep a common linear part
            if a is b and not self.is_mine(a):
                if a.op == "lin":
                    c, d = lin_of(a)
                    r = I(c)
                    for t, kk in d.items():
                        x = self.lg(t, t)
                        for _ in range(abs(kk)):
                            r = add(r, x, 1 if kk > 0 else -1)
                    return r
                if a.op == "len":
                    return length(self.lg(a.a[0], a.a[0]))
            return self.var(a, b)
        if is_seq(a) and is_seq(b) and (a.op != "jv" or b.op != "jv"):
            r = self.lg_seq(a, b)
            if r is not None:
                return r
        if a.op == "it" and b.op == "it":
            pa, pb = a.a[0], b.a[0]
            if len(pa) == len(pb) and all(x[0] == y[0] for x, y in zip(pa, pb)):
                out = []
                for x, y in zip(pa, pb):
                    z = self.lg_run(x[1], y[1]) if x[0] == "s" else None
                    out.append((x[0], z if z is not None else self.lg(x[1], y[1])))
                return mk("it", tuple(out))
            return self.var(a, b)
        if a.op == b.op and a.op not in ("jv", "tok", "int", "str", "bool", "ptr", "cell", "fresh", "sym", "fn", "slice",
                                         "coll", "gmap", "gsub", "lin", "len", "el", "clo", "byte") and len(a.a) == len(b.a):
            if a.op == "adt" and (a.a[0], a.a[1]) != (b.a[0], b.a[1]):
                return self.var(a, b)
            r = self.lg_args(a.a, b.a)
            if r is not None:
                return rebuild(a.op, r)
        if a.op == "clo" and b.op == "clo" and a.a[0] == b.a[0]:
            return mk("clo", a.a[0], tuple(self.lg(x, y) for x, y in zip(a.a[1], b.a[1])), a.a[2])
        if a.op == "el" and b.op == "el":
            C, i = self.lg(a.a[0], b.a[0]), self.lg(a.a[1], b.a[1])
            return elem(C, i)
        if a.op == "byte" and b.op == "byte" and a.a[0] is b.a[0]:
            return mk("byte", a.a[0], self.lg(a.a[1], b.a[1]))
        return self.var(a, b)

    def lg_args(self, xs, ys):
        out = []
        for x, y in zip(xs, ys):
            if isinstance(x, T) and isinstance(y, T):
                out.append(self.lg(x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return None
                z = self.lg_args(x, y)
                if z is None:
                    return None
                out.append(z)
            elif isinstance(x, T) or isinstance(y, T) or x != y:
                return None
            else:
                out.append(x)
        return tuple(out)

    def kind(self, a):
        return a.a[0] if a.op == "coll" else "vec"

    def lg_seq(self, a, b):
        if a.op == "slice" and b.op == "slice" and a.a[0] is b.a[0]:
            return slice_(self.lg(a.a[0], b.a[0]), self.lg(a.a[1], b.a[1]), self.lg(a.a[2], b.a[2]))
        if a.op == "slice" or b.op == "slice":
            # R = slice(R, 0, len R)
            def asl(x):
                return x.a if x.op == "slice" else (x, I(0), length(x))
            (R0, a0, b0), (R1, a1, b1) = asl(a), asl(b)
            if R0 is R1:
                return slice_(self.lg(R0, R1), self.lg(a0, a1), self.lg(b0, b1))
        kind = self.kind(a)
        if a.op == "coll" and b.op == "coll" and self.kind(b) != kind:
            return None
        if b.op == "coll":
            kind = self.kind(b)
        pa, pb = list(parts_of(a)), list(parts_of(b))
        if len(pa) == 1 and len(pb) == 1 and pa[0][0] == "s" and pb[0][0] == "s" and pa[0][1].op == "jv" or (
                a.op not in ("coll", "gmap", "gsub", "slice") and b.op not in ("coll", "gmap", "gsub", "slice")):
            if a is b and a.op == "jv" and self.is_mine(a):
                return self.var(a, a)
            return None
        out = []
        i = 0
        while i < len(pa) and i < len(pb):
            (ka, x), (kb, y) = pa[i], pb[i]
            if ka != kb:
                break
            if ka == "e":
                if x is y:
                    out.append(("e", self.lg(x, y)))
                    i += 1
                    continue
                if len(pa) == len(pb) and self.new_ok is not None and all(p[0] == q[0] for p, q in zip(pa, pb)):
                    out.append(("e", self.lg(x, y)))
                    i += 1
                    continue
                break
            z = self.lg_run(x, y)
            if z is None:
                break
            out.append(("s", z))
            i += 1
        ra, rb = pa[i:], pb[i:]
        if not ra and not rb:
            return coll(kind, out)
        # one more element per iteration of a traversal
        for rest, new in ((ra, rb), (rb, ra)):
            if not rest and len(new) == 1 and new[0][0] == "e":
                z = self.template(new[0][1], new is rb)
                if z is not None:
                    # merge with a preceding weak run over the same elements
                    if out and out[-1][0] == "s" and out[-1][1].op == "gsub" and z.op == "gsub" and out[-1][1] is z:
                        return coll(kind, out)
                    if out and out[-1][0] == "s" and out[-1][1].op == "gsub" and z.op in ("gsub", "gmap") and \
                            out[-1][1].a[2] is z.a[2] and _run_of(out[-1][1])[0] is _run_of(z)[0]:
                        R, lo, hi, ev, t, op = _run_of(z)
                        out[-1] = ("s", gmap(slice_(R, I(0), hi), ev, t, False))
                        return coll(kind, out)
                    out.append(("s", z))
                    return coll(kind, out)
            if not rest and len(new) == 1 and new[0][0] == "s" and kind in ("set", "map", "graph"):
                # a whole run that may be missing
                pass
        return None

    def lg_run(self, x, y):
        """two summarised runs"""
        if x is y and not self.mine(x):
            return x
        try:
            R0, a0, b0, ev0, t0, o0 = _run_of(x)
            R1, a1, b1, ev1, t1, o1 = _run_of(y)
        except Exception:
            return None
        if R0 is not R1 or t0 is not t1 or ev0 is not ev1:
            if R0.op == "jv" or R1.op == "jv":
                return None
            return None
        R = self.lg(R0, R1)
        t = self.lg(t0, t1)
        exact = o0 == "gmap" and o1 == "gmap"
        if b0 is b1 and self.is_mine(b0):
            # the traversal moved on without adding an element?
            adv = self.adv(b0)
            if adv is not None:
                return gmap(slice_(R, self.lg(a0, a1), adv), ev0, t, False)
        return gmap(slice_(R, self.lg(a0, a1), self.lg(b0, b1)), ev0, t, exact)

    def adv(self, v):
        for (p, q), j in self.pairs.items():
            if p is v and q is add(v, I(1)):
                return j
        return None

    def template(self, x, is_new):
        """x was appended in the iteration that advanced some traversal position"""
        if not is_new:
            return None
        for (p, q), j in list(self.pairs.items()):
            if q is add(p, I(1)):
                els = [y for y in walk(x) if y.op == "el" and y.a[1] is p]
                if not els:
                    continue
                els.sort(key=lambda y: y.n)
                el_ = els[0]
                R = el_.a[0]
                t = subst(x, {el_: EV})
                if any(y.op == "el" and y.a[1] is p for y in walk(t)):
                    continue
                if self.mine(t) or self.mine(R):
                    continue
                if self.is_mine(p):
                    return gmap(slice_(R, I(0), j), EV, t, False)
                if self.mine(p):
                    continue
                return gmap(slice_(R, p, j), EV, t)
        return None

    def result(self):
        e, s0, s1 = self.e, self.s0, self.s1
        st = St()
        dropped = False
        # positions first: templates need to know which traversal advanced
        keys = [k for k in s0.mem if k in s1.mem]
        dropped = len(keys) != len(s0.mem)

        def prio(k):
            v = s0.mem[k]
            return 0 if (v.op in ("it", "int", "lin", "range") or v.op in ITERS or int_sorted(v)) else 1
        pre = getattr(e, "pre_join", None)
        if pre:
            pre(self)
        for n in s0.world:
            if n in s1.world:
                a, b = s0.world[n], s1.world[n]
                st.world[n] = self.lg(a, b) if isinstance(a, T) and isinstance(b, T) else a
        for k in sorted(keys, key=lambda k: (prio(k), str(k))):
            st.mem[k] = self.lg(s0.mem[k], s1.mem[k])
        post = getattr(e, "post_join", None)
        if post:
            post(self, st)
        # facts that hold on both sides
        self.new_ok = False
        kept = 0
        bysig = {}
        for f, v in s1.facts.items():
            bysig.setdefault((f.op, v), []).append(f)
        for f, v in s0.facts.items():
            got = False
            c = [f] if s1.facts.get(f) == v else []
            c += [g for g in bysig.get((f.op, v), []) if g is not f][:12]
            for g in c:
                self.fail = False
                h = self.lg(f, g)
                if not self.fail and h.op not in ("jv", "bool"):
                    st.facts[h] = v
                    got = True
            if got:
                kept += 1
        if kept < len(s0.facts):
            dropped = True
        for x, d in s0.dom.items():
            got = False
            for y, d1 in s1.dom.items():
                if y is x or (x, y) in self.pairs or x.op == y.op:
                    self.fail = False
                    h = self.lg(x, y)
                    if not self.fail and h.op != "adt":
                        nd = d | d1
                        st.dom[h] = st.dom[h] | nd if h in st.dom else nd
                        got = True
                        if nd != d:
                            dropped = True
            if not got:
                dropped = True
        for (x, y), j in self.pairs.items():
            def vs(s, z):
                if z.op == "adt" and z.a[5]:
                    return frozenset((z.a[5],))
                return s.dom.get(z)
            dx, dy = vs(s0, x), vs(s1, y)
            if dx is not None and dy is not None:
                st.dom[j] = dx | dy
                if dx | dy != dx:
                    dropped = True
        st.taint = s0.taint | s1.taint
        st.lossy = s0.lossy or s1.lossy
        st.via = s0.via
        if st.taint != s0.taint or st.lossy != s0.lossy:
            dropped = True
        firsts = [p[0] for p in self.pairs]
        if not dropped and all(self.is_mine(p) for p in firsts) and len(set(firsts)) == len(firsts):
            return None
        return st


def is_seq(t):
    return t.op in ("coll", "gmap", "gsub", "slice") or t.op == "jv"
