"""Whole-program call graph over the dumped MIR."""
import json
from mir import strip_generics


def const_operands(x):
    """all constant operands in a MIR json fragment"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "c" and isinstance(x[1], dict) and "ty" in x[1]:
            yield x[1]
            return
        for y in x:
            yield from const_operands(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from const_operands(y)


class CallGraph:
    def __init__(self, prog):
        self.prog = prog
        self.edges = {}      # key -> list of (callee key | None, external path | None, span)
        self.refs = {}       # key -> other referenced bodies (closures, fn items, consts)
        self.impls = {}      # trait path -> [body]
        for b in prog.bodies.values():
            if b.trait:
                self.impls.setdefault(strip_generics(b.trait).split("<")[0], []).append(b)
        for b in prog.bodies.values():
            e, r = [], []
            for bl in b.blocks:
                if bl["cleanup"]:
                    continue
                for s in bl["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] in ("closure", "coroutine"):
                        r.append(s[2][1][1])
                    for c in const_operands(s):
                        if "fn" in c:
                            r.append(c["fn"])
                        if "uneval" in c:
                            r.append(c["uneval"] + ("#promoted%d" % c["promoted"] if "promoted" in c else ""))
                t = bl["t"]
                for c in const_operands(t):
                    if "fn" in c:
                        r.append(c["fn"])
                    if "uneval" in c:
                        r.append(c["uneval"] + ("#promoted%d" % c["promoted"] if "promoted" in c else ""))
                if t[0] == "call" and "path" in t[1]:
                    c = t[1]
                    for k in (c.get("rkey"), c["key"]):
                        if k in prog.bodies:
                            e.append((k, None, bl["sp"]))
                            break
                    else:
                        e.append((None, c, bl["sp"]))
            self.edges[b.key] = e
            self.refs[b.key] = r

    def reach(self, roots, skip=lambda b: False):
        """bodies reachable from roots -> the call chain that reaches them.
        Trait impls of local types are reachable as soon as anything is (std calls them back)."""
        via = {}
        work = []
        for r in roots:
            via[r.key] = (None, None)
            work.append(r.key)
        for lst in self.impls.values():
            for b in lst:
                if not skip(b) and b.key not in via:
                    via[b.key] = (None, "trait impl")
                    work.append(b.key)
        while work:
            k = work.pop()
            b = self.prog.bodies[k]
            nxt = [(c, sp) for c, ext, sp in self.edges[k] if c] + [(c, None) for c in self.refs[k]]
            for c, sp in nxt:
                if c in self.prog.bodies and c not in via:
                    if skip(self.prog.bodies[c]):
                        continue
                    via[c] = (k, sp)
                    work.append(c)
        return via

    def chain(self, via, k):
        out = []
        while k is not None and len(out) < 12:
            out.append(self.prog.bodies[k].short())
            k = via[k][0]
        return " <- ".join(out)
