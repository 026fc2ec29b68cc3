"""What the semantic analysis has to say about a scenario, computed from the scenario alone (the specification side).

errors(dom, problem) -> list of (property, required, term): every true error of the files.  'required' ones forbid success,
the others may be reported instead."""
from scen import *


def els(xs):
    return [x for x in (xs or []) if isinstance(x, Node)]


def types_of(dom):
    g = {}
    for t in els(dom.types):
        g.setdefault(t.name, set())
        if t.ty is not None:
            g.setdefault(t.ty, set())
            g[t.name].add(t.ty)
    return g


def cyclic(g):
    done, path = set(), set()

    def go(n):
        if n in path:
            return True
        if n in done:
            return False
        path.add(n)
        r = any(go(m) for m in g.get(n, ()))
        path.discard(n)
        done.add(n)
        return r
    return any(go(n) for n in list(g))


def sub(g, a, b):
    if a is None or b is None:
        return a is None and b is None
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += g.get(x, ())
    return False


def errors(dom, problem=True):
    out = []
    g = types_of(dom)

    def add(p, t, req=True):
        out.append((p, req, t))

    def dups(variant, xs, name=lambda x: x.name, line=lambda x: x.line):
        first = {}
        for x in els(xs):
            n = name(x)
            if n in first:
                add("C09", dup(variant, n, line(first[n]), line(x)))
            else:
                first[n] = x

    def decl_types(xs):
        for x in els(xs):
            if x.ty is not None and x.ty not in g:
                add("C10", undef("Type", x.ty, x.tline))

    # requirements
    seen = set()
    for r in dom.reqs:
        if isinstance(r, R):
            continue
        if r in seen:
            add("C09", sem("DuplicateRequirementDeclaration", r))
        seen.add(r)
    if cyclic(g):
        add("C13", sem("CyclicTypeDeclaration"))
    dups("Predicate", dom.preds)
    dups("CompoundTask", dom.tasks)
    dups("Object", dom.constants)
    dups("Action", dom.actions)
    dups("Method", dom.methods, lambda m: m.name.name, lambda m: m.name.line)
    preds = {}
    for p in els(dom.preds):
        preds.setdefault(p.name, p)
        decl_types(p.vars)
    tasks = {}
    for t in els(dom.tasks):
        tasks.setdefault(t.name, t)
        decl_types(t.vars)
    consts = {}
    decl_types(dom.constants)
    for c in els(dom.constants):
        consts.setdefault(c.name, c)
    actions = {}
    for a in els(dom.actions):
        actions.setdefault(a.name, a)

    def args(kind, decl, owner, line, terms, scope, undefv, alts):
        """decl: parameter list; terms: the arguments"""
        if len(decl) != len(terms):
            add("C11", arity(kind, owner, len(decl), len(terms), line))
        for i, t in enumerate(terms):
            d = scope(t.name)
            if d is None:
                add("C10", undef(undefv, t.name, t.line))
            elif i < len(decl) and not sub(g, d.ty, decl[i].ty):
                for v in alts(t):
                    add("C12", tyerr(kind, v, decl[i].ty, d.ty, t.line), len(decl) == len(terms))

    def atoms(f, quant, sink):
        if f is None or isinstance(f, R):
            return
        if isinstance(f, Node):
            sink.append((f, quant))
            return
        k = f[0]
        if k in ("And", "Or", "Xor"):
            for x in f[1]:
                atoms(x, quant, sink)
        elif k == "Imply":
            for x in list(f[1]) + list(f[2]):
                atoms(x, quant, sink)
        elif k in ("Not", "Weighted"):
            atoms(f[1], quant, sink)
        elif k in ("Exists", "ForAll"):
            for v in els(f[1]):
                if v.ty is not None and v.ty not in g:
                    out.append(("C10", False, undef("Type", v.ty, v.tline)))
            atoms(f[2], True, sink)

    def formula(f, scope, undefv, problem_side):
        sink = []
        atoms(f, False, sink)
        for a, quant in sink:
            p = preds.get(a.name)
            if p is None:
                add("C10", undef("Predicate", a.name, a.line), not (quant and problem_side))
                continue
            if quant:
                if len(p.vars) != len(a.vars):
                    add("C11", arity("Predicate", a.name, len(p.vars), len(a.vars), a.line), not problem_side)
                continue
            args("Predicate", p.vars, a.name, a.line, a.vars, scope, undefv,
                 lambda t: [t.name, a.name] if problem_side else [t.name])

    def scope_of(params):
        m = {}
        for x in els(params):
            m.setdefault(x.name, x)
        return lambda n: m.get(n) or consts.get(n)

    for a in els(dom.actions):
        dups("Parameter", a.params)
        decl_types(a.params)
        sc = scope_of(a.params)
        formula(a.pre, sc, "Parameter", False)
        formula(a.eff, sc, "Parameter", False)
    for m in els(dom.methods):
        dups("Parameter", m.params)
        decl_types(m.params)
        sc = scope_of(m.params)
        formula(m.pre, sc, "Parameter", False)
        t = tasks.get(m.task.name)
        if t is None:
            add("C10", undef("Task", m.task.name, m.task.line))
        else:
            args("Task", t.vars, m.task.name, m.task.line, m.terms, sc, "Parameter", lambda x: [x.name])
        for s in els(m.subtasks):
            d = actions.get(s.task.name)
            d = d.params if d else tasks[s.task.name].vars if s.task.name in tasks else None
            if d is None:
                add("C10", undef("Subtask", s.task.name, s.task.line))
            else:
                args("Task", d, s.task.name, s.task.line, s.terms, sc, "Parameter", lambda x: [x.name])
        if m.order != "total" and cyclic(order_graph(m.order)):
            add("C13", sem("CyclicOrderingDeclaration", m.opos.term()))
    if not problem:
        return out
    decl_types(dom.objects)
    dups("Object", dom.objects)
    objs = {}
    for o in els(dom.objects):
        objs.setdefault(o.name, o)
    sc = lambda n: objs.get(n) or consts.get(n)
    for p in els(dom.init):
        formula(p, sc, "Object", True)
    if dom.tn is not None:
        if dom.tn.order != "total" and cyclic(order_graph(dom.tn.order)):
            add("C13", sem("CyclicOrderingDeclaration", dom.tn.opos.term()))
        decl_types(dom.tnparams)
        ps = {x.name: x for x in els(dom.tnparams)}
        sct = lambda n: objs.get(n) or ps.get(n) or consts.get(n)
        for s in els(dom.tn.subtasks):
            d = actions.get(s.task.name)
            d = d.params if d else tasks[s.task.name].vars if s.task.name in tasks else None
            if d is None:
                add("C10", undef("Subtask", s.task.name, s.task.line))
            else:
                args("Task", d, s.task.name, s.task.line, s.terms, sct, "Object", lambda x: [x.name, s.task.name])
    formula(dom.goal, sc, "Object", True)
    return out


def order_graph(o):
    g = {}
    for e in o:
        if isinstance(e, R):
            continue
        g.setdefault(e[0], set()).add(e[1])
        g.setdefault(e[1], set())
    return g
