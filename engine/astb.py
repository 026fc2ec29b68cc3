"""Abstract syntax trees as terms."""
from terms import *
from seqs import *

_paths = {}


def setup(world):
    for a in world.lib.adts:
        if a["local"]:
            _paths.setdefault(a["path"].split("::")[-1], a)


def info(n):
    return _paths[n]


def struct(n, **f):
    a = _paths[n]
    v = a["variants"][0]
    names = [x[0] for x in v["fields"]]
    for k in f:
        if k not in names:
            raise KeyError("%s has no field %s" % (n, k))
    return adt(a["path"], 0, [f[k] if k in f else mk("sym", "%s.%s" % (n, k)) for k in names], names, v["name"])


def enum(n, variant, *f):
    a = _paths[n]
    for i, v in enumerate(a["variants"]):
        if v["name"] == variant:
            return adt(a["path"], i, f, [x[0] for x in v["fields"]], variant)
    raise KeyError("%s::%s" % (n, variant))


def vec(*xs):
    """elements; ('s', term) for runs"""
    return coll("vec", [x if isinstance(x, tuple) else ("e", x) for x in xs])


def nm(s):
    return mk("nm", s)


def pos(l):
    return struct("TokenPosition", line=mk("line", l))


def opt(x):
    return NONE if x is None else some(x)


def symbol(name, line, ty=None, tline=None):
    return struct("Symbol", name=name if isinstance(name, T) else nm(name), name_pos=pos(line),
                  symbol_type=NONE if ty is None else some(ty if isinstance(ty, T) else nm(ty)),
                  type_pos=NONE if ty is None else some(pos(tline or line + ":t")))


def predicate(name, line, args):
    return struct("Predicate", name=name if isinstance(name, T) else nm(name), name_pos=pos(line), variables=args)


def rest(label):
    return ("s", mk("rest", label))
