"""Loads the MIR of /repo's current working tree (dumped by driver/mirdump)."""
import functools
import hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["CARGO_INCREMENTAL"] = "0"
    return e


def build_driver():
    e = _env()
    e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "driver"), env=e,
                       capture_output=True, text=True)
    exe = os.path.join(CACHE, "driver", "debug", "mirdump")
    if r.returncode != 0 or not os.path.exists(exe):
        raise BuildError("driver build failed:\n" + r.stderr[-12000:][:12000])
    return exe


def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock"):
                out.append(os.path.join(root, f))
    return out


def source_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in (os.path.join(VERIF, "driver", "src", "main.rs"),):
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def dump(force=False):
    """(Re)build the MIR dump of /repo's current sources; keyed by their content."""
    key = source_hash()
    out = os.path.join(CACHE, "dump", key)
    if os.path.exists(os.path.join(out, "done")) and not force:
        return out, key
    base = os.path.join(CACHE, "dump")
    if os.path.isdir(base):
        old = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
        for d in old[:-12]:
            shutil.rmtree(d, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    exe = build_driver()
    e = _env()
    tgt = os.path.join(CACHE, "target")
    e["CARGO_TARGET_DIR"] = tgt
    # cargo's freshness cache would skip the wrapper: forget our crate
    subprocess.run(["cargo", "+nightly", "clean", "--offline", "-q", "-p", "hddl_analyzer", "--manifest-path",
                    os.path.join(REPO, "Cargo.toml")], cwd=REPO, env=e, capture_output=True, text=True)
    e["MIRDUMP_OUT"] = out
    e["RUSTC_WORKSPACE_WRAPPER"] = exe
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--bins", "--manifest-path",
                        os.path.join(REPO, "Cargo.toml")], cwd=REPO, env=e, capture_output=True, text=True)
    want = ["lib-hddl_analyzer.json", "bin-hddl_analyzer.json", "bin-language_server.json"]
    if r.returncode != 0 or not all(os.path.exists(os.path.join(out, w)) for w in want):
        raise BuildError("cargo check with the MIR driver failed:\n" + r.stderr[-12000:][:12000])
    open(os.path.join(out, "done"), "w").write("ok")
    return out, key


@functools.lru_cache(None)
def strip_generics(p):
    """std::option::Option::<T>::map -> std::option::Option::map ; <T as Tr>::m -> Tr::m kept"""
    out, depth, i = [], 0, 0
    while i < len(p):
        if p.startswith("::<", i):
            depth += 1
            i += 3
            continue
        c = p[i]
        if depth:
            if c == "<":
                depth += 1
            elif c == ">" and p[i - 1] != "-":
                depth -= 1
            i += 1
            continue
        out.append(c)
        i += 1
    return "".join(out)


class Body:
    __slots__ = ("key", "path", "kind", "name", "parent", "impl", "trait", "pub", "derived", "span", "args", "locals",
                 "names", "blocks", "crate", "prog", "_loops", "_heads")

    def __init__(self, j, prog):
        for k in ("key", "path", "kind", "name", "parent", "impl", "trait", "pub", "derived", "span", "args", "locals",
                  "names", "blocks"):
            setattr(self, k, j[k])
        self.prog = prog
        self._loops = None
        self._heads = None

    def __repr__(self):
        return "<%s>" % self.short()

    def short(self):
        return short_key(self.key)

    def file(self):
        return self.span.rsplit(":", 1)[0]

    def succ(self, bb):
        return succ(self.blocks[bb]["t"])

    def loops(self):
        """header block -> set of blocks of the natural loop"""
        if self._loops is None:
            self._loops = natural_loops(self)
        return self._loops


def succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[1]]
    if k == "call":
        return [] if t[4] is None else [t[4]]
    if k == "assert":
        return [t[5]]
    if k == "yield":
        return [t[2]]
    return []


def natural_loops(body):
    n = len(body.blocks)
    succs = [body.succ(i) for i in range(n)]
    # reachable + rpo
    seen, order, st = set(), [], [(0, iter(succs[0]))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s_ in it:
            if s_ not in seen:
                seen.add(s_)
                st.append((s_, iter(succs[s_])))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s_ in succs[b]:
            preds[s_].append(b)
    dom = {rpo[0]: rpo[0]}
    changed = True

    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]:
                a = dom[a]
            while idx[b] > idx[a]:
                b = dom[b]
        return a
    while changed:
        changed = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in dom]
            x = ps[0]
            for p in ps[1:]:
                x = inter(x, p)
            if dom.get(b) != x:
                dom[b] = x
                changed = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for s_ in succs[b]:
            if dominates(s_, b):
                blk = loops.setdefault(s_, {s_})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in blk:
                        blk.add(x)
                        work.extend(preds[x])
    return loops


def short_key(k):
    """readable, line-free name of a body"""
    k = k.replace("hddl_analyzer::", "", 1)
    return k


class Prog:
    """one crate"""

    def __init__(self, path, tag):
        j = json.load(open(path))
        self.tag = tag
        self.crate = j["crate"]
        self.types = j["types"]
        self.adts = j["adts"]
        self.bodies = {}
        for b in j["bodies"]:
            bo = Body(b, self)
            bo.crate = tag
            self.bodies[bo.key] = bo
        self.adt_by_path = {a["path"]: a for a in self.adts}

    def ty(self, i):
        return self.types[i]

    def tystr(self, i):
        return self.types[i]["s"]

    def peel(self, i):
        t = self.types[i]
        while t["k"] in ("ref", "ptr"):
            t = self.types[t["to"]]
        return t


def prelude_dump():
    src = os.path.join(VERIF, "prelude", "lib.rs")
    h = hashlib.sha256()
    for f in (src, os.path.join(VERIF, "driver", "src", "main.rs")):
        h.update(open(f, "rb").read())
    out = os.path.join(CACHE, "prelude-" + h.hexdigest()[:16])
    res = os.path.join(out, "lib-prelude.json")
    if not os.path.exists(res):
        exe = build_driver()
        os.makedirs(out, exist_ok=True)
        e = _env()
        e["MIRDUMP_OUT"] = out
        r = subprocess.run([exe, "--crate-name", "prelude", "--crate-type", "lib", "--edition", "2021", "--emit=metadata", "-o",
                            os.path.join(out, "x.rmeta"), src], env=e, capture_output=True, text=True)
        if not os.path.exists(res):
            raise BuildError("prelude: " + r.stderr[-2000:])
    return res


class World:
    def __init__(self):
        d, self.key = dump()
        self.prelude = Prog(prelude_dump(), "prelude")
        self.lib = Prog(os.path.join(d, "lib-hddl_analyzer.json"), "lib")
        self.cli = Prog(os.path.join(d, "bin-hddl_analyzer.json"), "cli")
        self.lsp = Prog(os.path.join(d, "bin-language_server.json"), "lsp")

    def find(self, pat, prog=None):
        prog = prog or self.lib
        r = [b for b in prog.bodies.values() if re.search(pat, b.key) and b.kind in ("fn", "closure", "coroutine")]
        return r

    def fn(self, ty_suffix, name, prog=None, trait=None):
        """inherent (or trait) method `name` of the type whose path ends with ty_suffix"""
        prog = prog or self.lib
        r = []
        for b in prog.bodies.values():
            if b.kind != "fn" or b.name != name:
                continue
            if ty_suffix is None:
                if b.impl is None:
                    r.append(b)
                continue
            if b.impl is None:
                continue
            t = prog.peel(b.impl)
            if t["k"] != "adt" or not t["path"].split("::")[-1] == ty_suffix:
                continue
            if (trait is None) != (b.trait is None) and trait is not None:
                continue
            if trait is not None and not strip_generics(b.trait or "").split("<")[0].endswith(trait):
                continue
            r.append(b)
        return r


if __name__ == "__main__":
    w = World()
    for p in (w.lib, w.cli, w.lsp):
        print(p.tag, len(p.bodies), sum(len(b.blocks) for b in p.bodies.values()))
    if len(sys.argv) > 1:
        for b in w.find(sys.argv[1]):
            print("==", b.key, b.kind, b.span, b.args)
            if len(sys.argv) > 2:
                for i, bl in enumerate(b.blocks):
                    print(" bb%d" % i, "(cleanup)" if bl["cleanup"] else "")
                    for s_ in bl["s"]:
                        print("    ", json.dumps(s_[1:-1]))
                    print("    ->", json.dumps(bl["t"])[:600])
