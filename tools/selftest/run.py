"""How much of std the interpreter understands: every t_* of lib.rs must come out as true.
python3 tools/selftest/run.py [name..]"""
import os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
for d in ("engine", "checks"):
    sys.path.insert(0, os.path.join(V, d))
import mir, absint
from terms import *
d = tempfile.mkdtemp(prefix="selftest")
try:
    src = os.path.join(d, "lib.rs")
    pre = open(os.path.join(V, "prelude", "lib.rs")).read()
    mine = open(os.path.join(H, "lib.rs")).read()
    import re
    ex = [x for x in sys.argv[1:] if x.startswith("=")]
    for i, x in enumerate(ex):
        mine += "\npub fn t_x%d() -> bool { %s }" % (i, x[1:])
    sys.argv[1:] = [a for a in sys.argv[1:] if not a.startswith("=")] + ["t_x%d" % i for i in range(len(ex))]
    open(src, "w").write(pre + "\n" + mine)
    names = re.findall(r"pub fn (t_\w+)\(\)", mine)
    want = sys.argv[1:] or names
    if not sys.argv[1:]:
        open(os.path.join(d, "main.rs"), "w").write(pre + "\n" + mine + "\nfn main() {" + "".join('if !%s() { println!("FALSE %s"); }' % (n, n) for n in names) + "}")
        r = subprocess.run(["rustc", "-A", "warnings", "--edition", "2024", "-o", os.path.join(d, "m"), os.path.join(d, "main.rs")], capture_output=True, text=True)
        print(r.stderr[-3000:], end="")
        print(subprocess.run([os.path.join(d, "m")], capture_output=True, text=True).stdout, end="")
    e = mir._env()
    e["MIRDUMP_OUT"] = d
    r = subprocess.run([mir.build_driver(), "--crate-name", "prelude", "--crate-type", "lib", "--edition", "2024", "--emit=metadata", "-o", os.path.join(d, "x.rmeta"), src], env=e, capture_output=True, text=True)
    f = os.path.join(d, "lib-prelude.json")
    if not os.path.exists(f):
        print(r.stderr[-3000:])
        sys.exit(1)
    w = mir.World()
    w.prelude = mir.Prog(f, "prelude")
    good = 0
    for n in want:
        eng = absint.Eng(w)
        eng.unroll = True
        try:
            st = absint.St()
            outs = eng.call_body(st, w.prelude.bodies["prelude::" + n], [], 0)
            vals = [eng.deref(s, v) for s, v in outs]
            taint = sorted({str(t) for s, _ in outs for t in s.taint})
            if len(vals) == 1 and vals[0] is TRUE and not taint:
                good += 1
                continue
            print("%-18s %s %s %s" % (n, [show(v)[:100] for v in vals][:3], " | ".join(taint)[:160], dict(eng.unmodelled) if eng.unmodelled else ""), [p[3] for p in eng.panics][:2])
        except Exception as x:
            import traceback
            t = traceback.extract_tb(x.__traceback__)[-1]
            print("%-18s CRASH %s %s (%s:%d)" % (n, type(x).__name__, x, os.path.basename(t.filename), t.lineno))
            if len(want) == 1:
                traceback.print_exc()
    print(good, "of", len(want))
finally:
    shutil.rmtree(d)
