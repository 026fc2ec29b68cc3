#!/usr/bin/env python3
"""seed.py <id>...: confirm planted bugs in a scratch copy of /repo and keep them as /verif/seeded/<id>/.
Definitions come from tools/seeds_*.py (not read by any check)."""
import glob, importlib.util, json, os, shutil, subprocess, sys

V = "/verif"
WT = "/tmp/seedwt"


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)


def load():
    out = {}
    for f in sorted(glob.glob(V + "/tools/seeds_*.py")):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.SEEDS:
            out[s["id"]] = s
    return out


ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=WT + "/target", RUSTC_WRAPPER="")
ENV.pop("VERIF_SEED", None)


def fresh():
    if not os.path.exists(WT):
        sh("cp -a /repo %s" % WT)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -fdq -e target" % (WT, WT, WT))


def build():
    return sh("cargo test --workspace --no-run --offline", cwd=WT, env=ENV)


def tests():
    log = WT + "/target/t.log"
    sh("timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > %s 2>&1" % log, cwd=WT, env=ENV)
    sh("python3 /opt/vp/results.py %s/target/o.json cargo:%s" % (WT, log))
    o = json.load(open(WT + "/target/o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base["passed"] if "passed" in base else base.get("stable", [])
    ok = set(o["passed"] if "passed" in o else [k for k, v in o.items() if v == "passed"])
    return [n for n in names if n not in ok]


def main(ids):
    allseeds = load()
    ids = ids or [i for i in allseeds if not os.path.exists(V + "/seeded/" + i)]
    fresh()
    for i in ids:
        s = allseeds[i]
        d = "/tmp/seedout/" + i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n, t in s["files"].items():
            open(os.path.join(d, n), "w").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        fresh()
        for f, old, new in s["edits"]:
            p = os.path.join(WT, f)
            t = open(p).read()
            if t.count(old) < 1:
                print(i, "NOT FOUND in", f, repr(old[:60]))
                break
            n = s.get("nth", {}).get(old)
            if n is None:
                if t.count(old) != 1:
                    print(i, "AMBIGUOUS", t.count(old), repr(old[:60]))
                    break
                t = t.replace(old, new)
            else:
                k = -1
                for _ in range(n + 1):
                    k = t.index(old, k + 1)
                t = t[:k] + new + t[k + len(old):]
            open(p, "w").write(t)
        else:
            diff = sh("git -C %s diff" % WT).stdout
            open(d + "/patch.diff", "w").write(diff)
            b = build()
            if b.returncode:
                print(i, "DOES NOT BUILD", b.stderr[-1500:])
                continue
            r1 = sh("timeout 300 bash %s/demo.sh" % d, cwd=WT, env=ENV)
            bad = tests()
            fresh()
            build()
            r0 = sh("timeout 300 bash %s/demo.sh" % d, cwd=WT, env=ENV)
            print(i, "demo patched rc", r1.returncode, "clean rc", r0.returncode, "failing tests", bad[:4])
            if r1.returncode != 0 and r0.returncode == 0 and not bad:
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                shutil.rmtree(V + "/seeded/" + i, ignore_errors=True)
                os.makedirs(V + "/seeded", exist_ok=True)
                shutil.copytree(d, V + "/seeded/" + i)
                print(i, "KEPT")
            else:
                print(r1.stdout[-500:], r1.stderr[-300:], "--- clean", r0.stdout[-500:], r0.stderr[-300:])


main(sys.argv[1:])
