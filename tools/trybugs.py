#!/usr/bin/env python3
"""trybugs.py [ids]: run the check of each planted bug's property against it (in a scratch copy of /repo's HEAD)."""
import json, os, subprocess, sys, time
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
hit = 0
W = "/tmp/trywt"
subprocess.run("rm -rf /tmp/trywt && git clone -q /repo /tmp/trywt", shell=True, check=True)
ENV = dict(os.environ, VERIF_REPO=W)
for i in ids:
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    subprocess.run(["git", "-C", W, "apply", "%s/%s/patch.diff" % (S, i)], check=True)
    t = time.time()
    try:
        r = subprocess.run([sys.executable, "/verif/check.py", m["property"]], capture_output=True, text=True, cwd="/verif", env=ENV)
    finally:
        subprocess.run(["git", "-C", W, "checkout", "--", "."], check=True)
    ok = r.returncode == 1 and "VIOLATION property=%s" % m["property"] in r.stdout
    hit += ok
    first = [l for l in r.stdout.splitlines() if l.startswith("  [")][:1] or r.stdout.splitlines()[-3:]
    print("%-28s %s %s %.0fs %s" % (i, m["property"], "caught" if ok else "MISSED rc=%d" % r.returncode, time.time() - t, first[0][:200] if first else r.stderr[-300:]))
print("%d of %d caught" % (hit, len(ids)))
subprocess.run("rm -rf /tmp/trywt", shell=True)
