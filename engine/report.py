"""Runs one check, matches its findings with the known ones, writes the evidence."""
import importlib, json, os, sys, time, traceback
import mir

VERIF = mir.VERIF


class Finding:
    """key: stable, line-free identification of the violating construct"""

    def __init__(self, key, where, text):
        self.key, self.where, self.text = key, where, text


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.findings = {}
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.stats = {}
        self.notes = []
        self._w = None

    @property
    def world(self):
        if self._w is None:
            self._w = mir.World()
        return self._w

    def find(self, key, where, text):
        if key not in self.findings:
            self.findings[key] = Finding(key, where, text)

    def ok(self, sample=None, n=1):
        self.obligations += n
        self.discharged += n
        if sample is not None and len(self.samples) < 40:
            self.samples.append(sample)

    def undec(self, what):
        self.obligations += 1
        if what not in self.undecided:
            self.undecided.append(what)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


def known():
    """known-findings.txt: 'known: property=<id> key=<key> | text' and 'fixed: ...' lines"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property="):
                rest = l[len("known: property="):]
                pid, rest = rest.split(" key=", 1)
                key, text = rest.split(" | ", 1)
                out[(pid.strip(), key.strip())] = text.strip()
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cx = Ctx(pid, tier, seed)
    kn = known()
    try:
        import table
        modname, fname, level = table.CHECKS[pid]
        m = importlib.import_module(modname)
        getattr(m, fname)(cx)
    except mir.BuildError as e:
        print("the current tree does not build with the analysis driver:\n%s" % e)
        return 2
    except Exception as e:  # an internal limit of the analysis: no verdict for the rest
        cx.undec("analysis stopped: %s" % (traceback.format_exc().strip().splitlines()[-1]))
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    known_hit, new = [], []
    for f in cx.findings.values():
        (known_hit if (pid, f.key) in kn else new).append(f)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    import table
    level = table.CHECKS[pid][2]
    cov = {
        "explanation": table.EXPLAIN.get(pid, ""),
        "obligations": cx.obligations, "discharged": cx.discharged,
        "undecided": cx.undecided[:60], "rule": table.EXPLAIN.get(pid, ""),
        "samples": cx.samples[:40] or ["none"], "counts": cx.stats, "source_hash": cx._w.key if cx._w else None,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": table.ASSUME.get(pid, table.ASSUME["*"]), "wall_s": round(time.time() - t0, 3),
          "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for f in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, f.key)]))
    print("%s: %d obligations, %d discharged, %d undecided, %d findings (%d known), %.1fs" % (
        pid, cx.obligations, cx.discharged, len(cx.undecided), len(cx.findings), len(known_hit), time.time() - t0))
    for u in cx.undecided[:12]:
        print("  undecided: %s" % (u if len(u) < 400 else u[:400] + "..."))
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as fh:
            for f in new:
                fh.write("%s\n  at %s\n  %s\n\n" % (f.key, f.where, f.text))
        for f in new[:20]:
            print("  [%s] %s: %s" % (f.key, f.where, f.text))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, VERIF)))
        return 1
    return 0
