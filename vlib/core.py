"""Check runner: evidence, known findings, violations, replay files."""
import json, os, random, sys, time, traceback
from .build import VERIF, BUILD, BuildError
from . import build as _build

OUT = os.path.join(BUILD, "replay")


class Violation(Exception):
    def __init__(self, what, replay, key=None):
        super().__init__(what)
        self.what, self.replay, self.key = what, replay, key


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + sum(ord(c) * 31 ** i for i, c in enumerate(prop)))
        self.quick = self.tier != "thorough"
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.t0 = time.time()

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def note(self, key, value):
        self.cov[key] = value

    def violation(self, what, replay, key=None):
        self.violations.append(Violation(what, replay, key))

    def elapsed(self):
        return time.time() - self.t0


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    parts = line[7:].split(None, 2)
                    d = dict(x.split("=", 1) for x in parts[:2])
                    if d.get("property") == prop:
                        out.append((d.get("key"), parts[2] if len(parts) > 2 else ""))
    except OSError:
        pass
    return out


def main(prop, fn, level="model_checking"):
    ctx = Ctx(prop)
    try:
        fn(ctx)
    except BuildError as e:
        print("ERROR: %s" % e)
        return 2
    except Violation as v:
        ctx.violations.append(v)
    except Exception:
        traceback.print_exc()
        print("ERROR: check machinery failed")
        return 2
    known = known_findings(prop)
    keys = {k for k, _ in known}
    new = [v for v in ctx.violations if not (v.key and v.key in keys)]
    ev = {"property": prop, "tier": ctx.tier if ctx.tier in ("quick", "thorough") else "quick",
          "seed": ctx.seed, "level": level, "coverage": ctx.cov, "wall_s": round(time.time() - ctx.t0, 2)}
    ev["coverage"]["known_findings_seen"] = sorted({v.key for v in ctx.violations if v.key in keys})
    ev["coverage"]["violations"] = len(new)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if new:
        os.makedirs(OUT, exist_ok=True)
        for i, v in enumerate(new[:5]):
            path = os.path.join(OUT, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "what": v.what, "seed": ctx.seed, "replay": v.replay}, f, indent=1)
            print("  " + v.what[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s tier=%s states=%s transitions=%s traces=%s wall=%.1fs" % (
        prop, ctx.tier, ctx.cov.get("states"), ctx.cov.get("transitions"),
        ctx.cov.get("traces_validated_against_impl"), time.time() - ctx.t0))
    return 0
