#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only recorder:session]

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed."""
import argparse
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build          # noqa: E402
import registry       # noqa: E402
import runner         # noqa: E402
import tlc            # noqa: E402


def known():
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                out.append(line[len("known: "):])
    return out


def evidence(prop, tier, seed, out, wall):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {"states": out.states, "transitions": out.transitions, "traces_validated_against_impl": out.traces,
           "samples": out.samples[:8], "events_replayed_or_recorded": out.events}
    if out.notes:
        cov["notes"] = out.notes
    cov.update(out.extra)
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
           "assumptions": registry.ASSUMPTIONS.get(prop, []), "wall_s": round(wall, 2), "violations": len(out.violations)}
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    out = runner.Outcome()
    rc = 0
    try:
        runner.check_property(out, a.prop, registry.CHECKS[a.prop], a.tier, seed, only=a.only, scale=a.scale)
    except build.BuildError as e:
        print("the tree does not build: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    evidence(a.prop, a.tier, seed, out, time.time() - t0)
    for k in known():
        if k.startswith("property=%s " % a.prop):
            print("KNOWN-FINDING: " + k)
    for v in out.violations:
        print("  %s" % v["what"])
        print("VIOLATION property=%s replay=%s" % (a.prop, v["replay"]))
    if out.violations:
        return 1
    if rc == 0:
        print("%s: held on %d recorded or replayed sessions (%d events, %d specification states) in %.1fs" %
              (a.prop, out.traces, out.events, out.states, time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
