"""Shared by every check: results, known findings, evidence and exit codes."""
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "engine"))

KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


class Broken(Exception):
    """The analysis itself cannot be trusted on this tree (error exit)."""


class Result(object):
    def __init__(self, rule):
        self.rule = rule
        self.instances = {}   # key -> location
        self.findings = {}    # key -> (message, location)
        self.info = {}
        self.assumptions = []
        self.explanation = ""

    def inst(self, key, loc=""):
        self.instances.setdefault(key, loc)

    def find(self, key, msg, loc=""):
        self.findings.setdefault(key, (msg, loc))

    def floor(self, what, n, least):
        self.info.setdefault("floors", {})[what] = {"seen": n, "least": least}
        if n < least:
            raise Broken("%s: only %d instances were found, at least %d are expected" % (
                what, n, least))


def known(prop):
    """Keys of the findings recorded for a property."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3).strip()
    return out


def main(prop, tier, spec):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    report = os.path.join(ev, prop + ".report.txt")
    try:
        res = spec["run"](tier)
    except Broken as e:
        print("BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("BROKEN property=%s the analysis failed" % prop)
        return 2
    kn = known(prop)
    new = {k: v for k, v in res.findings.items() if k not in kn}
    old = {k: v for k, v in res.findings.items() if k in kn}
    for k, (msg, loc) in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s: %s (%s)" % (prop, k, kn[k] or msg, loc))
    with open(report, "w") as f:
        f.write("property %s\nrule: %s\n\n" % (prop, res.rule))
        for k, (msg, loc) in sorted(new.items()):
            f.write("VIOLATION %s\n  at %s\n  %s\n\n" % (k, loc, msg))
        for k, (msg, loc) in sorted(old.items()):
            f.write("known finding %s\n  at %s\n  %s\n\n" % (k, loc, msg))
    keys = sorted(res.instances)
    step = max(1, len(keys) // 12)
    cov = {"explanation": res.explanation or spec["note"],
           "rule": res.rule,
           "instances": len(res.instances),
           "instances_violating": len(new),
           "instances_known_finding": len(old),
           "samples": ["%s @ %s" % (k, res.instances[k]) for k in keys[::step]][:14]}
    if spec["level"] == "proof":
        cov.update({"obligations": len(res.instances), "discharged": len(res.instances) - len(
            [k for k in res.findings if k in res.instances]),
            "checker_cmd": "python3 checks/run.py %s" % prop,
            "trusted_base": res.assumptions or ["clang 18"]})
    cov.update(res.info)
    out = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"],
           "coverage": cov, "assumptions": res.assumptions or spec.get("assumptions", []),
           "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    tmp = os.path.join(ev, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(out, f, indent=1, sort_keys=True, default=str)
    os.rename(tmp, os.path.join(ev, prop + ".json"))
    print("property %s: %d instances of the rule examined, %d violating, %d known (%.1f s)" % (
        prop, len(res.instances), len(new), len(old), time.time() - t0))
    if new:
        for k, (msg, loc) in sorted(new.items()):
            print("%s: %s [%s]" % (loc, msg, k))
        print("VIOLATION property=%s replay=%s" % (prop, report))
        return 1
    return 0
