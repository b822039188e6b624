"""Verdicts: violations are identified by (rule, public construct), compared with the committed
list of known findings, and written with the coverage to evidence/<id>.json."""

import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


def load_known():
    """lines 'known: property=<id> key=<key> <description>'; 'fixed:' lines suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line.split(None, 3)
            prop = parts[1].split("=", 1)[1]
            key = parts[2].split("=", 1)[1]
            out[(prop, key)] = parts[3] if len(parts) > 3 else ""
    return out


class Report:
    def __init__(self, prop, tier, title=""):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.viol = {}  # key -> (message, [where])
        self.rules = []
        self.counts = {}
        self.covered = {}
        self.notes = []
        self.assumptions = []
        self.broken = []

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def cover(self, name, items):
        self.covered.setdefault(name, set()).update(items)

    def known(self, key):
        """the key of a finding that is listed"""
        return (self.prop, key.replace(" ", "")) in load_known()

    def violation(self, key, msg, where=""):
        key = key.replace(" ", "")
        if key in self.viol:
            if where and where not in self.viol[key][1]:
                self.viol[key][1].append(where)
        else:
            self.viol[key] = (msg, [where] if where else [])

    def need(self, cond, what):
        """the analysed tree must have what the rule is anchored on"""
        if not cond:
            self.broken.append(what)

    def finish(self):
        known = load_known()
        new, old = [], []
        for k, (msg, where) in sorted(self.viol.items()):
            (old if (self.prop, k) in known else new).append((k, msg, where))
        wall = time.time() - self.t0
        for name, items in sorted(self.covered.items()):
            print("%s: %d %s analysed" % (self.prop, len(items), name))
        for name, n in sorted(self.counts.items()):
            print("%s: %s = %d" % (self.prop, name, n))
        for k, msg, where in old:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, msg, k))
        out = os.environ.get("POTSA_OUT", ROOT)
        rdir = os.path.join(out, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, (k, msg, where) in enumerate(new):
            path = os.path.join("evidence", "replay", "%s-%d.txt" % (self.prop, n))
            with open(os.path.join(out, path), "w") as f:
                f.write("property: %s\nkey: %s\n%s\n" % (self.prop, k, msg))
                for w in where:
                    f.write("at %s\n" % w)
                f.write("rules:\n" + "\n".join("  " + r for r in self.rules) + "\n")
                f.write("replay: python3 /verif/check.py %s --tier %s\n" % (self.prop, self.tier))
            print("%s: %s (%s) at %s" % (self.prop, msg, k, "; ".join(where[:4])))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        obligations = sum(len(v) for v in self.covered.values())
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the current source tree of /repo; rules: " + " | ".join(self.rules),
                "counts": dict(self.counts),
                "analysed": {k: sorted(v) for k, v in self.covered.items()},
                "obligations": obligations,
                "known_findings": [k for k, _, _ in old],
            },
            "wall_s": round(wall, 2),
            "violations": len(new),
            "assumptions": self.assumptions,
        }
        os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
        with open(os.path.join(out, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        if self.broken and not new:
            for b in self.broken:
                print("%s: CANNOT DECIDE: %s" % (self.prop, b))
            return 2
        print("%s: %s (%d known), %.1f s" % (self.prop, "FAILED" if new else "holds", len(old), wall))
        return 1 if new else 0
