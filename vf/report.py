"""Verdicts, known findings, replay files and evidence of one check run."""
import hashlib
import json
import os
import re
import sys
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
EVIDENCE = os.path.join(VERIF, "evidence")


def load_known(prop):
    """Findings listed for a property: {key: text}."""
    out = {}
    with open(KNOWN) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


class Out:
    """What one worker observed; sent back to the main process."""

    def __init__(self):
        self.evals = 0
        self.keys = set()
        self.events = Counter()
        self.viol = []
        self.samples = []
        self.inconclusive = []

    def case(self, key, nontrivial=True):
        """One evaluated case; key identifies it up to irrelevant detail."""
        self.evals += 1
        if nontrivial:
            self.keys.add(hashlib.sha1(
                key if isinstance(key, bytes) else
                str(key).encode("utf-8", "surrogateescape")).digest()[:8])

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, what, replay=None):
        self.viol.append((re.sub(r"\s+", "_", key)[:200], str(what)[:1500],
                          replay))


class Report:
    def __init__(self, prop, tier, seed, level, rule, assumptions=()):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.level, self.rule = level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.known = load_known(prop)
        self.all = Out()
        self.reported = set()
        self.hits = 0
        self.seen_known = set()
        self.extra = {}
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        for f in os.listdir(os.path.join(EVIDENCE, "replay")):
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(EVIDENCE, "replay", f))

    def note(self, text):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, text),
              flush=True)

    def merge(self, out):
        a = self.all
        a.evals += out.evals
        a.keys |= out.keys
        a.events.update(out.events)
        for s in out.samples:
            if len(a.samples) < 6:
                a.samples.append(s)
        a.inconclusive += out.inconclusive
        for key, what, replay in out.viol:
            self.violation(key, what, replay)

    def violation(self, key, what, replay=None):
        if key in self.known:
            if key not in self.seen_known:
                self.seen_known.add(key)
                print("KNOWN-FINDING: property=%s %s" % (
                    self.prop, self.known[key]), flush=True)
            return
        self.hits += 1
        if key in self.reported:
            return
        self.reported.add(key)
        path = os.path.join(EVIDENCE, "replay", "%s-%d.json" % (
            self.prop, len(self.reported)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "key": key, "what": what,
                       "seed": self.seed, "tier": self.tier,
                       "replay": replay}, f, indent=1, default=repr)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  key=%s\n  %s" % (key, what.replace("\n", "\n  ")),
              flush=True)

    def finish(self, min_evals=1, min_distinct=1):
        a = self.all
        wall = time.time() - self.t0
        cov = {"evaluations": a.evals, "distinct_nontrivial": len(a.keys),
               "rule": self.rule, "samples": a.samples,
               "events": dict(sorted(a.events.items())),
               "inconclusive": len(a.inconclusive),
               "known_findings_observed": sorted(self.seen_known)}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.reported)}
        path = os.path.join(EVIDENCE, self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(path + ".tmp", path)
        for i in a.inconclusive[:5]:
            self.note("inconclusive: %s" % str(i)[:300])
        self.note("%d evaluations, %d distinct, %d inconclusive, %d "
                  "violation(s), events %s" % (
                      a.evals, len(a.keys), len(a.inconclusive),
                      len(self.reported), dict(sorted(a.events.items()))))
        if self.reported:
            return 1
        if a.evals < min_evals or len(a.keys) < min_distinct:
            self.note("too little observed: no verdict")
            return 2
        if len(a.inconclusive) > max(3, a.evals // 20):
            self.note("too many inconclusive cases: no verdict")
            return 2
        return 0
