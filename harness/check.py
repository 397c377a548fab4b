"""Decide one property: check.py ID, or check.py --replay FILE.

Parts of a check:
  campaign   seeded random sessions, executed against the real code and
             validated by TLC against spec/Trace.tla
  model      a bounded family explored by TLC exhaustively, its behaviours
             replayed into the real code (spec/mc)
  threads    schedules of concurrent first use (C18)
  findings   the listed known findings, each by its own probe
"""
from __future__ import annotations

import collections
import json
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import findings
import pipeline
from props import PROPS

EV = os.path.join(ROOT, "evidence")


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.violations = 0
        self.printed = 0
        self.errors = []
        self.cov = collections.Counter()
        self.ops = collections.Counter()
        self.kinds = collections.Counter()
        self.samples = []
        self.notes = {}

    # ---------------------------------------------------------------- verdicts
    def violation(self, data, text):
        self.violations += 1
        if self.violations > 5:
            return
        path = os.path.join(EV, f"replay_{self.pid}_{self.violations}.json")
        json.dump(data, open(path, "w"), indent=1)
        print(f"VIOLATION property={self.pid} replay={path}")
        print("\n".join(x[:1500] for x in text.split("\n")))
        sys.stdout.flush()

    def judge(self, camp, part):
        """Take over the verdicts of a validated campaign."""
        self.errors += camp.errors
        self.cov["states"] += camp.states
        self.cov["transitions"] += camp.generated
        self.cov["traces_validated_against_impl"] += len(camp.sessions)
        self.cov["events"] += camp.nevents
        for s in camp.sessions:
            for e in s["events"]:
                self.ops[e["op"]] += 1
            for c in s["classes"].values():
                for f in c["fields"]:
                    self.kinds[f["t"][0]] += 1
        if camp.noconv:
            self.errors.append("missing conversions: " + "; ".join(camp.noconv[:3]))
        for c in camp.crashes:
            self.violation({"kind": "crash", "part": part, "src": c["src"], "crash": c["crash"]},
                           "a session could not be run: " + c["crash"][-1200:])
        seen = set()
        for b in sorted(camp.bad, key=lambda b: (len(json.dumps(b["ev"])), b["event"])):
            key = (b["clause"], b["session"]["id"])
            if key in seen:
                continue
            seen.add(key)
            self.violation({"kind": "session", "part": part, "clause": b["clause"],
                            "event": b["event"], "expected": pipeline.parse_tla(b["expected"]),
                            "session": b["session"], "src": b["session"]["src"]},
                           pipeline.describe(b))
        if camp.sessions and len(self.samples) < 4:
            s = camp.sessions[len(camp.sessions) // 2]
            for e in s["events"]:
                if e["op"] in ("de", "fde", "ser", "new") and len(json.dumps(e)) < 1500:
                    self.samples.append({"session": s["id"], "part": part,
                                         "event": {k: v for k, v in e.items() if k != "pool"}})
                    break

    # ---------------------------------------------------------------- run
    def run(self):
        spec = PROPS[self.pid]
        os.makedirs(EV, exist_ok=True)
        for f in os.listdir(EV):
            if f.startswith(f"replay_{self.pid}_"):
                os.unlink(os.path.join(EV, f))
        for part in spec["parts"]:
            t = time.time()
            part(self)
            self.notes[part.__name__ + "_s"] = round(
                self.notes.get(part.__name__ + "_s", 0) + time.time() - t, 1)
        findings.run(self)
        rc = 1 if self.violations else 2 if self.errors else 0
        self.evidence(spec)
        for e in self.errors[:3]:
            print("ERROR " + str(e)[:2500])
        print(f"{self.pid}: {'violated' if rc == 1 else 'no answer' if rc else 'held'} "
              f"({dict(self.cov)}, {time.time() - self.t0:.1f}s)")
        return rc

    def evidence(self, spec):
        cov = dict(self.cov)
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
        cov["samples"] = self.samples[:4] or [{"note": "no sample"}]
        cov["operations"] = dict(self.ops)
        cov["field_types"] = dict(self.kinds)
        cov["parts"] = self.notes
        json.dump({
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov, "assumptions": spec["assumptions"],
            "wall_s": round(time.time() - self.t0, 1), "violations": self.violations,
        }, open(os.path.join(EV, f"{self.pid}.json"), "w"), indent=1)


def replay(path):
    r = json.load(open(path))
    if r["kind"] == "session":
        s = r["session"]
        print(f"clause {r['clause']} at event {r['event']} of {s['id']}")
        camp = pipeline.replay_session(s)
        print(camp.summary())
        for b in camp.bad:
            print(pipeline.describe(b))
        return 1 if camp.bad else 0
    if r["kind"] == "crash":
        camp = pipeline.run_jobs([r["src"]])
        print(camp.summary())
        return 1 if camp.crashes else 0
    print(json.dumps(r, indent=1))
    return 1


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(Check(sys.argv[1]).run())
