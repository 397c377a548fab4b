"""Bounded families (spec/mc): explored by TLC, replayed into the real code.

scen.py env [FAMILY...]   rewrites spec/mc/env.json, the library conversions of the alphabet
"""
from __future__ import annotations

import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import pipeline
import tlc

ENV = os.path.join(tlc.SPEC, "mc", "env.json")


def explore(family, want=0, offset=0, timeout=800, module="MC", workers=8):
    """Run TLC on a family; gives its sessions and the result."""
    # the modules of mc come first: its SessionData replaces the one that reads a trace
    tmp = tempfile.mkdtemp(prefix="vmc")
    try:
        for n in os.listdir(tlc.SPEC):
            if n.endswith(".tla") and n != "SessionData.tla":
                os.symlink(os.path.join(tlc.SPEC, n), os.path.join(tmp, n))
        for n in os.listdir(os.path.join(tlc.SPEC, "mc")):
            if n.endswith((".tla", ".cfg")):
                os.symlink(os.path.join(tlc.SPEC, "mc", n), os.path.join(tmp, n))
        os.mkdir(f"{tmp}/mc")
        os.symlink(ENV, f"{tmp}/mc/env.json")
        out = f"{tmp}/sessions.json"
        r = tlc.run(module, module + ".cfg", {"FAMILY": family, "WANT": str(want), "OFFSET": str(offset),
                                       "OUT": out}, workers=workers, timeout=timeout, cwd=tmp)
        sessions = json.load(open(out)) if os.path.exists(out) else []
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for i, s in enumerate(sessions):
        s["id"] = f"mc_{family.replace('-', '_')}_{offset}_{i}"
        s["classes"] = s["classes"] or {}
        s["enums"] = s["enums"] or {}
        s["env"] = {}
        order = [e["c"] for e in s["events"] if e["op"] == "decl"]
        s["classes"] = {c: s["classes"][c] for c in order}
    r.noconv = [ln for ln in r.out.splitlines() if "NOCONV" in ln]
    return sessions, r


def jobs_of(family, sessions):
    return [("@" + family, 0, i, False) for i in range(len(sessions))]


def write_env(families):
    """The tables over everything that occurs in the families."""
    import env
    table = {"conv": {}, "num": {}, "iso": {}, "case": {}}

    def merge(a, b):
        for k, v in b.items():
            if isinstance(v, dict):
                merge(a.setdefault(k, {}), v)
            else:
                a[k] = v
    if os.path.exists(ENV) and "--fresh" not in sys.argv:
        merge(table, json.load(open(ENV)))
    else:
        json.dump(table, open(ENV, "w"))
    for f in families:
        sessions, r = explore(f, module="MCExport")
        if not sessions:
            print(r.error)
            continue
        res, errs = pipeline.execute(jobs_of(f, sessions), sessions)
        for s in res:
            if "crash" in s:
                print(s["crash"][-600:])
            else:
                merge(table, s["env"])
        # every constructor for every leaf that occurs
        print(f, len(sessions), len(res), errs[:1])
    import vals
    leaves = {(t, x) for c in table["conv"].values() for t, xs in c.items() for x in xs}
    for c in table["conv"]:
        for t, x in sorted(leaves):
            if x not in table["conv"][c].setdefault(t, {}):
                table["conv"][c][t][x] = vals.conv(c, t, x)
    for t, x in leaves:
        if t in vals.NUMTAGS:
            table["num"].setdefault(t, {})[x] = vals.canon_num(t, x)
    import casefy
    cases = ["camelcase", "pascalcase", "snakecase", "kebabcase", "constcase", "capitalcase", "lowercase", "uppercase"]
    names = {n for c in table["case"].values() for n in c}
    for c in set(cases) & set(dir(casefy)) | set(table["case"]):
        for n in names:
            table["case"].setdefault(c, {})[n] = getattr(casefy, c)(n)
    json.dump(table, open(ENV, "w"), sort_keys=True, separators=(",", ":"))
    print(os.path.getsize(ENV), "bytes")


def part(family, want, thorough=0):
    """A part of a check: the family (or a slice of it that depends on the seed)."""
    def run(check):
        n = thorough if check.tier == "thorough" else want
        t = time.time()
        sessions, r = explore(family, n, check.seed)
        check.notes[f"{family}_tlc_s"] = round(time.time() - t, 1)
        if r.error:
            check.errors.append(f"model {family}: {r.error}")
        if r.noconv:
            check.errors.append(f"model {family}: missing conversions {r.noconv[:3]}")
        check.cov["model_states"] += r.distinct
        check.cov["states"] += r.distinct
        check.cov["transitions"] += r.generated
        if sessions:
            check.judge(pipeline.run_jobs(jobs_of(family, sessions), sessions), family)
    run.__name__ = "mc_" + family.replace("-", "_")
    return run


if __name__ == "__main__":
    if sys.argv[1] == "env":
        write_env([a for a in sys.argv[2:] if not a.startswith("-")])
    else:
        fam = sys.argv[1]
        want = int(sys.argv[2]) if len(sys.argv) > 2 else 0
        off = int(sys.argv[3]) if len(sys.argv) > 3 else 0
        t = time.time()
        ss, r = explore(fam, want, off)
        print(f"{fam}: {len(ss)} sessions {sum(len(s['events']) for s in ss)} events, "
              f"{r.distinct} states, {time.time() - t:.1f}s, noconv {len(r.noconv)} {r.noconv[:3]}")
        if r.error:
            print(r.error[:6000])
        if ss and "-m" not in sys.argv:
            t = time.time()
            camp = pipeline.run_jobs(jobs_of(fam, ss), ss)
            print(camp.summary(), f"{time.time() - t:.1f}s")
            print(camp.noconv[:4])
            show = int(os.environ.get("SHOW", "4"))
            seen = {}
            for b in camp.bad:
                k = (b["clause"],)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= show:
                    print(pipeline.describe(b))
