"""Campaigns: sessions are generated and executed by workers, judged by TLC."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import tlc

PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = 8


class Campaign:
    def __init__(self):
        self.bad = []
        self.sessions = []
        self.crashes = []
        self.errors = []
        self.nevents = 0
        self.noconv = []
        self.states = self.generated = 0
        self.t_tlc = self.t_exec = 0

    def summary(self):
        clauses = {}
        for b in self.bad:
            clauses[b["clause"]] = clauses.get(b["clause"], 0) + 1
        return (f"sessions={len(self.sessions)} events={self.nevents} states={self.states} "
                f"crash={len(self.crashes)} bad={len(self.bad)} {clauses} exec={self.t_exec:.1f}s "
                f"tlc={self.t_tlc:.1f}s noconv={len(self.noconv)}"
                + ("\nERROR " + self.errors[0] if self.errors else "")
                + ("\nCRASH " + self.crashes[0]["crash"][-1500:] if self.crashes else ""))


def worker_env(orj):
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONPATH"] = REPO + (":/opt/orjson" if orj else "")
    e["VERIF_REPO"] = REPO
    e.pop("PYTHONHOME", None)
    return e


def execute(jobs, sessions=(), timeout=600, nproc=NPROC, threads=False):
    """jobs: (profile, seed, index, orjson).  Returns completed sessions in order."""
    tmp = tempfile.mkdtemp(prefix="vexec")
    try:
        chunks = {}
        norj = max(1, nproc // 4) if any(j[3] for j in jobs) else 0
        a = b = 0
        for j in jobs:
            if j[3]:
                k = ("o", a % norj)
                a += 1
            else:
                k = ("n", b % max(1, nproc - norj))
                b += 1
            chunks.setdefault(k, []).append(j)
        procs = []
        for n, (k, js) in enumerate(sorted(chunks.items())):
            inp, out = f"{tmp}/in{n}.json", f"{tmp}/out{n}.json"
            json.dump({"jobs": js, "sessions": list(sessions), "threads": threads}, open(inp, "w"))
            p = subprocess.Popen([PY, os.path.join(HERE, "work.py"), inp, out],
                                 env=worker_env(k[0] == "o"), cwd=tmp,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            procs.append((p, out, js))
        res, errs = {}, []
        t0 = time.time()
        for p, out, js in procs:
            try:
                o, _ = p.communicate(timeout=max(1, timeout - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                o = "worker timed out"
            if not os.path.exists(out):
                errs.append(f"worker died rc={p.returncode}: {o[-2000:]}")
                continue
            for j, s in zip(js, json.load(open(out))):
                res[tuple(j)] = s
        return [res[tuple(j)] for j in jobs if tuple(j) in res], errs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def validate(camp, workers=8, timeout=600):
    tmp = tempfile.mkdtemp(prefix="vtrace")
    try:
        path = f"{tmp}/trace.json"
        json.dump([slim(s) for s in camp.sessions], open(path, "w"))
        t = time.time()
        r = tlc.run("Trace", "Trace.cfg", {"TRACE": path}, workers=workers, timeout=timeout)
        camp.t_tlc = time.time() - t
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    camp.states, camp.generated = r.distinct, r.generated
    camp.out = r.out
    if r.error:
        camp.errors.append(r.error)
    done = set()
    for ln in r.out.splitlines():
        if ln.startswith('<<"DONE"'):
            done.add(int(ln.split(",")[1]))
    camp.noconv = [ln for ln in r.out.splitlines() if "NOCONV" in ln]
    for s in tlc.tuples(r.out, "BAD"):
        m = re.match(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"([^"]*)",?\s*(.*)>>\s*$', s, re.S)
        i, k = int(m.group(1)), int(m.group(2))
        sess = camp.sessions[i - 1]
        camp.bad.append({"session": sess, "event": k, "clause": m.group(3),
                         "expected": m.group(4), "ev": sess["events"][k - 1]})
    missing = [i for i in range(1, len(camp.sessions) + 1) if i not in done]
    if missing and not camp.errors:
        camp.errors.append(f"sessions not finished: {missing[:5]}")
    camp.nevents = sum(len(s["events"]) for s in camp.sessions)
    return camp


def slim(s):
    """What the specification reads."""
    classes = {}
    for c, d in s["classes"].items():
        classes[c] = {k: v for k, v in d.items() if k != "py"}
    return {"id": s["id"], "classes": classes, "enums": s["enums"], "env": s["env"],
            "events": [{k: v for k, v in e.items() if k not in ("mut", "from", "pool", "opts", "msg")}
                       for e in s["events"]]}


def run_jobs(jobs, sessions=(), threads=False):
    c = Campaign()
    t = time.time()
    res, errs = execute(jobs, sessions, threads=threads)
    c.t_exec = time.time() - t
    c.errors += errs
    for s in res:
        (c.crashes if "crash" in s else c.sessions).append(s)
    if c.sessions:
        validate(c)
    return c


def campaign(profile, seed, n):
    jobs = [(profile, seed, i, i % 5 == 4) for i in range(n)]
    return run_jobs(jobs)


def parse_tla(text):
    """Nested tuples and strings printed by TLC, as lists."""
    try:
        return json.loads(text.replace("<<", "[").replace(">>", "]")
                          .replace("TRUE", "true").replace("FALSE", "false"))
    except ValueError:
        return text


def first_diff(e, o, path="$"):
    """Where expected and observed part, roughly."""
    if e == o or e == ["ANY"]:
        return None
    if not (isinstance(e, list) and isinstance(o, list)) or len(e) != len(o):
        return f"{path}: expected {json.dumps(e)[:300]} got {json.dumps(o)[:300]}"
    if isinstance(e[0], str) and len(e) > 1 and e[0] in ("dict", "obj") and isinstance(e[-1], list):
        a, b = ({json.dumps(k): v for k, v in x[-1]} for x in (e, o))
        if list(a) != list(b) and set(a) == set(b):
            return f"{path}: order {list(a)} got {list(b)}"
        for k in a:
            if k not in b:
                return f"{path}: missing {k} = {json.dumps(a[k])[:200]}"
            d = first_diff(a[k], b[k], path + "/" + k)
            if d:
                return d
        for k in b:
            if k not in a:
                return f"{path}: unexpected {k} = {json.dumps(b[k])[:200]}"
        return None
    for i, (x, y) in enumerate(zip(e, o)):
        d = first_diff(x, y, f"{path}[{i}]")
        if d:
            return d
    return None


def replay_session(s):
    """Run a recorded session again."""
    fresh = json.loads(json.dumps(s))
    for e in fresh["events"]:
        for k in ("out", "changed", "shin", "shdef", "tree", "text", "code", "msg"):
            e.pop(k, None)
        if e["op"] == "nop":
            e["op"] = e.get("was_op", "nop")
        if "from" in e:
            e.pop("d", None)
    for g in fresh.get("par", []):
        for k in ("switches", "where", "points"):
            g.pop(k, None)
    name, seed, i, orj = s["src"]
    return run_jobs([("@replay", 0, 0, orj)], [fresh], threads="par" in fresh)


def describe(b, long=True):
    s, ev = b["session"], b["ev"]
    out = [f"--- {s['src']} event {b['event']} clause {b['clause']}"]
    if long:
        sys.path.insert(0, HERE)
        used = set()

        todo = [c for c in s["classes"] if f'"{c}"' in json.dumps(ev)]
        while todo:
            c = todo.pop()
            if c in used:
                continue
            used.add(c)
            text = json.dumps(s["classes"][c])
            todo += [o for o in s["classes"] if f'"{o}"' in text]
        base = {"kind": "serde", "case": "", "tag": ["external"], "tc": "strict", "deny": False,
                "skipdef": False, "skipnone": False, "reuse": True, "dereuse": True, "csets": False,
                "transparent": False, "bases": [], "tvars": [], "csers": [], "cdesers": [],
                "lsers": [], "ldesers": [], "post": []}
        fb = dict(rename="", alias=[], skip=False, sser=False, sde=False, sif=[], sfalse=False,
                  snone="unset", sdef="unset", kw=False, init=True, dk="none", dv=["none"],
                  flat=False, fser="", fde=[])
        for c in s["classes"]:
            if c in used:
                d = s["classes"][c]
                out.append(f"  {c} " + json.dumps({k: v for k, v in d.items() if k not in ("fields", "py")
                                                  and base.get(k) != v}) + " py=" + json.dumps(
                    {k: v for k, v in d.get("py", {}).items() if v}))
                for f in d["fields"]:
                    out.append(f"     .{f['n']}: {json.dumps(f['t'])} "
                               + json.dumps({k: v for k, v in f.items() if k not in ("n", "t") and fb[k] != v}))
        for e in s["enums"]:
            if any(e in json.dumps(x) for x in (ev, [s["classes"][c] for c in used])):
                out.append(f"  enum {e}: {json.dumps(s['enums'][e])}")
    out.append("  ev  " + json.dumps({k: v for k, v in ev.items() if k not in ("out", "tree", "pool", "msg")}))
    out.append("  got " + json.dumps(ev.get("tree", ev.get("out"))) + " " + ev.get("msg", ""))
    out.append("  exp " + " ".join(b["expected"].split()).replace("<<", "[").replace(">>", "]"))
    try:
        d = first_diff(parse_tla(b["expected"]), ev.get("tree", ev.get("out")))
    except Exception:
        d = ""
    out.append("  DIFF " + str(d))
    return "\n".join(out)
