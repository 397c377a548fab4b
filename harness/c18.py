"""Sessions whose calls run in several threads."""
from __future__ import annotations

import concurrent.futures
import random

import gen
import pipeline
import profiles
import tlc

DECL = dict(kind="serde", case="", tag=["external"], tc="disabled", deny=False, skipdef=False,
            skipnone=False, reuse=False, dereuse=True, csets=False, transparent=False, cvars=[], scv=False, bases=[],
            tvars=[], csers=[], cdesers=[], lsers=[], ldesers=[], post=[])
FIELD = dict(rename="", alias=[], skip=False, sser=False, sde=False, sif=[], sfalse=False,
             snone="unset", sdef="unset", kw=False, init=True, dk="none", dv=["none"], flat=False,
             fser="", fde=[])

GRAPHS = {     # as in Generation.tla
    "single": (dict(U=["A"]), {}),
    "chain": (dict(A=["B"], B=["C"], U=["A", "C"]), {}),
    "cycle": (dict(A=["B"], B=["A"], U=["A", "B"]), {}),
    "ring": (dict(A=["B"], B=["C"], C=["A"], U=["B", "C"]), {}),
    "diamond": (dict(A=["B", "C"], B=["C"], U=["B", "A"]), {}),
    "dynamic": (dict(A=["B"], U=["A", "B"]), dict(A=["C"], B=["C"])),
}


def field(n, t, **kw):
    return dict(FIELD, n=n, t=t, **kw)


class Model:
    """The session of a schedule."""

    def __init__(self, sched, sid, rng):
        self.g, c1, c2, hist = sched
        self.r = rng
        kids, dyn = GRAPHS[self.g]
        self.kids, self.dyn = kids, dyn
        self.top = None
        self.ids = {"A": "c0", "B": "c1", "C": "c2"}
        self.kinds = {}
        classes = {}
        names = rng.choice([["A", "B", "C"], ["Alpha", "Beta", "Gamma"], ["Node", "Leaf", "Data"]])
        for n, c in self.ids.items():
            fs = [field("v", rng.choice([["int"], ["str"], ["strlike", "UUID"], ["dt", "date"],
                                         ["list", ["int"], "list"]]))]
            for i, k in enumerate(kids.get(n, [])):
                t = ["cls", self.ids[k]]
                t = rng.choice([["opt", t], ["list", t, "list"], ["dict", ["str"], t, "dict"],
                                ["opt", ["list", t, "list"]]])
                fs.append(field(f"k{i}", t))
                self.kinds[n, i] = t
            for i, k in enumerate(dyn.get(n, [])):
                fs.append(field(f"d{i}", ["any"]))
            classes[self.ids[n]] = dict(DECL, name=names[int(self.ids[n][1:])], fields=fs,
                                        py={"style": "plain", "future": True, "dc": True})
        if self.g == "chain" and rng.random() < .2:
            classes["c2"]["py"]["style"] = "serde"     # decorated already
            classes["c2"].update(tc="strict", reuse=True)
        self.classes = classes
        events = [dict(op="decl", c=c) for c in ("c2", "c1", "c0")]
        th = []
        for d, n in (c1, c2):
            th.append([])
            for _ in range(rng.choice([1, 1, 2])):
                th[-1].append(len(events))
                events.append(self.call(d, n))
        more = []
        for d, n in (c1, c2):
            more.append(self.call(d, n))
        plan = [[t - 1, lab(x)] for t, x in hist]
        self.session = {"id": sid, "classes": classes, "enums": {}, "tvars": [], "env": {},
                        "events": events + more, "fork": True,
                        "par": [{"threads": th, "plan": plan}]}

    def leaf(self, t):
        r = self.r
        return {"int": lambda: ["int", str(r.randrange(9))], "str": lambda: ["str", r.choice("xyz")],
                "strlike": lambda: ["UUID", "12345678-1234-5678-1234-56781234567" + str(r.randrange(9))],
                "dt": lambda: ["date", r.choice(["datetime.date(2020, 1, 2)", "datetime.date(1999, 12, 31)"])],
                "list": lambda: ["list", [["int", str(r.randrange(9))] for _ in range(r.randrange(3))]],
                }[t[0]]()

    def kid(self, t, make, depth):
        r = self.r
        if t[0] == "opt":
            if depth <= 0 or r.random() < .1:
                return ["none"]
            return self.kid(t[1], make, depth)
        if t[0] == "cls":
            return make()
        k = 0 if depth <= 0 else r.choice([1, 1, 2])
        if t[0] == "list":
            return ["list", [make() for _ in range(k)]]
        return ["dict", [[["str", f"x{i}"], make()] for i in range(k)]]

    def obj(self, n, depth=3):
        fs = self.classes[self.ids[n]]["fields"]
        out = []
        ks, ds = self.kids.get(n, []), self.dyn.get(n, [])
        for f in fs:
            if f["n"] == "v":
                v = self.leaf(f["t"])
            elif f["n"][0] == "k":
                k = ks[int(f["n"][1:])]
                v = self.kid(f["t"], lambda: self.obj(k, depth - 1), depth)
            else:
                v = self.obj(ds[int(f["n"][1:])], depth - 1)
            out.append([f["n"], v])
        return ["obj", self.ids[n], out]

    def data(self, v):
        if v[0] == "obj":
            return ["dict", [[["str", n], self.data(x)] for n, x in v[2]]]
        if v[0] == "list":
            return ["list", [self.data(x) for x in v[1]]]
        if v[0] == "dict":
            return ["dict", [[k, self.data(x)] for k, x in v[1]]]
        if v[0] == "UUID":
            return ["str", v[1]]
        if v[0] == "date":
            return ["str", str(eval(v[1], {"datetime": __import__("datetime")}))]
        return v

    def call(self, d, n):
        if n == "L":       # a value that is serialized with a wrapper class
            if self.top is None:
                self.top = self.leaf(self.r.choice([["strlike"], ["dt"]]))
            return dict(op="ser", fn="dict", v=self.top, c=[], reuse="false", csets="unset", sn=False)
        c = ["union", [["cls", self.ids[k]] for k in self.kids["U"]] + [["int"]]] if n == "U" else None
        k = self.r.choice(self.kids["U"]) if n == "U" else n
        v = self.obj(k)
        if d == "se":
            return dict(op="ser", fn="dict", v=v, c=c or [], reuse="unset", csets="unset", sn=False)
        t = self.data(v)
        if n == "U":
            t = ["dict", [[["str", self.classes[self.ids[k]]["name"]], t]]]
        return dict(op="de", fn="dict", c=c or ["cls", self.ids[k]], reuse="false", d=t)


def lab(x):
    m = {"A": "c0", "B": "c1", "C": "c2"}
    return [x[0]] + [m.get(y, y) for y in x[1:]]


class ColdGen(gen.Gen):
    """Random classes, many of them without decorator, and calls from several threads."""

    def session(self, sid, orj):
        r = self.r
        self.orj = orj
        for i in range(r.randint(2, 4)):
            self.building = f"c{len(self.classes)}"
            cid = self.new_class(list(self.classes), self.ch(.65))
            d = self.classes[cid]
            if d["py"]["style"] == "plain":
                d["py"]["future"] = self.ch(.4)
            self.building = None
            self.e(op="decl", c=cid)
        usable = [c for c in self.classes if not self.classes[c]["tvars"]
                  and not (self.classes[c]["transparent"] and len(self.classes[c]["fields"]) > 1)]
        if not usable:
            return self.finish(sid)
        nth = r.choice([2, 2, 2, 3])
        work = []
        for t in range(nth):
            for _ in range(r.choice([1, 1, 2])):
                if self.ch(.3):
                    c = self.top_type()
                elif work and self.ch(.5):
                    c = r.choice(work)[1]
                else:
                    c = ["cls", r.choice(usable)]
                work.append((t, c))
        one, two = [[] for _ in range(nth)], [[] for _ in range(nth)]
        back = []
        for t, c in work:
            v = self.val(["union", c[1]] if c[0] == "tagged" else c)
            i = self.ser_ev(v, c if c[0] in ("union", "tagged") else [])
            self.events[i - 1].update(sn=False)
            one[t].append(i - 1)
            back.append((t, i, c))
        for t, i, c in back:
            two[t].append(self.de_ev(i, c) - 1)
        for t, i, c in back[:2]:
            self.e(**{k: x for k, x in self.events[i - 1].items()})
        s = self.finish(sid)
        s["fork"] = True
        s["par"] = [{"threads": g, "plan": self.plan(nth), "only": self.only()} for g in (one, two)]
        return s

    def only(self):
        return self.pick([None, ["se.py", "de.py", "core.py"], ["se.py", "de.py", "core.py"]])

    def plan(self, nth):
        r = self.r
        out, t = [], r.randrange(nth)
        for _ in range(r.choice([1, 1, 2, 3])):
            out.append([t, int(2 ** r.uniform(1, 12.5))])
            t = (t + r.randrange(1, nth)) % nth
        return out


def random_session(seed, idx, orj=False):
    g = ColdGen(f"C18/{seed}", profiles.PROFILES["C18"], idx)
    return g.session(f"C18_{seed}_{idx}", orj)


def model_session(sched, i, seed):
    rng = random.Random(f"{seed}/{i}")
    return Model(sched, f"sched_{seed}_{i}", rng).session


def warm_session():
    s = Model(("diamond", ["se", "A"], ["de", "A"], []), "warm", random.Random(0)).session
    for k, c in s["classes"].items():
        c["name"] = "Warm" + k
    del s["par"], s["fork"]
    return s


def line_session(i, seed):
    """A schedule of Generation.tla's calls switched at arbitrary lines."""
    rng = random.Random(f"line/{seed}/{i}")
    g = rng.choice(sorted(GRAPHS))
    calls = [[rng.choice(["se", "de"]), rng.choice("ABU")] for _ in range(2)]
    if rng.random() < .15:
        calls[0] = ["se", "L"]
    if rng.random() < .4:
        calls[1] = list(calls[0])
    s = Model((g, calls[0], calls[1], []), f"line_{seed}_{i}", rng).session
    t = rng.randrange(2)
    plan = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        plan.append([t, int(2 ** rng.uniform(0, 11.5))])
        t = 1 - t
    s["par"][0]["plan"] = plan
    s["par"][0]["only"] = rng.choice([None, ["se.py", "de.py", "core.py"]])
    return s


# ------------------------------------------------------------------ parts of the check
def _sched(r):
    return [pipeline.parse_tla(" ".join(s.split()))[1:] for s in tlc.tuples(r.out, "SCHED")]


class Plans:
    """What TLC says about Generation.tla, computed while the library is being driven."""

    def __init__(self, thorough):
        self.thorough = thorough

    def get(self, name):
        r = tlc.run("Generation", name + ".cfg", {}, workers=2, timeout=600)
        return r, _sched(r)

    def run(self, names):
        with concurrent.futures.ThreadPoolExecutor(len(names)) as ex:
            return dict(zip(names, ex.map(self.get, names)))


def model(check):
    """The model itself, then its schedules in the real code."""
    thorough = check.tier == "thorough"
    names = ["GenerationFull", "GenerationNoLocked", "GenerationNoGated"] + ["Generation"] * thorough
    res = Plans(thorough).run(names)
    for n, (r, sc) in res.items():
        if r.error:
            check.errors.append(f"{n}: {r.error}")
            return
        check.cov["states"] += r.distinct
        check.cov["transitions"] += r.generated
        check.notes["tlc_" + n] = {"states": r.distinct, "schedules": len(sc)}
    if not res["GenerationNoGated"][1] or not res["GenerationNoLocked"][1]:
        check.errors.append("the model does not need its lock")
        return
    rng = random.Random(f"model/{check.seed}")
    gate, lock = res["GenerationNoGated"][1], res["GenerationNoLocked"][1]
    picks = list(gate) + rng.sample(lock, min(len(lock), 10 ** 6 if thorough else 100))
    if thorough:
        picks += gate * 9 + lock * 2 + rng.sample(res["Generation"][1], 4000)
    rng.shuffle(picks)
    drive(check, [model_session(x, i, check.seed) for i, x in enumerate(picks)], "model")


def lines(check):
    n = 6000 if check.tier == "thorough" else 150
    drive(check, [line_session(i, check.seed) for i in range(n)], "lines")


def random_classes(check):
    n = 6000 if check.tier == "thorough" else 150
    drive(check, [random_session(check.seed, i) for i in range(n)], "random")


def drive(check, sessions, part):
    for k in range(0, len(sessions), 1500):
        ss = sessions[k:k + 1500]
        camp = pipeline.run_jobs([("@" + part, check.seed, i, False) for i in range(len(ss))], ss,
                                 threads=True)
        for s in camp.sessions:
            for g in s["par"]:
                check.notes["switches"] = check.notes.get("switches", 0) + g.get("switches", 0)
                check.notes["lines"] = check.notes.get("lines", 0) + sum(g.get("points", []))
        check.judge(camp, part)
