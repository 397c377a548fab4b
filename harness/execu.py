"""Run the events of sessions against the real library and log what happens."""
from __future__ import annotations

import collections
import copy
import dataclasses
import json
import os
import random
import signal
import sys
import traceback

sys.dont_write_bytecode = True

import build
import mutate
import vals

MUTABLE = (list, dict, set, collections.deque)


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def containers(v, out, seen):
    """Mutable objects reachable from v, by id."""
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, MUTABLE):
        out[id(v)] = v
    if isinstance(v, dict):
        for a, b in v.items():
            containers(a, out, seen)
            containers(b, out, seen)
    elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        for x in v:
            containers(x, out, seen)
    elif dataclasses.is_dataclass(v) and not isinstance(v, type):
        out[id(v)] = v
        for f in dataclasses.fields(v):
            if hasattr(v, f.name):
                containers(getattr(v, f.name), out, seen)


def formats():
    import json as j
    import pickle
    import tomllib

    import msgpack
    import serde.json
    import serde.msgpack
    import serde.pickle
    import serde.toml
    import serde.yaml
    import tomli_w
    import yaml

    def unpack(b, **_):
        return msgpack.unpackb(b, raw=False, use_list=False, strict_map_key=False)

    # to, from, independent decoder, independent encoder
    return {
        "json": (serde.json.to_json, serde.json.from_json, j.loads,
                 lambda t: j.dumps(t, ensure_ascii=False)),
        "yaml": (serde.yaml.to_yaml, serde.yaml.from_yaml, yaml.safe_load,
                 lambda t: yaml.safe_dump(t, sort_keys=False)),
        "toml": (serde.toml.to_toml, serde.toml.from_toml, tomllib.loads, tomli_w.dumps),
        "msgpack": (serde.msgpack.to_msgpack, serde.msgpack.from_msgpack, unpack, msgpack.packb),
        "pickle": (serde.pickle.to_pickle, serde.pickle.from_pickle, pickle.loads, pickle.dumps),
    }


class Runner:
    def __init__(self, spec):
        import serde

        self.serde = serde
        self.spec = spec
        self.s = build.Session(spec)
        self.kept = {}      # id -> mutable object of an earlier result
        self.keep = []
        self.fmt = None
        names = set()
        for c in spec["classes"].values():
            for f in c["fields"]:
                names |= {f["n"], f["rename"], *f["alias"]}
            if c["case"]:
                import casefy
                for o in spec["classes"].values():
                    names |= {getattr(casefy, c["case"])(f["n"]) for f in o["fields"]}
        names.discard("")
        self.names = sorted(names)

    # --------------------------------------------------------------
    def outcome(self, fn):
        try:
            r = fn()
        except self.serde.SerdeError as e:
            m = str(e)
            self.msg = m[:400]
            return ["ERR", [n for n in self.names if n in m]], None
        except Timeout:
            raise
        except Exception as e:
            n = type(e).__name__
            m = e.args[0] if e.args else ""
            if isinstance(m, str) and m.startswith("boom-"):
                return ["UERR", n, m], None
            return ["EXC", n, str(e)[:200]], None
        try:
            return self.s.codec.enc(r), r
        except Exception as e:  # pragma: no cover
            return ["EXC", "encode:" + type(e).__name__, str(e)[:100]], None

    # -------------------------------------------------------------- several threads
    def prep(self, ev, events):
        """The call of a ser or de event, and what to do with its result."""
        S = self.serde
        if ev["op"] == "nop":
            return None
        if ev["op"] == "ser":
            v = self.s.codec.dec(ev["v"])
            before = self.s.codec.enc(v)
            kw = self.kw(ev, (("reuse", "reuse_instances"), ("csets", "convert_sets"),
                              ("sn", "skip_none")))
            if ev["c"]:
                kw["c"] = self.s.pytype(ev["c"])
            f = S.to_dict if ev["fn"] == "dict" else S.to_tuple

            def finish(out, r):
                ev["out"] = out
                ev["changed"] = self.s.codec.enc(v) != before
            return lambda: f(v, **kw), finish
        d = self.data(ev, events)
        if d is None:
            self.nop(ev)
            return None
        ev["d"] = d
        x = self.s.codec.dec(d)
        before = self.s.codec.enc(x)
        c = self.s.pytype(ev["c"])
        f = S.from_dict if ev["fn"] == "dict" else S.from_tuple
        kw = self.kw(ev, (("reuse", "reuse_instances"),))

        def finish(out, r):
            ev["out"] = out
            self.observe(ev, x, before, r)
        return lambda: f(c, x, **kw), finish

    def run_par(self, group, events):
        import threads
        calls, fns = [], []
        for th in group["threads"]:
            cs = [(i, self.prep(events[i], events)) for i in th]
            cs = [c for c in cs if c[1]]
            calls.append(cs)
            fns.append([c[1][0] for c in cs])
        root = os.path.dirname(self.serde.__file__)
        sch = threads.Sched(fns, group["plan"], root, self.s.codec.cls, group.get("only"))
        res = sch.run()
        group["switches"] = sch.switches
        group["where"] = sch.where
        group["points"] = sch.n
        for cs, rs in zip(calls, res):
            for k, (i, (_, finish)) in enumerate(cs):
                self.msg = ""
                if k >= len(rs):
                    out, r = ["EXC", "Deadlock", "the threads can not go on"], None
                else:
                    kind, r = rs[k]

                    def again():
                        if kind == "exc":
                            raise r
                        return r
                    out, r = self.outcome(again)
                finish(out, r)
                if self.msg:
                    events[i]["msg"] = self.msg
        return all(len(cs) == len(rs) for cs, rs in zip(calls, res))

    def kw(self, ev, names):
        kw = {}
        for k, n in names:
            v = ev.get(k, "unset")
            if v in ("true", "false"):
                kw[n] = v == "true"
            elif v is True:
                kw[n] = True
        return kw

    def data(self, ev, events):
        """Resolve the input of a de/fde event; None when there is none."""
        if "d" in ev:
            return ev["d"]
        src = events[ev["from"]]
        out = src.get("tree", src.get("out"))
        if out is None or out[0] in ("ERR", "UERR", "EXC", "ANY") or vals.has_tag(out, ("opaque",)):
            return None
        if ev.get("edit"):
            out = mutate.edits(out, ev["edit"])
        if ev.get("mut"):
            rng = random.Random(ev["mut"])
            out = mutate.mutate(rng, out, ev.get("pool") or self.names or ["x"])
        return out

    def run(self, ev, events, i):
        self.msg = ""
        self.run1(ev, events, i)
        if self.msg:
            ev["msg"] = self.msg

    def run1(self, ev, events, i):
        op = ev["op"]
        S = self.serde
        if op == "decl":
            out, _ = self.outcome(lambda: self.s.declare(ev["c"]) and None)
            ev["out"] = out
            if out != ["none"]:      # nothing can be done with this session any more
                for e in events[i + 1:]:
                    self.nop(e)
        elif op == "addS":
            S.add_serializer(self.s.class_serializer([[ev["t"], ev["name"]]]))
        elif op == "addD":
            S.add_deserializer(self.s.class_deserializer([[ev["t"], ev["name"], ev["const"]]]))
        elif op == "ser":
            v = self.s.codec.dec(ev["v"])
            before = self.s.codec.enc(v)
            kw = self.kw(ev, (("reuse", "reuse_instances"), ("csets", "convert_sets"),
                              ("sn", "skip_none")))
            if ev["c"]:
                kw["c"] = self.s.pytype(ev["c"])
            f = S.to_dict if ev["fn"] == "dict" else S.to_tuple
            ev["out"], _ = self.outcome(lambda: f(v, **kw))
            ev["changed"] = self.s.codec.enc(v) != before
        elif op == "de":
            d = self.data(ev, events)
            if d is None:
                return self.nop(ev)
            ev["d"] = d
            x = self.s.codec.dec(d)
            before = self.s.codec.enc(x)
            c = self.s.pytype(ev["c"])
            f = S.from_dict if ev["fn"] == "dict" else S.from_tuple
            kw = self.kw(ev, (("reuse", "reuse_instances"),))
            ev["out"], r = self.outcome(lambda: f(c, x, **kw))
            self.observe(ev, x, before, r)
        elif op == "new":
            cls = self.s.codec.cls[ev["c"]]
            kw = {n: self.s.codec.dec(v) for n, v in ev["kw"]}
            ev["out"], r = self.outcome(lambda: cls(**kw))
            self.observe(ev, None, None, r)
        elif op == "fser":
            self.fser(ev)
        elif op == "fde":
            self.fde(ev, events)
        elif op == "nop":
            pass
        else:
            raise ValueError(op)

    def observe(self, ev, x, before, r):
        ev["changed"] = x is not None and self.s.codec.enc(x) != before
        if ev["out"][0] == "EXC" and r is None and x is None:
            ev["shin"] = ev["shdef"] = False
            return
        mine, theirs = {}, {}
        containers(r, mine, set())
        if x is not None:
            containers(x, theirs, set())
        ev["shin"] = bool(set(mine) & set(theirs))
        ev["shdef"] = bool(set(mine) & set(self.kept))
        self.keep.append((r, x))
        for k, o in mine.items():
            if k not in theirs:
                self.kept[k] = o

    def nop(self, ev):
        ev["was_op"] = ev["op"]
        ev["op"] = "nop"

    # --------------------------------------------------------------
    def fser(self, ev):
        self.fmt = self.fmt or formats()
        to, _, loads, _ = self.fmt[ev["fmt"]]
        v = self.s.codec.dec(ev["v"])
        before = self.s.codec.enc(v)
        kw = self.kw(ev, (("reuse", "reuse_instances"), ("csets", "convert_sets"),
                          ("sn", "skip_none"), ("named", "named")))
        if ev["c"]:
            kw["cls"] = self.s.pytype(ev["c"])
        kw.update(self.codec_opts(ev))
        code = 0
        if ev.get("ext"):
            kw["ext_dict"] = {type(v): 5}
        out, r = self.outcome(lambda: to(v, **kw))
        ev["changed"] = self.s.codec.enc(v) != before
        ev["code"] = -1
        if out[0] in ("ERR", "UERR", "EXC"):
            ev["tree"] = out
            return
        ev["raw"] = r
        try:
            t = loads(r)
            if ev.get("ext"):
                ev["code"] = t.code
                t = loads(t.data)
            ev["tree"] = self.s.codec.enc(t)
        except Exception as e:
            ev["tree"] = ["EXC", "undecodable:" + type(e).__name__, str(e)[:100]]
        ev["text"] = self.text_facts(ev, r)

    def codec_opts(self, ev):
        o = {}
        for k, v in ev.get("opts", []):
            o[k] = v
        return o

    def text_facts(self, ev, r):
        """What the codec options make visible in the text."""
        if not ev.get("opts"):
            return "none"
        base = self.fmt[ev["fmt"]]
        return "lines" if isinstance(r, str) and "\n" in r.strip() else "oneline"

    def fde(self, ev, events):
        self.fmt = self.fmt or formats()
        _, fr, loads, dumps = self.fmt[ev["fmt"]]
        raw = None
        if "from" in ev and not ev.get("mut") and not ev.get("edit"):
            raw = events[ev["from"]].get("raw")
            d = events[ev["from"]].get("tree")
            if raw is None or d[0] in ("ERR", "UERR", "EXC") or vals.has_tag(d, ("opaque",)):
                return self.nop(ev)
        else:
            d = self.data(ev, events)
            if d is None:
                return self.nop(ev)
            try:
                raw = dumps(self.s.codec.dec(d))
                d = self.s.codec.enc(loads(raw))
            except Exception:
                return self.nop(ev)
        ev["d"] = d
        c = self.s.pytype(ev["c"])
        kw = self.kw(ev, (("cn", "coerce_numbers"), ("named", "named")))
        kw.update(self.codec_opts(ev))
        if ev["fmt"] == "msgpack" and ev.get("strict") != "true":
            kw["strict_map_key"] = False
        if ev.get("ext"):
            kw["ext_dict"] = {5: c}
            if "from" not in ev or ev.get("mut") or ev.get("edit"):
                return self.nop(ev)
        ev["out"], r = self.outcome(lambda: fr(c, raw, **kw))
        ev["changed"] = False
        self.observe(ev, None, None, r)
        ev["changed"] = False


def run_session(spec):
    r = None
    events = spec["events"]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(30)
    try:
        r = Runner(spec)
        par = {min(i for t in g["threads"] for i in t): g for g in spec.get("par", [])}
        inpar = {i for g in spec.get("par", []) for t in g["threads"] for i in t}
        for i, ev in enumerate(events):
            if i in par and not r.run_par(par[i], events):
                for e in events[i + 1:]:      # nothing can be done in this process any more
                    if "out" not in e:
                        r.nop(e)
                break
            if i not in inpar:
                r.run(ev, events, i)
    except Timeout:
        for ev in events:
            if "out" not in ev and ev["op"] in ("de", "new", "ser", "fde", "decl"):
                ev.update(out=["EXC", "Timeout", ""], changed=False, shin=False, shdef=False)
                ev.setdefault("d", ["none"])
                break
        for ev in events:
            if "out" not in ev and ev["op"] in ("de", "new", "ser", "fde", "decl", "fser"):
                ev["op"] = "nop"
    finally:
        signal.alarm(0)
        if r:
            r.s.close()
    for ev in events:
        ev.pop("raw", None)
        ev.pop("pool", None)
    return spec


def run_forked(spec):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            out = json.dumps(run_session(spec))
        except BaseException:
            out = json.dumps({"crash": traceback.format_exc(), "id": spec["id"]})
        with os.fdopen(wr, "w") as f:
            f.write(out)
        os._exit(code)
    os.close(wr)
    with os.fdopen(rd) as f:
        out = f.read()
    os.waitpid(pid, 0)
    return json.loads(out)


def main(inp, outp):
    specs = json.load(open(inp))
    res = []
    for spec in specs:
        try:
            if any(e["op"] in ("addS", "addD") for e in spec["events"]) or spec.get("fork"):
                res.append(run_forked(spec))
            else:
                res.append(run_session(spec))
        except Exception:
            res.append({"crash": traceback.format_exc(), "id": spec["id"]})
    json.dump(res, open(outp, "w"))


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
