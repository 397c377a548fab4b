"""Tables of library conversions for the leaf values of a session."""
from __future__ import annotations

import casefy

import vals


def walk_types(t, out):
    if not isinstance(t, list) or not t:
        return
    out.append(t)
    for x in t[1:]:
        if isinstance(x, list):
            if x and isinstance(x[0], list):
                for y in x:
                    walk_types(y, out)
            else:
                walk_types(x, out)


def types_of(spec):
    ts = []
    for c in spec["classes"].values():
        for f in c["fields"]:
            walk_types(f["t"], ts)
        for v in c.get("cvars", []):
            walk_types(v[1], ts)
        for e in c["csers"] + c["cdesers"] + c["lsers"] + c["ldesers"]:
            walk_types(e[0], ts)
        for b in c.get("py", {}).get("bargs", []):
            for t in b:
                walk_types(t, ts)
    for ev in spec["events"]:
        for k in ("c", "t"):
            if isinstance(ev.get(k), list):
                walk_types(ev[k], ts)
    return ts


def fill(spec):
    out = set()
    for c in spec["classes"].values():
        for f in c["fields"]:
            vals.leaves(f["dv"], out)
            for x in f["sif"]:
                vals.leaves(x, out)
            if len(f["fde"]) > 2 and f["fde"][2]:
                vals.leaves(f["fde"][2], out)
        for v in c.get("cvars", []):
            vals.leaves(v[2], out)
        for e in c["cdesers"] + c["ldesers"]:
            if e[2]:
                vals.leaves(e[2], out)
        if c["post"]:
            vals.leaves(c["post"][1], out)
    for e in spec["enums"].values():
        for _, v in e["members"]:
            vals.leaves(v, out)
    for ev in spec["events"]:
        for k in ("v", "d", "out", "tree"):
            if k in ev and isinstance(ev[k], list) and ev[k] and ev[k][0] not in ("ERR", "EXC", "UERR"):
                vals.leaves(ev[k], out)
        for _, v in ev.get("kw", []):
            vals.leaves(v, out)
        if ev["op"] == "addD" and ev["const"]:
            vals.leaves(ev["const"], out)
    ctors = {"int", "float", "str", "bool"}
    for t in types_of(spec):
        if t[0] == "strlike":
            ctors.add(t[1])
        elif t[0] == "dt":
            ctors.add("dt:" + t[1])
        elif t[0] == "sub":
            ctors.add("sub:" + t[1])
        elif t[0] == "lit":
            for v in t[1]:
                vals.leaves(v, out)
    table = {c: {} for c in ctors}
    todo = set(out)
    for depth in range(2):
        new = set()
        for tag, lex in todo:
            for c in ctors:
                r = vals.conv(c, tag, lex)
                table[c].setdefault(tag, {})[lex] = r
                s = set()
                if r[0] not in ("ERR", "ANY"):
                    vals.leaves(r, s)
                new |= s
        todo = new - out
        out |= new
    for tag, lex in todo:      # values reached last are only ever compared
        pass
    num, iso = {}, {}
    for tag, lex in out:
        if tag in vals.NUMTAGS:
            num.setdefault(tag, {})[lex] = vals.canon_num(tag, lex)
        if tag in vals.DT:
            iso.setdefault(tag, {})[lex] = vals.leaf_value(tag, lex).isoformat()
    case = {}
    for c in spec["classes"].values():
        if c["case"]:
            f = getattr(casefy, c["case"])
            for cl in spec["classes"].values():
                for fl in cl["fields"]:
                    case.setdefault(c["case"], {})[fl["n"]] = f(fl["n"])
                for cv in cl.get("cvars", []):
                    case.setdefault(c["case"], {})[cv[0]] = f(cv[0])
    spec["env"] = {"conv": table, "num": num, "iso": iso, "case": case}
    return spec
