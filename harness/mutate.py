"""Changes to encoded data trees: the inputs nobody meant to send."""
from __future__ import annotations

import copy

LEAVES = [
    ["none"], ["bool", "true"], ["bool", "false"], ["int", "0"], ["int", "1"], ["int", "7"],
    ["float", "0.0"], ["float", "2.5"], ["float", "1.0"], ["str", ""], ["str", "x"], ["str", "5"],
    ["str", "1.5"], ["str", "true"], ["str", "bad"], ["list", []], ["dict", []], ["tuple", []],
    ["list", [["int", "1"]]], ["dict", [[["str", "k"], ["int", "1"]]]],
]


def paths(e, p=(), out=None):
    """All positions of a tree (keys of dicts are positions too)."""
    if out is None:
        out = []
    out.append(p)
    k = e[0]
    if k in ("list", "tuple", "deque"):
        for i, x in enumerate(e[1]):
            paths(x, p + (("e", i),), out)
    elif k == "dict":
        for i, (a, b) in enumerate(e[1]):
            out.append(p + (("k", i),))
            paths(b, p + (("v", i),), out)
    return out


def get(e, p):
    for kind, i in p:
        e = e[1][i] if kind == "e" else e[1][i][0 if kind == "k" else 1]
    return e


def put(e, p, v):
    if not p:
        return v
    o = get(e, p[:-1])
    kind, i = p[-1]
    if kind == "e":
        o[1][i] = v
    else:
        o[1][i][0 if kind == "k" else 1] = v
    return e


def mutate(rng, e, pool, leaves=None, n=None):
    """A few random changes.  pool: strings worth trying as keys."""
    e = copy.deepcopy(e)
    leaves = leaves or LEAVES
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        ps = paths(e)
        p = rng.choice(ps)
        if p and p[-1][0] == "k":
            put(e, p, ["str", rng.choice(pool)])
            e = dedup(e)
            continue
        v = get(e, p)
        k = v[0]
        r = rng.random()
        if k == "dict" and r < 0.75:
            q = rng.random()
            items = v[1]
            if q < 0.35 and items:
                items.pop(rng.randrange(len(items)))
            elif q < 0.6:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    items.insert(rng.randrange(len(items) + 1),
                                 [["str", rng.choice(pool)], copy.deepcopy(rng.choice(leaves))])
            elif q < 0.75 and items:
                items[rng.randrange(len(items))][0] = ["str", rng.choice(pool)]
            elif q < 0.85 and items:
                items[rng.randrange(len(items))][1] = ["none"]
            elif items:
                rng.shuffle(items)
            e = dedup(e)
        elif k in ("list", "tuple") and r < 0.6:
            q = rng.random()
            if q < 0.3 and v[1]:
                v[1].pop(rng.randrange(len(v[1])))
            elif q < 0.5 and v[1]:
                v[1].append(copy.deepcopy(rng.choice(v[1])))
            elif q < 0.7:
                v[1].append(copy.deepcopy(rng.choice(leaves)))
            elif q < 0.85:
                v[0] = "tuple" if k == "list" else "list"
            else:
                rng.shuffle(v[1])
        elif p:
            e = put(e, p, copy.deepcopy(rng.choice(leaves)))
        elif rng.random() < 0.2:
            e = copy.deepcopy(rng.choice(leaves))
    return dedup(e)


def dedup(e):
    """Dicts keep one entry per key, as Python would."""
    k = e[0]
    if k in ("list", "tuple", "deque", "set", "frozenset"):
        return [k, [dedup(x) for x in e[1]]]
    if k in ("dict", "counter"):
        out = {}
        for a, b in e[1]:
            out[repr(a)] = [a, dedup(b)]
        return [k, list(out.values())]
    if k == "defaultdict":
        out = {}
        for a, b in e[2]:
            out[repr(a)] = [a, dedup(b)]
        return [k, e[1], list(out.values())]
    return e


def edits(e, changes):
    """The changes of spec/mc (MC!Edit1), in order."""
    e = copy.deepcopy(e)
    for c in changes:
        op = c[0]
        if op == "whole":
            e = c[1]
        elif e[0] == "dict" and op in ("drop", "set", "add", "ren"):
            key = ["str", c[1]]
            at = [i for i, (k, _) in enumerate(e[1]) if k == key]
            if op == "drop":
                e[1] = [p for p in e[1] if p[0] != key]
            elif op in ("set", "add"):
                if at:
                    e[1][at[0]] = [key, c[2]]
                else:
                    e[1].append([key, c[2]])
            elif at:
                v = e[1][at[0]][1]
                e[1] = [p for p in e[1] if p[0] not in (key, )]
                new = ["str", c[2]]
                hit = [i for i, (k, _) in enumerate(e[1]) if k == new]
                if hit:
                    e[1][hit[0]] = [new, v]
                else:
                    e[1].append([new, v])
        elif e[0] in ("dict", "list", "tuple") and op == "rev":
            e[1] = e[1][::-1]
        elif e[0] in ("list", "tuple"):
            if op == "cut":
                e[1] = e[1][:-1]
            elif op == "app":
                e[1] = e[1] + [c[1]]
            elif op == "nth" and 1 <= c[1] <= len(e[1]):
                e[1][c[1] - 1] = c[2]
    return e
