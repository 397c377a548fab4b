"""Python values <-> the tagged lists of spec/Values.tla, and leaf types."""
from __future__ import annotations

import collections
import dataclasses
import datetime
import decimal
import enum
import ipaddress
import json
import pathlib
import typing
import uuid


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyStr(str):
    pass


class OtherInt(int):
    pass


SUBS = {"MyInt": MyInt, "MyFloat": MyFloat, "MyStr": MyStr, "OtherInt": OtherInt}
SUBBASE = {"MyInt": "int", "MyFloat": "float", "MyStr": "str", "OtherInt": "int"}
NEWTYPES = {
    "UserId": typing.NewType("UserId", int),
    "Score": typing.NewType("Score", float),
    "Label": typing.NewType("Label", str),
}
NTBASE = {"UserId": "int", "Score": "float", "Label": "str"}

STRLIKE = {
    "UUID": uuid.UUID,
    "Decimal": decimal.Decimal,
    "Path": pathlib.Path,
    "PurePath": pathlib.PurePath,
    "PurePosixPath": pathlib.PurePosixPath,
    "PureWindowsPath": pathlib.PureWindowsPath,
    "IPv4Address": ipaddress.IPv4Address,
    "IPv6Address": ipaddress.IPv6Address,
    "IPv4Network": ipaddress.IPv4Network,
    "IPv6Network": ipaddress.IPv6Network,
    "IPv4Interface": ipaddress.IPv4Interface,
    "IPv6Interface": ipaddress.IPv6Interface,
}
# tag of an instance -> class used to rebuild it
LIBTAG = {cls: name for name, cls in STRLIKE.items()}
LIBTAG[pathlib.PosixPath] = "Path"
del LIBTAG[pathlib.PurePath]
DT = {"datetime": datetime.datetime, "date": datetime.date, "time": datetime.time}
DTTAG = {v: k for k, v in DT.items()}
PRIMS = {"int": int, "float": float, "str": str, "bool": bool}


class Codec:
    """Knows the classes and enums of the session a value belongs to."""

    def __init__(self):
        self.cls = {}      # id -> class
        self.enums = {}    # id -> enum class
        self.cid = {}      # class -> id
        self.eid = {}

    def add_class(self, cid, cls):
        self.cls[cid] = cls
        self.cid[cls] = cid

    def add_enum(self, eid, cls):
        self.enums[eid] = cls
        self.eid[cls] = eid

    # ------------------------------------------------------------------
    def enc(self, v, depth=0):
        t = type(v)
        if depth > 60:
            return ["opaque", "deep"]
        if v is None:
            return ["none"]
        if t is bool:
            return ["bool", "true" if v else "false"]
        if t is int:
            return ["int", str(v)]
        if t is float:
            return ["float", repr(v)]
        if t is str:
            return ["str", v]
        d = depth + 1
        if t is list:
            return ["list", [self.enc(x, d) for x in v]]
        if t is tuple:
            return ["tuple", [self.enc(x, d) for x in v]]
        if t is collections.deque:
            return ["deque", [self.enc(x, d) for x in v]]
        if t in (set, frozenset):
            return [t.__name__, sorted((self.enc(x, d) for x in v), key=json.dumps)]
        if t is dict:
            return ["dict", [[self.enc(k, d), self.enc(x, d)] for k, x in v.items()]]
        if t is collections.Counter:
            return ["counter", [[self.enc(k, d), self.enc(x, d)] for k, x in v.items()]]
        if t is collections.defaultdict:
            fac = v.default_factory
            if fac is None:
                name = ""
            else:
                name = getattr(fac, "__name__", None) or repr(fac)
            return ["defaultdict", name, [[self.enc(k, d), self.enc(x, d)] for k, x in v.items()]]
        if t in self.eid:
            return ["enum", self.eid[t], v.name]
        if t in self.cid:
            fs = []
            for f in dataclasses.fields(v):
                if hasattr(v, f.name):
                    fs.append([f.name, self.enc(getattr(v, f.name), d)])
                else:
                    fs.append([f.name, ["opaque", "unset"]])
            return ["obj", self.cid[t], fs]
        if t in DTTAG:
            return [DTTAG[t], repr(v)]
        if t in LIBTAG:
            return [LIBTAG[t], str(v)]
        for name, c in SUBS.items():
            if t is c:
                base = PRIMS[SUBBASE[name]](v)
                return ["sub", name, self.enc(base, d)]
        return ["opaque", t.__name__]

    # ------------------------------------------------------------------
    def dec(self, e):
        k = e[0]
        if k == "none":
            return None
        if k == "bool":
            return e[1] == "true"
        if k == "int":
            return int(e[1])
        if k == "float":
            return float(e[1])
        if k == "str":
            return e[1]
        if k == "list":
            return [self.dec(x) for x in e[1]]
        if k == "tuple":
            return tuple(self.dec(x) for x in e[1])
        if k == "deque":
            return collections.deque(self.dec(x) for x in e[1])
        if k == "set":
            return {self.dec(x) for x in e[1]}
        if k == "frozenset":
            return frozenset(self.dec(x) for x in e[1])
        if k == "dict":
            return {self.dec(a): self.dec(b) for a, b in e[1]}
        if k == "counter":
            c = collections.Counter()
            for a, b in e[1]:
                c[self.dec(a)] = self.dec(b)
            return c
        if k == "defaultdict":
            fac = {"list": list, "int": int, "str": str, "dict": dict, "set": set,
                   "float": float, "bool": bool, "": None}.get(e[1], None)
            if fac is None and e[1]:
                for c in self.cid:
                    if c.__name__ == e[1]:
                        fac = c
            return collections.defaultdict(fac, {self.dec(a): self.dec(b) for a, b in e[2]})
        if k == "enum":
            return self.enums[e[1]][e[2]]
        if k == "sub":
            return SUBS[e[1]](self.dec(e[2]))
        if k == "obj":
            c = self.cls[e[1]]
            o = object.__new__(c)
            for n, x in e[2]:
                object.__setattr__(o, n, self.dec(x))
            return o
        if k in DT:
            return eval(e[1], {"datetime": datetime})
        if k in STRLIKE:
            return STRLIKE[k](e[1])
        raise ValueError(f"cannot decode {e!r}")


def leaves(e, out):
    """All leaves (tag, lexeme) of an encoded value."""
    k = e[0]
    if k in ("list", "tuple", "deque", "set", "frozenset", "listU"):
        for x in e[1]:
            leaves(x, out)
    elif k in ("dict", "counter"):
        for a, b in e[1]:
            leaves(a, out)
            leaves(b, out)
    elif k == "defaultdict":
        for a, b in e[2]:
            leaves(a, out)
            leaves(b, out)
    elif k == "obj":
        for _, x in e[2]:
            leaves(x, out)
    elif k == "sub":
        leaves(e[2], out)
    elif k in ("enum", "opaque", "ERR", "UERR", "EXC", "ANY"):
        pass
    else:
        out.add((k, e[1] if len(e) > 1 else ""))


def has_tag(e, tags):
    if e[0] in tags:
        return True
    k = e[0]
    if k in ("list", "tuple", "deque", "set", "frozenset", "listU"):
        return any(has_tag(x, tags) for x in e[1])
    if k in ("dict", "counter", "defaultdict"):
        return any(has_tag(a, tags) or has_tag(b, tags) for a, b in e[-1])
    if k == "obj":
        return any(has_tag(x, tags) for _, x in e[2])
    if k == "sub":
        return has_tag(e[2], tags)
    return False


def leaf_value(tag, lex):
    return Codec().dec([tag, lex] if tag != "none" else ["none"])


def conv(ctor, tag, lex):
    """What the Python library makes of a leaf."""
    c = Codec()
    v = leaf_value(tag, lex)
    try:
        if ctor.startswith("sub:"):
            r = SUBS[ctor[4:]](v)
        elif ctor.startswith("dt:"):
            r = DT[ctor[3:]].fromisoformat(v)
        elif ctor in PRIMS:
            r = PRIMS[ctor](v)
        else:
            r = STRLIKE[ctor](v)
    except Exception:
        return ["ERR"]
    e = c.enc(r)
    return e if e[0] != "opaque" else ["ANY"]


def canon_num(tag, lex):
    from fractions import Fraction

    v = leaf_value(tag, lex)
    try:
        f = Fraction(v)
        return str(f)
    except (OverflowError, ValueError):
        return str(v).lower().replace("infinity", "inf")


NUMTAGS = ("int", "float", "bool", "Decimal")
