"""Real Python classes for the declarations of a session."""
from __future__ import annotations

import collections
import collections.abc
import dataclasses
import datetime
import enum
import sys
import types as pytypes
import typing

import vals

MIXIN = {"int": int, "str": str, "float": float}


class Boom(Exception):
    pass


class BoomArgs(Exception):
    """An exception whose constructor needs two arguments."""

    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


HOOK_EXC = {
    "ValueError": ValueError, "TypeError": TypeError, "KeyError": KeyError,
    "RuntimeError": RuntimeError, "AttributeError": AttributeError, "Boom": Boom,
    "IndexError": IndexError, "LookupError": LookupError, "BoomArgs": BoomArgs,
    "StopIteration": StopIteration, "AssertionError": AssertionError,
}


def make_exc(name, msg):
    return BoomArgs(msg, 1) if name == "BoomArgs" else HOOK_EXC[name](msg)


def forget():
    """typing caches subscriptions by equality and so gives Union[int, list[Union[B, A]]] the
    members of an earlier Union[int, list[Union[A, B]]]; sessions should not see that."""
    for f in typing._cleanups:
        f()


# How types and classes are written in source; none of it changes what they mean.
PLAIN = {"union": "", "typing": False}
BARE = {"list": "List", "dict": "Dict", "set": "Set", "tuple": "Tuple", "frozenset": "FrozenSet",
        "deque": "Deque", "defaultdict": "DefaultDict", "counter": "TCounter"}
METADATA = ("rename", "alias", "skip", "skip_serializing", "skip_deserializing", "skip_if",
            "skip_if_false", "skip_if_none", "skip_if_default", "serializer", "deserializer")


def dress(spec, r):
    """Choose the spelling of a session's types and the form of its dataclasses."""
    def spell():
        return {"union": r.choice(["", "", "bar", "bar", "union"]), "typing": r.random() < .25}
    spec["spell"] = spell()
    classes = spec["classes"]
    hier = {b for d in classes.values() for b in d["bases"]}
    for c, d in classes.items():
        py = d.setdefault("py", {})
        py["spell"] = spell()
        py["meta"] = r.random() < .15
        x = r.random()
        if c in hier or d["bases"] or x > .3:
            continue
        py["dcopts"] = ("frozen=True" if x < .1 else "slots=True" if x < .2 else
                        "frozen=True, slots=True" if x < .25 else "order=True")


def payload(e):
    k = e[0]
    if k in ("list", "tuple", "deque", "set", "frozenset", "dict", "counter", "defaultdict",
             "obj", "sub", "opaque"):
        return k
    if k == "enum":
        return e[2]
    return e[1] if len(e) > 1 else ""


class Session:
    """The module a session's classes live in."""

    counter = 0

    def __init__(self, spec):
        import serde
        import typing_extensions
        from plum import dispatch

        self.spec = spec
        self.codec = vals.Codec()
        Session.counter += 1
        self.name = f"vsess_{spec['id']}_{Session.counter}"
        m = pytypes.ModuleType(self.name)
        sys.modules[self.name] = m
        self.m = m
        ns = m.__dict__
        for n in ("Any", "Optional", "Union", "Generic", "Literal", "List", "Dict", "Set",
                  "FrozenSet", "Tuple", "Deque", "DefaultDict", "TypeVar"):
            ns[n] = getattr(typing, n)
        ns["TCounter"] = typing.Counter
        for n in ("Sequence", "MutableSequence", "Mapping", "MutableMapping", "MutableSet"):
            ns[n] = getattr(collections.abc, n)
        ns["AbstractSet"] = collections.abc.Set
        ns["TSequence"] = typing.Sequence
        ns["TMapping"] = typing.Mapping
        ns["deque"] = collections.deque
        ns["defaultdict"] = collections.defaultdict
        ns["Counter"] = collections.Counter
        ns["dataclass"] = dataclasses.dataclass
        ns["serde"] = serde.serde
        ns["serialize"] = serde.serialize
        ns["deserialize"] = serde.deserialize
        ns["field"] = serde.field
        ns["_dcfield"] = dataclasses.field
        ns["_s"] = serde
        ns.update(vals.SUBS)
        ns.update(vals.NEWTYPES)
        ns.update(vals.STRLIKE)
        ns.update(vals.DT)
        self.dispatch = dispatch
        self.serde = serde
        self.nconst = 0
        self.spell = self.top_spell = dict(PLAIN, **spec.get("spell", {}))
        self.alias_cls = getattr(typing, "TypeAliasType", typing_extensions.TypeAliasType)
        for eid, e in spec["enums"].items():
            self._enum(eid, e)
        for t in spec.get("tvars", []):
            ns[t] = typing.TypeVar(t)

    def close(self):
        sys.modules.pop(self.name, None)

    # ------------------------------------------------------------ enums
    def _enum(self, eid, e):
        members = [(n, self.codec.dec(v)) for n, v in e["members"]]
        name = e.get("name", eid)
        base = e["mixin"]
        kw = {"module": self.name}
        if base == "str" and e.get("strenum"):
            cls = enum.StrEnum(name, members, **kw)
        elif base == "int" and e.get("intenum"):
            cls = enum.IntEnum(name, members, **kw)
        elif base:
            cls = enum.Enum(name, members, type=MIXIN[base], **kw)
        else:
            cls = enum.Enum(name, members, **kw)
        self.codec.add_enum(eid, cls)
        self.m.__dict__["_e_" + eid] = cls
        self.m.__dict__[name] = cls

    # ------------------------------------------------------------ types
    def const(self, v):
        n = f"_k{self.nconst}"
        self.nconst += 1
        self.m.__dict__[n] = v
        return n

    def ann(self, t):
        """The annotation's source.  How it is spelled makes no difference (see dress)."""
        k = t[0]
        a = self.ann
        w = lambda plain, old: old if self.spell["typing"] else plain
        if k in ("int", "float", "str", "bool"):
            return k
        if k == "none":
            return "None"
        if k == "any":
            return "Any"
        if k in ("sub", "newtype", "strlike", "dt"):
            return t[1]
        if k == "enum":
            return "_e_" + t[1]
        if k == "lit":
            return "Literal[" + ", ".join(repr(self.codec.dec(v)) for v in t[1]) + "]"
        if k == "list":
            n = {"list": "list", "typing": "List", "seq": "Sequence", "tseq": "TSequence",
                 "mutseq": "MutableSequence"}[t[2]]
            return f"{n}[{a(t[1])}]"
        if k == "set":
            n = {"set": "set", "typing": "Set", "mutset": "MutableSet",
                 "absset": "AbstractSet"}[t[2]]
            return f"{n}[{a(t[1])}]"
        if k == "frozenset":
            return f"{w('frozenset', 'FrozenSet')}[{a(t[1])}]"
        if k == "deque":
            return f"{w('deque', 'Deque')}[{a(t[1])}]"
        if k == "vtuple":
            return f"{w('tuple', 'Tuple')}[{a(t[1])}, ...]"
        if k == "tuple":
            return w("tuple", "Tuple") + ("[" + ", ".join(map(a, t[1])) + "]" if t[1] else "[()]")
        if k == "dict":
            n = {"dict": "dict", "typing": "Dict", "mapping": "Mapping", "tmapping": "TMapping",
                 "mutmap": "MutableMapping"}[t[3]]
            return f"{n}[{a(t[1])}, {a(t[2])}]"
        if k == "ddict":
            return f"{w('defaultdict', 'DefaultDict')}[{a(t[1])}, {a(t[2])}]"
        if k == "counter":
            return f"{w('Counter', 'TCounter')}[{a(t[1])}]"
        if k == "bare":
            if self.spell["typing"]:
                return BARE.get(t[1], t[1])
            return {"defaultdict": "defaultdict", "counter": "Counter"}.get(t[1], t[1])
        if k == "opt":
            if self.spell["union"] == "bar":
                return f"{a(t[1])} | None"
            if self.spell["union"] == "union":
                return f"Union[{a(t[1])}, None]"
            return f"Optional[{a(t[1])}]"
        if k == "union":
            if self.spell["union"] == "bar":
                return " | ".join(map(a, t[1]))
            return "Union[" + ", ".join(map(a, t[1])) + "]"
        if k == "cls":
            return self.spec["classes"][t[1]]["name"]
        if k == "gen":
            return self.spec["classes"][t[1]]["name"] + "[" + ", ".join(map(a, t[2])) + "]"
        if k == "tv":
            return t[1]
        if k == "alias":
            n = f"_al{self.nconst}"
            self.nconst += 1
            self.m.__dict__[n] = self.alias_cls(n, self.pytype(t[1]))
            return n
        raise ValueError(t)

    def pytype(self, t):
        if t[0] == "tagged":
            u = self.pytype(["union", t[1]])
            return self.tagging(t[2])(u)
        forget()
        return eval(self.ann(t), self.m.__dict__)

    def tagging(self, tag):
        s = self.serde
        if tag[0] == "external":
            return s.ExternalTagging
        if tag[0] == "internal":
            return s.InternalTagging(tag[1])
        if tag[0] == "adjacent":
            return s.AdjacentTagging(tag[1], tag[2])
        return s.Untagged

    # ------------------------------------------------------------ custom
    def ser_fn(self, name):
        def f(value):
            return name + ":" + payload(self.codec.enc(value))
        return f

    def de_fn(self, name, const):
        def f(data):
            if data == "bad" and type(data) is str:
                raise ValueError("custom deserializer rejects")
            if const:
                return self.codec.dec(const)
            return name + ":" + payload(self.codec.enc(data))
        return f

    def class_serializer(self, entries):
        ns = {}
        disp = self.dispatch
        for t, name in entries:
            fn = self.ser_fn(name)

            def serialize(self, value, _fn=fn):
                return _fn(value)

            def wrap(fn):
                def serialize(self, value):
                    return fn(value)
                return serialize
            g = wrap(fn)
            g.__annotations__ = {"value": self.pytype(t), "return": typing.Any}
            g.__qualname__ = f"S{id(ns)}.serialize"
            ns["serialize"] = self._plum(ns.get("serialize"), g)
        return type("CS", (), ns)()

    def class_deserializer(self, entries):
        ns = {}
        for t, name, const in entries:
            fn = self.de_fn(name, const)

            def wrap(fn):
                def deserialize(self, cls, value):
                    return fn(value)
                return deserialize
            g = wrap(fn)
            g.__annotations__ = {"cls": type[self.pytype(t)], "value": typing.Any,
                                 "return": typing.Any}
            g.__qualname__ = f"D{id(ns)}.deserialize"
            ns["deserialize"] = self._plum(ns.get("deserialize"), g)
        return type("CD", (), ns)()

    def _plum(self, f, g):
        import plum
        if f is None:
            f = plum.Function(g)
        f.register(g)
        return f

    def legacy_ser(self, entries):
        table = [(self.pytype(t), self.ser_fn(n)) for t, n in entries]

        def serializer(cls, o):
            for t, f in reversed(table):
                if cls is t:
                    return f(o)
            raise self.serde.SerdeSkip()
        return serializer

    def legacy_de(self, entries):
        table = [(self.pytype(t), self.de_fn(n, c)) for t, n, c in entries]

        def deserializer(cls, o):
            for t, f in reversed(table):
                if cls is t:
                    return f(o)
            raise self.serde.SerdeSkip()
        return deserializer

    # ------------------------------------------------------------ classes
    def options(self, d, which):
        o = []
        if d["case"]:
            o.append(f"rename_all={d['case']!r}")
        if d["tag"] != ["external"] or d.get("py", {}).get("tagkw"):
            o.append("tagging=" + self.const(self.tagging(d["tag"])))
        if d["tc"] != "strict":
            o.append("type_check=_s." + d["tc"])
        elif d.get("py", {}).get("tckw"):
            o.append("type_check=_s.strict")
        if d["transparent"]:
            o.append("transparent=True")
        if which in ("both", "de"):
            if d["deny"]:
                o.append("deny_unknown_fields=True")
            if d["cdesers"]:
                o.append("class_deserializer=" + self.const(self.class_deserializer(d["cdesers"])))
            if d["ldesers"]:
                o.append("deserializer=" + self.const(self.legacy_de(d["ldesers"])))
        if which in ("both", "ser"):
            if d["skipdef"]:
                o.append("skip_if_default=True")
            if d["skipnone"]:
                o.append("skip_if_none=True")
            if d["csets"]:
                o.append("convert_sets_default=True")
            if d.get("scv"):
                o.append("serialize_class_var=True")
            if d["csers"]:
                o.append("class_serializer=" + self.const(self.class_serializer(d["csers"])))
            if d["lsers"]:
                o.append("serializer=" + self.const(self.legacy_ser(d["lsers"])))
        if which == "both":
            if not d["reuse"]:
                o.append("reuse_instances_default=False")
        elif which == "ser":
            if d["reuse"]:
                o.append("reuse_instances_default=True")
        elif which == "de":
            if not d["dereuse"]:
                o.append("reuse_instances_default=False")
        return ", ".join(o)

    def field_src(self, f):
        o = []
        if f["rename"]:
            o.append(f"rename={f['rename']!r}")
        if f["alias"]:
            o.append(f"alias={list(f['alias'])!r}")
        for k, n in (("skip", "skip"), ("sser", "skip_serializing"), ("sde", "skip_deserializing"),
                     ("sfalse", "skip_if_false")):
            if f[k]:
                o.append(f"{n}=True")
        if f["sif"]:
            const = self.codec.dec(f["sif"][0])
            o.append("skip_if=" + self.const(lambda v, c=const: v == c))
        for k, n in (("snone", "skip_if_none"), ("sdef", "skip_if_default")):
            if f[k] != "unset":
                o.append(f"{n}={f[k] == 'true'}")
        if f["flat"]:
            o.append("flatten=True")
        if f["fser"] == "default":
            o.append("serializer=_s.default_serializer")
        elif f["fser"]:
            o.append("serializer=" + self.const(self.ser_fn(f["fser"])))
        if f["fde"] and f["fde"][0] == "default":
            o.append("deserializer=_s.default_deserializer")
        elif f["fde"]:
            o.append("deserializer=" + self.const(self.de_fn(f["fde"][1], f["fde"][2])))
        if f["kw"]:
            o.append("kw_only=True")
        if not f["init"]:
            o.append("init=False")
        if f["dk"] == "val":
            v = self.const(self.codec.dec(f["dv"]))
            if not o:
                return " = " + v
            o.append("default=" + v)
        elif f["dk"] == "fac":
            e = f["dv"]
            if e[0] in ("list", "dict", "set") and not e[1] and not f.get("facfn"):
                o.append("default_factory=" + e[0])
            else:
                o.append("default_factory=" + self.const(lambda e=e: self.codec.dec(e)))
        if o and self.meta:
            # the documented plain form
            meta = [x for x in o if x.split("=")[0] in METADATA]
            o = [x for x in o if x not in meta]
            o.append("metadata={" + ", ".join("'serde_{}': {}".format(*x.split("=", 1))
                                              for x in meta) + "}")
            return " = _dcfield(" + ", ".join(o) + ")"
        return " = field(" + ", ".join(o) + ")" if o else ""

    def class_src(self, cid):
        d = self.spec["classes"][cid]
        py = d.get("py", {})
        style = py.get("style", "serde")
        self.spell = dict(PLAIN, **py.get("spell", {}))
        self.meta = bool(py.get("meta")) and not any(f["flat"] for f in d["fields"])
        L = []
        if py.get("future"):
            L.append("from __future__ import annotations")
        dcopts = ", ".join(o for o in ("kw_only=True" if py.get("kwonly") else "",
                                       py.get("dcopts", "")) if o)
        dc = "@dataclass" + (f"({dcopts})" if dcopts else "")

        after = []

        def deco(n, o):
            if py.get("after"):
                # applied once the class is globally visible
                after.insert(0, f"{n}({o})({d['name']})" if o else f"{n}({d['name']})")
                if dc not in L:
                    L.append(dc)
                return
            L.append(f"@{n}({o})" if o or py.get("paren") else f"@{n}")
        if style == "serde":
            deco("serde", self.options(d, "both"))
            if (py.get("dc") or dcopts) and not after:
                L.append(dc)
        elif style == "sd":
            deco("serialize", self.options(d, "ser"))
            deco("deserialize", self.options(d, "de"))
            if (py.get("dc", True) or dcopts) and not after:
                L.append(dc)
        elif style == "ds":
            deco("deserialize", self.options(d, "de"))
            deco("serialize", self.options(d, "ser"))
            if (py.get("dc", True) or dcopts) and not after:
                L.append(dc)
        else:
            L.append(dc)
        bases = []
        for i, b in enumerate(d["bases"]):
            bn = self.spec["classes"][b]["name"]
            args = py.get("bargs", [[]] * len(d["bases"]))[i]
            bases.append(bn + ("[" + ", ".join(map(self.ann, args)) + "]" if args else ""))
        if d["tvars"]:
            bases.append("Generic[" + ", ".join(d["tvars"]) + "]")
        L.append(f"class {d['name']}" + (f"({', '.join(bases)})" if bases else "") + ":")
        body = []
        for f in d["fields"]:
            ann = self.ann(f["t"])
            if py.get("quoted"):
                ann = repr(ann)
            body.append(f"    {f['n']}: {ann}{self.field_src(f)}")
        for n, t, v in d.get("cvars", []):
            body.append(f"    {n}: _ClassVar[{self.ann(t)}] = {self.const(self.codec.dec(v))}")
        inherited = any(self.spec["classes"][b]["post"] for b in d["bases"])
        if d["post"] or inherited:
            body.append("    def __post_init__(self):")
            body.append("        " + (self.const(self.hook(d["post"])) + "(self)"
                                      if d["post"] else "pass"))
        if not body:
            body.append("    pass")
        return "\n".join(L + body + after) + "\n"

    def hook(self, post):
        name, value, exc, msg = post

        def f(obj):
            if self.codec.enc(getattr(obj, name)) == value:
                raise make_exc(exc, msg)
        return f

    def declare(self, cid):
        self.m.__dict__.setdefault("_ClassVar", typing.ClassVar)
        src = self.class_src(cid)
        forget()
        exec(compile(src, f"<{self.name}:{cid}>", "exec", dont_inherit=True), self.m.__dict__)
        self.spell = self.top_spell
        cls = self.m.__dict__[self.spec["classes"][cid]["name"]]
        self.codec.add_class(cid, cls)
        return cls

    def text(self):
        """Source of all classes, for people."""
        out = []
        for eid, e in self.spec["enums"].items():
            out.append(f"# enum {eid}: {e}")
        for cid in self.spec["classes"]:
            try:
                out.append(self.class_src(cid))
            except Exception as ex:  # pragma: no cover
                out.append(f"# {cid}: {ex!r}")
        return "\n".join(out)
