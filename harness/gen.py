"""Seeded generation of sessions: declarations, values, calls.

Nothing here says what the outcome of a call should be; it only avoids
corners for which no behaviour is promised (see DESIGN.md)."""
from __future__ import annotations

import copy
import random

import casefy

import mutate
import vals

STRINGS = ["", "a", "b", "x", "hello world", "\u00fc\u00f1\u00ef", "5", "true", "null", "1.5",
           "2020-01-02", "no", "~", "a b: c", "line\nbreak", "\U0001f600", "-1", "0x10", "None",
           "x" * 40, "a/b", "#c", "[1]", "{}", "'q'", "tab\t", "1e3", "trailing ", "\\", "%s"]
INTS = ["0", "1", "2", "-1", "7", "10", "255", "65536", "-129", "2147483648", "9007199254740993",
        "3", "5", "42"]
FLOATS = ["0.0", "1.0", "1.5", "-2.25", "0.1", "1e+20", "3.0", "1e-07", "-0.5", "2.0"]
STRLIKE_V = {
    "UUID": ["a8098c1a-f86e-11da-bd1a-00112444be1e", "12345678-1234-5678-1234-567812345678"],
    "Decimal": ["1.5", "0", "-12.340", "1E+3", "5"],
    "Path": ["a/b", "/tmp/x", ".", "f.txt"],
    "PurePosixPath": ["p/q", "/"],
    "PureWindowsPath": ["C:\\x\\y", "z"],
    "IPv4Address": ["127.0.0.1", "10.0.0.255"],
    "IPv6Address": ["::1", "2001:db8::1"],
    "IPv4Network": ["10.0.0.0/30", "192.168.1.0/31"],
    "IPv6Network": ["2001:db8::/126", "::/127"],
    "IPv4Interface": ["10.0.0.1/8", "127.0.0.1/32"],
    "IPv6Interface": ["::1/128", "2001:db8::1/64"],
}
DT_V = {
    "datetime": ["datetime.datetime(2020, 1, 2, 3, 4, 5)",
                 "datetime.datetime(1999, 12, 31, 23, 59, 59, 999999)",
                 "datetime.datetime(2021, 6, 1, 0, 0, tzinfo=datetime.timezone.utc)",
                 "datetime.datetime(2020, 1, 2, 0, 0)"],
    "date": ["datetime.date(2020, 1, 2)", "datetime.date(1, 1, 1)", "datetime.date(2024, 2, 29)"],
    "time": ["datetime.time(1, 2)", "datetime.time(23, 59, 59, 5)", "datetime.time(0, 0)"],
}
NAMES = ["a", "b", "c", "x", "y", "v", "k", "data", "obj", "cls", "res", "foo_bar", "some_value",
         "value", "name", "id", "type_name", "i2", "long_field_name", "o", "n", "items", "keys",
         "x_y_z", "fields", "reuse", "maybe", "count", "e", "s_1", "tag", "kind2", "URL", "camelCase"]
RENAMES = ["class", "zz", "r-1", "r 2", "Foo", "renamed", "a.b", "@id", "$ref", "type2", "Ünï"]
ALIASES = ["al1", "al2", "al-3", "alt", "old_name", "AL", "q9"]
CASES = ["camelcase", "pascalcase", "snakecase", "kebabcase", "constcase", "uppercase",
         "lowercase", "alphanumcase", "upperkebabcase", "sentencecase", "titlecase"]
CLSNAMES = ["Foo", "FooBar", "Foo_Bar", "Ba", "BarBaz", "Bar", "Baz", "Qux", "Outer", "Inner", "Node", "Item", "Point", "User", "A1",
            "B1", "C1", "D1", "E1", "Pri", "Data", "Config", "Leaf", "Root"]
SUBTYPES = [["sub", n, vals.SUBBASE[n]] for n in ("MyInt", "MyFloat", "MyStr", "OtherInt")]
NTTYPES = [["newtype", n, b] for n, b in vals.NTBASE.items()]

BASE = dict(
    ncls=(1, 3), nf=(1, 4), depth=2,
    rename=.06, alias=.06, case=.1, skip=.03, sser=.03, sde=.03, sif=.03, sfalse=.03,
    snone=.04, sdef=.03, skipdef=.04, skipnone=.04, default=.35, opt=.2, union=.08, flat=0.0,
    capture=0.0, coerce=.12, disabled=.12, deny=.06, noreuse=.2, csets=.1, fser=.02, fde=.02,
    csers=.03, lsers=.02, regs=0.0, generic=0.0, inherit=.06, over=.12, transparent=.04, post=.04,
    cvars=.04, recursive=.05, kw=.06, noinit=.02, styles=.2, plain=.08, future=.15, tagging=.3,
    w=dict(prim=8, strlike=2.5, dt=1.2, enum=1.2, lit=.6, any=.5, none=.15, sub=.5, newtype=.5,
           bare=.4, list=2, set=.7, frozenset=.3, deque=.4, vtuple=.5, tuple=.7, dict=1.2,
           ddict=.3, counter=.3, cls=2.5, alias=0),
    nval=2, nmut=2, nrand=1, nnew=1, ntop=1, nfmt=1, fmts=("json", "yaml", "toml", "msgpack", "pickle"),
    fmtmut=.5, badval=.1, again=.15,
)


def canon(t):
    """A type up to the order of union members and literals."""
    if t[0] in ("union", "lit"):
        return [t[0], sorted((canon(x) if t[0] == "union" else x for x in t[1]), key=repr)]
    return [t[0]] + [x if not isinstance(x, list) or not x
                     else canon(x) if isinstance(x[0], str) else [canon(y) for y in x]
                     for x in t[1:]]


def subterms(t):
    yield t
    if t[0] != "lit":
        for x in t[1:]:
            if isinstance(x, list) and x:
                for y in ([x] if isinstance(x[0], str) else x):
                    yield from subterms(y)


def conflated(ts):
    """Do the types contain terms that typing's own cache takes for one another?"""
    seen = {}
    for t in ts:
        for u in subterms(t):
            if u[0] in ("union", "opt", "frozenset", "deque", "vtuple", "tuple", "ddict", "counter") or u[-1] in ("typing", "tseq", "tmapping"):
                args = u[1] if u[0] == "union" else u[1:]
                key = repr([u[0]] + [canon(x) if isinstance(x, list) else x for x in args])
                if seen.setdefault(key, repr(args)) != repr(args):
                    return True
    return False


def prof(**kw):
    p = copy.deepcopy(BASE)
    w = kw.pop("w", {})
    p.update(kw)
    p["w"].update(w)
    return p


class Gen:
    def __init__(self, seed, p, idx=0):
        self.r = random.Random(f"{seed}/{idx}")
        self.p = p
        self.classes = {}
        self.enums = {}
        self.tv = {}
        self.events = []
        self.fmtonly = False
        self.building = None
        self.pending = []

    def ch(self, x):
        return self.r.random() < x

    def pick(self, s):
        return self.r.choice(s)

    # ------------------------------------------------------------- enums
    def new_enum(self):
        eid = f"e{len(self.enums)}"
        kind = self.pick(["int", "str", "mixed", "intenum", "strenum", "strmix", "tuple", "float"])
        n = self.r.randint(1, 4)
        names = self.r.sample(["A", "B", "C", "RED", "Blue", "x_1", "VAL"], n)
        if kind in ("int", "intenum"):
            vs = [["int", v] for v in self.r.sample(INTS[:9], n)]
        elif kind in ("str", "strenum", "strmix"):
            vs = [["str", v] for v in self.r.sample(["a", "b", "5", "hello", "", "x y", "1.5"], n)]
        elif kind == "float":
            vs = [["float", v] for v in self.r.sample(["1.5", "0.1", "-2.25", "1e+20"], n)]
        elif kind == "tuple":
            vs = [["tuple", [["int", str(i)], ["str", "t"]]] for i in range(n)]
        else:
            vs = self.r.sample([["int", "3"], ["str", "s"], ["float", "2.5"], ["str", "4"],
                                ["bool", "true"], ["int", "0"]], n)
        mixin = {"intenum": "int", "strenum": "str", "strmix": "str"}.get(kind, "")
        e = {"mixin": mixin, "members": [[a, b] for a, b in zip(names, vs)], "name": "E" + eid}
        if kind == "strenum":
            e["strenum"] = True
        if kind == "intenum":
            e["intenum"] = True
        self.enums[eid] = e
        return eid

    def an_enum(self):
        if self.enums and self.ch(.6):
            return self.pick(sorted(self.enums))
        return self.new_enum()

    # ------------------------------------------------------------- types
    def prim(self):
        return [self.pick(["int", "int", "str", "str", "float", "bool"])]

    def key_type(self):
        x = self.r.random()
        if x < .5:
            return ["str"]
        if x < .7:
            return ["int"]
        if x < .75:
            return ["float"]
        if x < .83:
            return ["enum", self.an_enum()]
        if x < .9:
            return ["strlike", self.pick(sorted(STRLIKE_V))]
        if x < .94:
            return ["dt", self.pick(sorted(DT_V))]
        if x < .97:
            return self.pick([["newtype", "UserId", "int"], ["newtype", "Label", "str"]])
        return ["tuple", [["int"], ["str"]]]

    def hashable(self):
        x = self.r.random()
        if x < .6:
            return self.prim()
        if x < .8:
            return ["strlike", self.pick(sorted(STRLIKE_V))]
        if x < .9:
            return ["enum", self.an_enum()]
        if x < .95:
            return ["dt", self.pick(sorted(DT_V))]
        return ["tuple", [["int"], ["str"]]]

    def type(self, depth=None, avail=(), cur=None, tvars=(), inunion=False):
        p = self.p
        if depth is None:
            depth = p["depth"]
        w = dict(p["w"])
        if depth <= 0:
            for k in ("list", "set", "frozenset", "deque", "vtuple", "tuple", "dict", "ddict",
                      "counter"):
                w[k] = 0
        if not avail:
            w["cls"] = 0
        if depth < p["depth"]:
            w["none"] = 0       # list[None] and the like have no type name
        if inunion:
            for k in ("sub", "newtype", "any", "bare", "alias"):
                w[k] = 0
        if tvars:
            w["tv"] = 6
        if not inunion and self.ch(p["opt"] * (1 if depth == p["depth"] else .5)):
            t = self.type(depth, avail, cur, tvars)
            return t if t[0] in ("opt", "any", "none", "union") else ["opt", t]
        if not inunion and self.ch(p["union"] * (1 if depth == p["depth"] else .7)):
            return self.union(depth, avail)
        k = self.r.choices(list(w), list(w.values()))[0]
        sub = lambda: self.type(depth - 1, avail, cur, tvars)
        if k == "prim":
            return self.prim()
        if k == "strlike":
            n = self.pick(sorted(STRLIKE_V) + ["Path", "UUID", "Decimal"])
            return ["strlike", n if self.ch(.95) else "PurePath"]
        if k == "dt":
            return ["dt", self.pick(sorted(DT_V))]
        if k == "enum":
            return ["enum", self.an_enum()]
        if k == "lit":
            return self.lit()
        if k == "any":
            return ["any"]
        if k == "none":
            return ["none"]
        if k == "sub":
            return self.pick(SUBTYPES)
        if k == "newtype":
            return self.pick(NTTYPES)
        if k == "bare":
            return ["bare", self.pick(["list", "dict", "set", "frozenset", "tuple", "deque", "counter"])]
        if k == "list":
            t = sub()
            if cur and self.ch(.3):
                t = ["cls", cur]
            return ["list", t, self.pick(["list", "list", "list", "typing", "seq", "tseq", "mutseq"])]
        if k == "set":
            return ["set", self.hashable(), self.pick(["set", "set", "typing", "mutset", "absset"])]
        if k == "frozenset":
            return ["frozenset", self.hashable()]
        if k == "deque":
            return ["deque", sub()]
        if k == "vtuple":
            return ["vtuple", sub()]
        if k == "tuple":
            return ["tuple", [sub() for _ in range(self.pick([1, 2, 2, 3]))]]
        if k == "dict":
            return ["dict", self.key_type(), sub(),
                    self.pick(["dict", "dict", "dict", "typing", "mapping", "tmapping", "mutmap"])]
        if k == "ddict":
            return ["ddict", self.key_type(),
                    self.pick([["int"], ["str"], ["list", ["int"], "list"], ["float"],
                               ["list", ["str"], "list"], ["dict", ["str"], ["int"], "dict"],
                               ["set", ["int"], "set"]])]
        if k == "counter":
            return ["counter", self.pick([["str"], ["int"], ["str"]])]
        if k == "cls":
            c = self.pick(list(avail))
            tv = self.classes[c]["tvars"]
            if tv:
                return ["gen", c, [["tv", self.pick(list(tvars))] if tvars and self.ch(.6)
                                   else self.targ(avail) for _ in tv]]
            return ["cls", c]
        if k == "tv":
            return ["tv", self.pick(list(tvars))]
        if k == "alias":
            return ["alias", sub()]
        raise AssertionError(k)

    def targ(self, avail):
        """A type argument."""
        for _ in range(20):
            t = self.type(1, [c for c in avail if not self.classes[c]["tvars"]])
            if t[0] not in ("any", "none", "bare", "opt", "union", "lit", "alias") and \
                    not self.has(t, ("union", "any", "opt", "lit", "bare", "tv", "alias")):
                return t
        return ["int"]

    @staticmethod
    def has(t, tags):
        if not isinstance(t, list) or not t:
            return False
        if isinstance(t[0], str) and t[0] in tags:
            return True
        return any(Gen.has(x, tags) for x in t if isinstance(x, list))

    def lit(self):
        pool = [["str", "a"], ["str", "b"], ["int", "2"], ["int", "3"], ["str", "x y"],
                ["bool", "true"], ["bool", "false"], ["str", ""]]
        k = self.r.randint(1, 3)
        return ["lit", self.r.sample(pool, k)]

    def union(self, depth, avail):
        n = self.pick([2, 2, 2, 3, 3, 4, 5])
        ms = []
        for _ in range(n * 3):
            if len(ms) >= n:
                break
            if avail and self.ch(.45):
                c = self.pick(list(avail))
                t = ["cls", c] if not self.classes[c]["tvars"] else None
                if t and self.has_top_union_problem(t, ms):
                    continue
            elif self.ch(.12):
                t = ["none"]
            else:
                t = self.type(min(depth - 1, 1), avail, None, (), inunion=True)
            if t is None or t[0] in ("gen", "opt", "union") or canon(t) in map(canon, ms) or self.has(t, ("any", "sub", "newtype", "tv", "alias", "gen")):
                continue
            ms.append(t)
        if len([m for m in ms if m != ["none"]]) < 2:
            ms = [["int"], ["str"]]
        if ms.count(["none"]) and len(ms) == 2:
            return ["opt", [m for m in ms if m != ["none"]][0]]
        return ["union", ms]

    def has_top_union_problem(self, t, ms):
        n = self.classes[t[1]]["name"]
        return any(m[0] == "cls" and self.classes[m[1]]["name"] == n for m in ms)

    # ------------------------------------------------------------- values
    def leaf_any(self):
        return self.pick([["none"], ["bool", "true"], ["int", "5"], ["float", "2.5"], ["str", "a"],
                          ["list", [["int", "1"], ["str", "z"]]], ["dict", [[["str", "p"], ["int", "1"]]]],
                          ["str", ""], ["list", []], ["tuple", [["int", "1"]]]])

    def val(self, t, tv=None, depth=0):
        """An encoded value conforming to t."""
        k = t[0]
        V = lambda x: self.val(x, tv, depth + 1)
        if k == "int":
            return ["int", self.pick(INTS)]
        if k == "float":
            return ["float", self.pick(FLOATS)]
        if k == "str":
            return ["str", self.pick(STRINGS)]
        if k == "bool":
            return ["bool", self.pick(["true", "false"])]
        if k == "none":
            return ["none"]
        if k == "any":
            if self.ch(.8) or self.fmtonly:
                return copy.deepcopy(self.leaf_any())
            return self.val(self.pick([["strlike", "Path"], ["dt", "date"], ["set", ["int"], "set"],
                                       ["strlike", "UUID"], ["tuple", [["int"], ["str"]]]]))
        if k == "sub":
            return ["sub", t[1], self.val([t[2]])]
        if k == "newtype":
            return self.val([t[2]])
        if k == "strlike":
            if t[1] == "PurePath":
                return ["PurePosixPath", self.pick(STRLIKE_V["PurePosixPath"])]
            return [t[1], self.pick(STRLIKE_V[t[1]])]
        if k == "dt":
            return [t[1], self.pick(DT_V[t[1]])]
        if k == "enum":
            return ["enum", t[1], self.pick(self.enums[t[1]]["members"])[0]]
        if k == "lit":
            return copy.deepcopy(self.pick(t[1]))
        n = self.pick([0, 1, 1, 2, 3] + ([8] if depth == 0 and self.ch(.1) else []))
        if depth > 3:
            n = min(n, 1)
        if k in ("list", "deque", "vtuple"):
            kind = {"list": "list", "deque": "deque", "vtuple": "tuple"}[k]
            return [kind, [V(t[1]) for _ in range(n)]]
        if k in ("set", "frozenset"):
            return [k, self.uniq([V(t[1]) for _ in range(n)])]
        if k == "tuple":
            return ["tuple", [V(x) for x in t[1]]]
        if k in ("dict", "ddict", "counter"):
            ks = self.uniq([V(t[1]) for _ in range(n)])
            if k == "counter":
                return ["counter", [[a, ["int", str(self.r.randint(1, 5))]] for a in ks]]
            ps = [[a, V(t[2])] for a in ks]
            if k == "dict":
                return ["dict", ps]
            fac = {"list": "list", "int": "int", "str": "str", "dict": "dict", "float": "float",
                   "set": "set"}.get(t[2][0], t[2][0])
            return ["defaultdict", fac, ps]
        if k == "bare":
            e = [copy.deepcopy(self.leaf_any()) for _ in range(n)]
            if t[1] == "dict":
                return ["dict", [[["str", f"p{i}"], x] for i, x in enumerate(e)]]
            if t[1] == "counter":
                return ["counter", [[["str", f"p{i}"], ["int", str(i + 1)]] for i in range(n)]]
            if t[1] in ("set", "frozenset"):
                return [t[1], self.uniq([self.val(["str"]) for _ in range(n)])]
            return [t[1], e]
        if k == "opt":
            return ["none"] if self.ch(.35) else V(t[1])
        if k == "union":
            return V(self.pick(t[1]))
        if k == "alias":
            return V(t[1])
        if k == "tv":
            return V(tv[t[1]]) if tv and t[1] in tv else copy.deepcopy(self.leaf_any())
        if k == "cls":
            return self.obj(t[1], None, depth)
        if k == "gen":
            d = self.classes[t[1]]
            args = [self.subst(a, tv or {}) for a in t[2]]
            return self.obj(t[1], dict(zip(d["tvars"], args)), depth)
        raise AssertionError(t)

    def subst(self, t, tv):
        if t[0] == "tv":
            return tv.get(t[1], ["any"])
        if t[0] == "lit":
            return t
        return [t[0]] + [x if not isinstance(x, list) or not x
                         else self.subst(x, tv) if isinstance(x[0], str)
                         else [self.subst(y, tv) for y in x] for x in t[1:]]

    def uniq(self, vs):
        out, seen = [], set()
        for v in vs:
            key = vals.canon_num(v[0], v[1]) if v[0] in vals.NUMTAGS else repr(v)
            if v[0] == "enum":
                m = dict((a, b) for a, b in self.enums[v[1]]["members"])[v[2]]
                key = "e" + repr(m)
            if key not in seen:
                seen.add(key)
                out.append(v)
        return out

    def subclasses(self, cid):
        return [c for c, d in self.classes.items()
                if cid in d["bases"] and not d["tvars"] and c != self.building]

    def all_fields(self, cid):
        d = self.classes[cid]
        out = {}
        for b in reversed(d["bases"]):
            for f in self.all_fields(b):
                out[f["n"]] = f
        for f in d["fields"]:
            out[f["n"]] = f
        return list(out.values())

    def bindings(self, cid, tv):
        """Type variable bindings including those passed to generic bases."""
        out = dict(tv or {})
        return out

    def obj(self, cid, tv=None, depth=0):
        d = self.classes[cid]
        if tv is None and 0 < depth < 4 and self.p["inherit"] > .1 and self.ch(.3):
            subs = self.subclasses(cid)
            if subs:
                return self.obj(self.pick(subs), None, depth)
        fs = []
        for f in self.all_fields(cid):
            if not f["init"] or f["skip"] or (f["sde"] and self.ch(.5)):
                v = copy.deepcopy(f["dv"])
                if f["dk"] == "none":
                    v = self.val(f["t"], tv, depth + 1)
            elif f["dk"] != "none" and self.ch(.3):
                v = copy.deepcopy(f["dv"])
            elif depth > 3 and self.has(f["t"], ("cls",)) and f["t"][0] in ("opt", "list", "dict"):
                v = ["none"] if f["t"][0] == "opt" else [f["t"][0], []]
            elif f["sif"] and self.ch(.5):
                v = copy.deepcopy(f["sif"][0])
            else:
                v = self.val(f["t"], tv, depth + 1)
            if d["post"] and f["n"] == d["post"][0] and v == d["post"][1]:
                v = self.other(f["t"], v)
            fs.append([f["n"], v])
        return ["obj", cid, fs]

    def other(self, t, v):
        for _ in range(20):
            w = self.val(t)
            if w != v:
                return w
        return v

    # ------------------------------------------------------------- classes
    def wire(self, d, f):
        if f["rename"]:
            return f["rename"]
        if d["case"]:
            return getattr(casefy, d["case"])(f["n"])
        return f["n"]

    def known(self, cid):
        d = self.classes[cid]
        if d["transparent"]:
            return set()
        return self.known_fields(d, self.all_fields(cid))

    def known_fields(self, d, fs):
        out = set()
        for f in fs:
            if f["flat"]:
                c = self.flat_child(f)
                if c:
                    out |= self.known(c)
                continue
            out |= {self.wire(d, f), *f["alias"]}
        return out

    def flat_child(self, f):
        t = f["t"][1] if f["t"][0] == "opt" else f["t"]
        return t[1] if t[0] == "cls" else None

    def field(self, n, t):
        return dict(n=n, t=t, rename="", alias=[], skip=False, sser=False, sde=False, sif=[],
                    sfalse=False, snone="unset", sdef="unset", kw=False, init=True, dk="none",
                    dv=["none"], flat=False, fser="", fde=[])

    def default(self, f, tv=None):
        t = f["t"]
        for _ in range(10):
            v = self.val(t, tv) if self.ch(.8) else self.empty(t)
            if v is None:
                continue
            immut = self.immutable(v)
            f["dv"] = v
            f["dk"] = "val" if immut and self.ch(.75) else "fac"
            return
        f["dv"], f["dk"] = self.val(t, tv), "fac"

    def empty(self, t):
        if t[0] == "opt":
            return ["none"]
        if t[0] in ("list", "dict", "set"):
            return [t[0], []]
        return None

    def immutable(self, v):
        k = v[0]
        if k in ("list", "dict", "set", "deque", "counter", "defaultdict", "obj"):
            return False
        if k in ("tuple", "frozenset"):
            return all(self.immutable(x) for x in v[1])
        return True

    def decl(self, name, **kw):
        d = dict(name=name, kind="serde", case="", tag=["external"], tc="strict", deny=False,
                 skipdef=False, skipnone=False, reuse=True, dereuse=True, csets=False,
                 transparent=False, cvars=[], scv=False, bases=[], tvars=[], csers=[], cdesers=[], lsers=[],
                 ldesers=[], fields=[], post=[], py={})
        d.update(kw)
        return d

    def simple_custom_type(self, avail):
        return self.pick([["int"], ["str"], ["float"], ["dt", "datetime"], ["strlike", "Path"],
                          ["strlike", "UUID"], ["strlike", "Decimal"], ["dt", "time"]]
                         + ([["enum", self.pick(sorted(self.enums))]] if self.enums else [])
                         + ([["cls", self.pick(list(avail))]] if avail and self.ch(.4) else []))

    def entries(self, prefix, avail, de):
        """Custom (de)serializers of a class: distinct simple types."""
        out, used = [], []
        for _ in range(self.pick([1, 1, 2, 3])):
            t = self.simple_custom_type(avail)
            if t in used or (t[0] == "cls" and self.classes[t[1]]["tvars"]):
                continue
            if t[0] == "cls" and any(u[0] == "cls" for u in used):
                continue
            if t[0] == "enum" and self.enums[t[1]]["mixin"]:
                continue
            used.append(t)
            n = f"{prefix}{len(self.classes)}{len(out)}"
            if de:
                out.append([t, n, self.val(t) if t != ["str"] and self.ch(.8) else []])
            else:
                out.append([t, n])
        for e in out:
            if de and e[2] == [] and e[0] != ["str"]:
                e[2] = self.val(e[0])
        return out

    def new_class(self, avail, plain=False):
        p, r = self.p, self.r
        cid = f"c{len(self.classes)}"
        used = {d["name"] for d in self.classes.values()}
        name = self.pick([n for n in CLSNAMES if n not in used])
        d = self.decl(name)
        self.classes[cid] = d
        py = d["py"]
        if plain:
            # Without decorator: prepared when the next class, which uses it, is declared.
            d["reuse"] = False
            py.update(style="plain", dc=True)
            return self.body(cid, d, avail)
        if self.ch(p["case"]):
            d["case"] = self.pick(CASES)
        if self.ch(p["tagging"]):
            d["tag"] = self.pick([["external"], ["internal", "type"], ["internal", "kind"],
                                  ["adjacent", "t", "c"], ["adjacent", "type", "content"],
                                  ["untagged"], ["untagged"]])
        x = r.random()
        d["tc"] = ("coerce" if x < p["coerce"] else
                   "disabled" if x < p["coerce"] + p["disabled"] else "strict")
        d["deny"] = self.ch(p["deny"])
        d["skipdef"] = self.ch(p["skipdef"])
        d["skipnone"] = self.ch(p["skipnone"])
        d["csets"] = self.ch(p["csets"])
        if self.ch(p["noreuse"]):
            d["reuse"] = d["dereuse"] = False
        py["future"] = self.ch(p["future"])
        py["style"] = "serde"
        py["dc"] = self.ch(.4)
        if self.ch(p["styles"]):
            py["style"] = self.pick(["sd", "ds"])
            d["reuse"], d["dereuse"] = self.ch(.3), self.ch(.7)
            py["dc"] = True
        py["paren"] = self.ch(.2)
        py["tckw"] = self.ch(.2)
        py["tagkw"] = self.ch(.2)
        if self.ch(p["csers"]):
            d["csers"] = self.entries("cs", avail, False)
            d["cdesers"] = self.entries("cd", avail, True)
        elif self.ch(p["lsers"]):
            d["lsers"] = self.entries("ls", avail, False)
            if self.ch(.5):
                d["ldesers"] = self.entries("ld", avail, True)
        plainavail = [c for c in avail if not self.classes[c]["tvars"]]
        if plainavail and not self.pending and self.ch(p["inherit"]):
            b = self.pick(plainavail)
            bd = self.classes[b]
            if not bd["transparent"] and bd["py"].get("style") != "plain":
                d["bases"] = [b]
                others = [c for c in plainavail if c != b and not self.classes[c]["transparent"]
                          and not self.classes[c]["bases"] and not bd["bases"]
                          and self.classes[c]["py"].get("style") != "plain"]
                if others and self.ch(.2):
                    d["bases"].append(self.pick(others))
                py["dc"] = py["dc"] or py["style"] != "serde"
        elif self.ch(p["generic"]):
            d["tvars"] = r.sample(["T", "U", "V"], self.pick([1, 1, 2]))
        if self.ch(p["cvars"]):
            for _ in range(self.pick([1, 1, 2])):
                n = self.pick([x for x in ("klass", "shared_one", "limitMax")
                               if x not in [v[0] for v in d["cvars"]]])
                t = self.type(None, [])
                while self.has(t, ("enum", "union", "lit", "sub", "cls", "gen", "alias")):
                    t = self.type(None, [])
                d["cvars"].append([n, t, self.val(t)])
            d["scv"] = self.ch(.7) and not d["lsers"]
        if not d["bases"] and not d["tvars"] and self.ch(p["transparent"]) and not self.pending:
            return self.transparent(cid, d, avail)
        return self.body(cid, d, avail)

    def body(self, cid, d, avail):
        p, r, py = self.p, self.r, d["py"]
        if len(d["bases"]) > 1:
            pos = [f["dk"] != "none" for f in self.all_fields(cid) if f["init"] and not f["kw"]]
            if pos != sorted(pos):
                d["bases"].pop()
        inherited = []
        for b in d["bases"]:
            inherited += self.all_fields(b)
        names = {f["n"] for f in inherited}
        lo, hi = p["nf"]
        nf = r.randint(lo, hi)
        if d["bases"]:
            nf = max(nf, 1)
        recursive = (not d["bases"] and not d["tvars"] and self.ch(p["recursive"])
                     and py["style"] != "plain")
        kwonly = self.ch(p["kw"] * .3) and not d["bases"]
        py["kwonly"] = kwonly
        for b in d["bases"]:
            if any(f["dk"] != "none" for f in self.all_fields(b)):
                py["needdef"] = True
        fs = d["fields"]
        if py["style"] != "plain":
            for c in self.pending:
                n = self.pick([x for x in NAMES if x not in names])
                names.add(n)
                f = self.field(n, self.pick([["cls", c], ["opt", ["cls", c]], ["list", ["cls", c], "list"],
                                             ["dict", ["str"], ["cls", c], "dict"]]))
                fs.append(f)
                self.attrs(d, f, avail, False)
                # a class that only a skipped field mentions is not prepared here
                f["skip"] = f["sser"] = f["sde"] = False
            self.pending = []
        for i in range(nf):
            n = self.pick([x for x in NAMES if x not in names])
            over = None
            if inherited and self.ch(p["over"]):
                cand = [g for g in self.all_fields(cid) if not g["flat"] and g["init"]
                        and not g["kw"] and not any(self.classes[b]["py"].get("kwonly") for b in self.ancestors(d))
                        and g["n"] not in [h["n"] for h in fs]]
                if cand:
                    over = self.pick(cand)
                    n = over["n"]
            names.add(n)
            f = self.field(n, ["int"])
            if over:
                f["t"] = over["t"] if self.ch(.3) else self.type(None, avail, None, [])
                if conflated([g["t"] for g in fs] + [f["t"]]):
                    f["t"] = ["int"]
                fs.append(f)
                self.attrs(d, f, avail, False)
                f["kw"], f["init"] = False, True
                if over["dk"] == "none":
                    if f["skip"] or f["sde"]:
                        f["skip"] = f["sde"] = False
                    f["dk"], f["dv"] = "none", ["none"]
                elif f["dk"] == "none":
                    self.default(f)
                continue
            flatavail = [c for c in avail if not self.classes[c]["tvars"] and not self.classes[c]["transparent"]
                         and not self.classes[c]["scv"]]
            if self.ch(p["flat"]) and flatavail:
                c = self.pick(flatavail)
                f["t"] = ["cls", c] if self.ch(.7) else ["opt", ["cls", c]]
                f["flat"] = True
            elif self.ch(p["capture"]) and not any(g["flat"] and not self.flat_child(g) for g in fs):
                f["t"] = self.pick([["dict", ["str"], ["any"], "dict"], ["bare", "dict"],
                                    ["dict", ["str"], ["any"], "typing"]])
                f["flat"] = True
            else:
                f["t"] = self.type(None, avail, None, d["tvars"])
                if recursive and i == nf - 1:
                    py["future"] = py["after"] = True
                    f["t"] = self.pick([["opt", ["cls", cid]], ["list", ["cls", cid], "list"],
                                        ["dict", ["str"], ["cls", cid], "dict"],
                                        ["opt", ["list", ["cls", cid], "list"]]])
                    f["dk"] = "none"
            if conflated([g["t"] for g in fs] + [f["t"]]):
                f["t"] = ["int"]
            fs.append(f)
            self.attrs(d, f, avail, recursive and i == nf - 1)
        self.order(d, inherited)
        self.fix_names(cid, d)
        if self.ch(p["post"]) and not d["tvars"]:
            cand = [f for f in self.all_fields(cid) if f["init"] and not f["skip"] and f["t"][0] in ("int", "str", "bool")]
            if cand:
                f = self.pick(cand)
                exc = self.pick(["ValueError", "Boom", "KeyError", "TypeError", "RuntimeError",
                                 "AttributeError", "IndexError", "LookupError", "AssertionError"])
                v = {"int": ["int", "7"], "str": ["str", "x"], "bool": ["bool", "true"]}[f["t"][0]]
                # class defaults must stay constructible
                if f["dv"] != v or f["dk"] == "none":
                    d["post"] = [f["n"], v, exc, f"boom-{cid}"]
        return cid

    def ancestors(self, d):
        out = []
        for b in d["bases"]:
            out += [b] + self.ancestors(self.classes[b])
        return out

    def attrs(self, d, f, avail, rec):
        p = self.p
        t = f["t"]
        if rec:
            return
        tvar = self.has(t, ("tv",))
        if not f["flat"]:
            if self.ch(p["rename"]):
                f["rename"] = self.pick(RENAMES)
            if self.ch(p["alias"]):
                f["alias"] = self.r.sample(ALIASES, self.pick([1, 1, 2]))
        if not tvar and not (f["flat"] and t[0] == "cls" and self.ch(.8)):
            if self.ch(p["default"]) or (t[0] == "opt" and self.ch(.3)):
                self.default(f)
        if f["flat"]:
            if t[0] in ("dict", "bare") and self.ch(.5):
                f["dk"], f["dv"] = "fac", ["dict", []]
            if self.ch(p["skip"] * .4) and f["dk"] != "none":
                f[self.pick(["sser", "sde", "skip"])] = True
            return
        if self.ch(p["skip"]) and not tvar:
            f["skip"] = True
            if f["dk"] == "none":
                self.default(f)
        if self.ch(p["sser"]):
            f["sser"] = True
        if self.ch(p["sde"]) and not tvar:
            f["sde"] = True
            if f["dk"] == "none":
                self.default(f)
        if self.ch(p["sif"]) and not tvar:
            v = self.val(t)
            if self.simple(v):
                f["sif"] = [v]
        if self.ch(p["sfalse"]):
            f["sfalse"] = True
        if self.ch(p["snone"]):
            f["snone"] = self.pick(["true", "true", "false"])
        if self.ch(p["sdef"]):
            f["sdef"] = self.pick(["true", "true", "false"])
        if self.ch(p["kw"]):
            f["kw"] = True
        if self.ch(p["noinit"]) and not tvar:
            f["init"] = False
            if f["dk"] == "none":
                self.default(f)
        if self.ch(p["fser"]):
            f["fser"] = self.pick(["default"] + [f"fs{f['n']}"] * 2)
        if self.ch(p["fde"]) and not tvar:
            f["fde"] = self.pick([["default"], ["", f"fd{f['n']}", self.val(t)],
                                  ["", f"fd{f['n']}", self.val(t)]])
            if t == ["str"] and self.ch(.5):
                f["fde"] = ["", f"fd{f['n']}", []]

    def simple(self, v):
        return v[0] in ("int", "float", "str", "bool", "none") or v in (["list", []], ["dict", []])

    def order(self, d, inherited):
        """Fields without default may not follow fields with one."""
        if d["py"].get("kwonly"):
            return
        inh = {f["n"] for f in inherited}
        fs = [f for f in d["fields"] if f["n"] not in inh]
        base_def = any(f["dk"] != "none" and f["init"] and not f["kw"] for f in inherited)
        if base_def:
            for f in fs:
                if f["dk"] == "none" and not f["kw"] and f["init"]:
                    f["kw"] = True
        pos = [f for f in fs if not f["kw"] and f["init"]]
        seen = False
        for f in pos:
            if f["dk"] != "none":
                seen = True
            elif seen:
                if self.ch(.5) or self.has(f["t"], ("tv",)):
                    f["kw"] = True
                elif f["t"][0] == "cls" and f["flat"]:
                    f["kw"] = True
                else:
                    self.default(f) if not self.self_ref(f) else f.__setitem__("kw", True)

    def self_ref(self, f):
        return self.has(f["t"], ("cls",))

    def fix_names(self, cid, d):
        """Distinct names on the wire."""
        fs = self.all_fields(cid)
        seen = set()
        inh = {id(f) for b in d["bases"] for f in self.all_fields(b)}
        for f in fs:
            if f["flat"]:
                c = self.flat_child(f)
                ks = self.known(c) if c else set()
                if c and (ks & seen) and id(f) not in inh:
                    f["flat"] = False
                    f["skip"] = f["sser"] = f["sde"] = False
                    ks = {self.wire(d, f)}
                seen |= ks
                continue
            f_alias = [a for a in f["alias"] if a not in seen]
            if id(f) not in inh:
                f["alias"] = f_alias
            w = self.wire(d, f)
            i = 0
            while w in seen and id(f) not in inh:
                f["rename"] = f"rn{i}"
                i += 1
                w = f["rename"]
            seen |= {w, *f["alias"]}
        # tags of internally tagged members
        if d["tag"][0] == "internal" and self.ch(.9) and d["tag"][1] in seen:
            d["tag"] = ["external"]
        names = [x for f in fs if not f["flat"] for x in [self.wire(d, f)] + f["alias"]]
        if len(names) != len(set(names)) and d["bases"]:
            d["case"] = ""

    def transparent(self, cid, d, avail):
        d["transparent"] = True
        d["deny"] = d["scv"] = False
        f = self.field(self.pick(NAMES), self.type(None, avail))
        if self.ch(.3):
            f["rename"] = self.pick(RENAMES)
        if self.ch(.2):
            f["alias"] = ["al1"]
        if self.ch(.15):
            f["fser"] = "fst"
        if self.ch(.15):
            f["fde"] = ["", "fdt", self.val(f["t"])]
        if self.ch(.2):
            self.default(f)
        if self.ch(.2):
            f["kw"] = True
        d["fields"] = [f]
        if self.ch(.3):
            g = self.field("skipped", ["int"])
            g.update(skip=True, init=False, dk="val", dv=["int", "5"])
            if self.ch(.4):
                g.update(skip=False, sser=True, sde=True)
            d["fields"].insert(self.pick([0, 1]), g)
        if self.ch(self.p.get("badtrans", .02)):
            d["fields"].append(self.field("extra", ["int"]) if f["dk"] == "none" else
                               dict(self.field("extra", ["int"]), dk="val", dv=["int", "1"]))
        d["skipdef"] = d["skipnone"] = False
        return cid

    # ------------------------------------------------------------- events
    def e(self, **ev):
        self.events.append(ev)
        return len(self.events)       # 1-based, as the specification counts

    def opt3(self, q=.6):
        return "unset" if self.ch(q) else self.pick(["true", "false"])

    def ser_ev(self, v, c, fn=None):
        return self.e(op="ser", fn=fn or self.pick(["dict", "dict", "tuple"]), v=v, c=c,
                      reuse=self.opt3(), csets=self.opt3(.7), sn=self.ch(.12))

    def de_ev(self, src, c, mut=0, pool=()):
        s = self.events[src - 1]
        ev = dict(op="de", fn=s["fn"], c=c, reuse=s["reuse"] if not mut and self.ch(.8) else self.opt3())
        ev["from"] = src - 1
        if mut:
            ev["mut"] = mut
            ev["pool"] = list(pool)
        else:
            ev["back"] = src
            if ev["reuse"] != s["reuse"] or s["sn"]:
                ev.pop("back")
        return self.e(**ev)

    def pool(self, cid):
        ks = set()
        for c in self.classes:
            ks |= self.known(c)
            ks |= {f["n"] for f in self.all_fields(c)}
        return sorted(ks) + ["unknown", "zzz", "type", "u1", ""]

    def drive(self, c, v, pool):
        """Calls around one value of one type."""
        p = self.p
        tagged = c[0] in ("union", "tagged")
        for fn in (["dict", "tuple"] if self.ch(.6) else ["dict"]):
            i = self.ser_ev(v, c if tagged else [], fn)
            if self.ch(.95):
                self.de_ev(i, c)
            if self.ch(p["again"]):
                s = dict(self.events[i - 1])
                self.e(**s)
            for _ in range(p["nmut"]):
                self.de_ev(i, c, mut=self.r.randrange(1, 10**9), pool=pool)
        for _ in range(p["nfmt"]):
            self.fmt_ev(c, v, pool, tagged)

    def fmt_ev(self, c, v, pool, tagged):
        p = self.p
        fmt = self.pick(p["fmts"])
        ev = dict(op="fser", fmt=fmt, v=v, c=c if tagged else [], sn=self.opt3(.8),
                  reuse=self.opt3(.9), csets=self.opt3(.9), named="unset", ext=False, opts=[],
                  orj=self.orj, sorted=False, wantText="")
        if fmt == "msgpack":
            ev["named"] = self.pick(["unset", "true", "false"])
            if v[0] == "obj" and self.ch(.2):
                ev["ext"] = True
        if p.get("copts") and self.ch(p["copts"]):
            if fmt == "json" and not self.orj:
                if self.ch(.5):
                    ev["opts"] = [["indent", 2]]
                    ev["wantText"] = "lines"
                else:
                    ev["opts"] = [["sort_keys", True]]
                    ev["sorted"] = True
            elif fmt == "yaml":
                ev["opts"] = [["sort_keys", False]]
            elif fmt == "pickle":
                ev["opts"] = [["protocol", 2]]
        if v[0] != "obj" or self.classes[v[1]]["transparent"]:
            ev["wantText"] = ""
        i = self.e(**ev)
        de = dict(op="fde", fmt=fmt, c=c,
                  cn=self.opt3(.6) if fmt in ("json", "yaml") else "unset", named=ev["named"], ext=ev["ext"])
        de["from"] = i - 1
        if ev["sn"] == "unset" and ev["reuse"] == "unset" and not (ev["named"] == "false" and False):
            de["back"] = i
        self.e(**de)
        if self.ch(p["fmtmut"]):
            de2 = {k: x for k, x in de.items() if k != "back"}
            de2.update(mut=self.r.randrange(1, 10**9), pool=list(pool), ext=False)
            self.e(**de2)

    def top_type(self):
        avail = [c for c in self.classes]
        x = self.r.random()
        if x < .3:
            ms = self.union(1, [c for c in avail if not self.classes[c]["tvars"]])
            if ms[0] == "union":
                ms = ms[1]
                if self.ch(.4):
                    return ["union", ms]
                return ["tagged", ms, self.pick([["external"], ["internal", "type"],
                                                 ["adjacent", "t", "c"], ["untagged"]])]
        for _ in range(9):
            t = self.type(2, avail)
            if t[0] != "none":
                return t
        return ["int"]

    def new_ev(self, cid):
        """A constructor call, sometimes with a value of the wrong type."""
        o = self.obj(cid)
        kw = []
        for f in self.all_fields(cid):
            if not f["init"]:
                continue
            if f["dk"] != "none" and self.ch(.4):
                continue
            v = dict((a, b) for a, b in o[2])[f["n"]]
            if self.ch(.25):
                v = copy.deepcopy(self.pick(mutate.LEAVES))
            kw.append([f["n"], v])
        self.e(op="new", c=cid, kw=kw)

    def session(self, sid, orj):
        p, r = self.p, self.r
        self.orj = orj
        n = r.randint(*p["ncls"])
        regs = self.ch(p["regs"])
        later = []
        for i in range(n):
            if regs and self.ch(.5) and not self.pending:
                self.register()
            self.building = f"c{len(self.classes)}"
            plain = i < n - 1 and self.ch(p["plain"])
            cid = self.new_class([c for c in self.classes], plain)
            if plain:
                self.pending.append(cid)
            self.building = None
            self.e(op="decl", c=list(self.classes)[-1])
        bad = {c for c, d in self.classes.items() if d["transparent"] and len([f for f in d["fields"] if f["init"] and not f["skip"]]) != 1}
        if bad:
            # a rejected declaration ends the session
            k = min(int(c[1:]) for c in bad)
            cut = next(i for i, e in enumerate(self.events) if e["op"] == "decl" and e["c"] == f"c{k}")
            self.events = self.events[:cut + 1]
            for c in list(self.classes):
                if int(c[1:]) > k:
                    del self.classes[c]
            return self.finish(sid)
        usable = [c for c in self.classes if not self.classes[c]["tvars"]]
        gens = [c for c in self.classes if self.classes[c]["tvars"]]
        pool = self.pool(None)
        work = []
        for c in usable:
            for _ in range(p["nval"]):
                work.append((["cls", c], None))
            for _ in range(p["nnew"]):
                work.append((c, "new"))
            for _ in range(p["nrand"]):
                work.append((["cls", c], "rand"))
        for c in gens:
            for _ in range(p["nval"]):
                work.append((["gen", c, [self.targ(usable) for _ in self.classes[c]["tvars"]]], None))
        for _ in range(p["ntop"]):
            work.append((self.top_type(), None))
        r.shuffle(work)
        if regs and self.ch(.6):
            work.insert(r.randrange(len(work) + 1), (None, "reg"))
        for c, what in work:
            if what == "new":
                self.new_ev(c)
            elif what == "reg":
                self.register()
            elif what == "rand":
                d = self.rand_tree()
                self.e(op="de", fn=self.pick(["dict", "dict", "tuple"]), c=c, d=d, reuse=self.opt3())
            else:
                t = ["union", c[1]] if c[0] == "tagged" else c
                v = self.val(t)
                self.drive(c, v, pool)
                if self.ch(p["badval"]):
                    w = self.break_value(v)
                    self.ser_ev(w, c if c[0] in ("union", "tagged") else [])
        return self.finish(sid)

    def break_value(self, v):
        """An object whose attributes were assigned something else."""
        v = copy.deepcopy(v)
        if v[0] == "obj" and v[2]:
            self.pick(v[2])[1] = copy.deepcopy(self.pick(mutate.LEAVES))
        return v

    def rand_tree(self, depth=0):
        x = self.r.random()
        if depth > 2 or x < .3:
            return copy.deepcopy(self.pick(mutate.LEAVES))
        if x < .6:
            ks = self.r.sample(self.pool(None), min(3, len(self.pool(None))))
            return ["dict", [[["str", k], self.rand_tree(depth + 1)] for k in dict.fromkeys(ks)]]
        return [self.pick(["list", "tuple"]), [self.rand_tree(depth + 1) for _ in range(self.r.randint(0, 4))]]

    def register(self):
        t = self.simple_custom_type([c for c in self.classes if not self.classes[c]["tvars"]])
        if t[0] == "enum" and self.enums[t[1]]["mixin"]:
            t = ["dt", "datetime"]
        n = f"g{len(self.events)}"
        if self.ch(.6):
            self.e(op="addS", t=t, name=n)
        if self.ch(.6):
            self.e(op="addD", t=t, name=n, const=[] if t == ["str"] else self.val(t))

    def finish(self, sid):
        return {"id": sid, "classes": self.classes, "enums": self.enums, "events": self.events,
                "tvars": ["T", "U", "V"], "env": {}}
