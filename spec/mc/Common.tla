------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Vocabulary of the bounded families: declarations, values and calls.     *)
(* Types are heterogeneous tuples, so families are sequences, not sets.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Map(s, Op(_)) == [i \in DOMAIN s |-> Op(s[i])]
Cross(a, b, Op(_, _)) ==
  [i \in 1..(Len(a) * Len(b)) |-> Op(a[((i - 1) \div Len(b)) + 1], b[((i - 1) % Len(b)) + 1])]
Flat(ss) == FlattenSeq(ss)
FlatMap(s, Op(_)) == FlattenSeq([i \in DOMAIN s |-> Op(s[i])])
Filter(s, Test(_)) == SelectSeq(s, Test)
Cut(s, i, n) == SubSeq(s, i, IF i + n - 1 < Len(s) THEN i + n - 1 ELSE Len(s))
Chunks(s, n) == [i \in 1..((Len(s) + n - 1) \div n) |-> Cut(s, (i - 1) * n + 1, n)]
Nth(s, i) == s[((i - 1) % Len(s)) + 1]

\* ---------------------------------------------------------------- declarations
Field(n, t) ==
  [n |-> n, t |-> t, rename |-> "", alias |-> <<>>, skip |-> FALSE, sser |-> FALSE, sde |-> FALSE,
   sif |-> <<>>, sfalse |-> FALSE, snone |-> "unset", sdef |-> "unset", kw |-> FALSE, init |-> TRUE,
   dk |-> "none", dv |-> <<"none">>, flat |-> FALSE, fser |-> "", fde |-> <<>>]
Py == [style |-> "serde"]
Class(name, fs) ==
  [name |-> name, kind |-> "serde", case |-> "", tag |-> <<"external">>, tc |-> "strict",
   deny |-> FALSE, skipdef |-> FALSE, skipnone |-> FALSE, reuse |-> TRUE, dereuse |-> TRUE,
   csets |-> FALSE, cvars |-> <<>>, scv |-> FALSE, transparent |-> FALSE, bases |-> <<>>, tvars |-> <<>>, csers |-> <<>>,
   cdesers |-> <<>>, lsers |-> <<>>, ldesers |-> <<>>, fields |-> fs, post |-> <<>>, py |-> Py]
Default(f, v) == [f EXCEPT !.dk = "val", !.dv = v]
Factory_(f, v) == [f EXCEPT !.dk = "fac", !.dv = v]

\* ---------------------------------------------------------------- values
I(x) == <<"int", x>>
S(x) == <<"str", x>>
None == <<"none">>
L(s) == <<"list", s>>
D(ps) == <<"dict", ps>>
P(k, v) == <<S(k), v>>
Obj(c, fs) == <<"obj", c, fs>>

Enums ==
  [e0 |-> [mixin |-> "", name |-> "Color", members |-> << <<"RED", I("1")>>, <<"BLUE", I("2")>> >>],
   e1 |-> [mixin |-> "", name |-> "Mode", members |-> << <<"ON", S("on")>>, <<"FIVE", S("5")>> >>],
   e2 |-> [mixin |-> "", name |-> "Pair", members |-> << <<"P", <<"tuple", <<I("1"), S("t")>> >> >>,
                                                        <<"Q", <<"tuple", <<I("2"), S("t")>> >> >> >>],
   e3 |-> [mixin |-> "", name |-> "Mix", members |-> << <<"A", I("3")>>, <<"B", S("s")>>,
                                                       <<"C", <<"float", "2.5">> >> >>],
   e4 |-> [mixin |-> "int", name |-> "Level", intenum |-> TRUE,
           members |-> << <<"LOW", I("1")>>, <<"HIGH", I("10")>> >>],
   e5 |-> [mixin |-> "", name |-> "Flt", members |-> << <<"F", <<"float", "1.5">> >>, <<"G", <<"float", "0.1">> >> >>]]
En(e, m) == <<"enum", e, m>>
UU == "a8098c1a-f86e-11da-bd1a-00112444be1e"

\* Leaf types with some of their values.
Leaves == <<
  [t |-> <<"int">>, vs |-> <<I("5"), I("0"), I("-1")>>],
  [t |-> <<"str">>, vs |-> <<S("a"), S(""), S("5")>>],
  [t |-> <<"float">>, vs |-> << <<"float", "1.5">>, <<"float", "0.0">>, <<"float", "3.0">> >>],
  [t |-> <<"bool">>, vs |-> << <<"bool", "true">>, <<"bool", "false">> >>],
  [t |-> <<"strlike", "UUID">>, vs |-> << <<"UUID", UU>> >>],
  [t |-> <<"strlike", "Decimal">>, vs |-> << <<"Decimal", "1.5">>, <<"Decimal", "0">>, <<"Decimal", "1E+3">> >>],
  [t |-> <<"strlike", "Path">>, vs |-> << <<"Path", "a/b">>, <<"Path", ".">> >>],
  [t |-> <<"strlike", "PurePosixPath">>, vs |-> << <<"PurePosixPath", "p/q">> >>],
  [t |-> <<"strlike", "PureWindowsPath">>, vs |-> << <<"PureWindowsPath", "z">> >>],
  [t |-> <<"strlike", "PurePath">>, vs |-> << <<"PurePosixPath", "p/q">> >>],
  [t |-> <<"strlike", "IPv4Address">>, vs |-> << <<"IPv4Address", "127.0.0.1">> >>],
  [t |-> <<"strlike", "IPv6Address">>, vs |-> << <<"IPv6Address", "::1">> >>],
  [t |-> <<"strlike", "IPv4Network">>, vs |-> << <<"IPv4Network", "10.0.0.0/30">> >>],
  [t |-> <<"strlike", "IPv6Network">>, vs |-> << <<"IPv6Network", "2001:db8::/126">> >>],
  [t |-> <<"strlike", "IPv4Interface">>, vs |-> << <<"IPv4Interface", "10.0.0.1/8">> >>],
  [t |-> <<"strlike", "IPv6Interface">>, vs |-> << <<"IPv6Interface", "::1/128">> >>],
  [t |-> <<"dt", "datetime">>, vs |-> << <<"datetime", "datetime.datetime(2020, 1, 2, 3, 4, 5)">>,
                                         <<"datetime", "datetime.datetime(2021, 6, 1, 0, 0, tzinfo=datetime.timezone.utc)">> >>],
  [t |-> <<"dt", "date">>, vs |-> << <<"date", "datetime.date(2020, 1, 2)">> >>],
  [t |-> <<"dt", "time">>, vs |-> << <<"time", "datetime.time(1, 2)">> >>],
  [t |-> <<"enum", "e0">>, vs |-> <<En("e0", "RED"), En("e0", "BLUE")>>],
  [t |-> <<"enum", "e1">>, vs |-> <<En("e1", "ON"), En("e1", "FIVE")>>],
  [t |-> <<"enum", "e2">>, vs |-> <<En("e2", "P"), En("e2", "Q")>>],
  [t |-> <<"enum", "e3">>, vs |-> <<En("e3", "A"), En("e3", "B"), En("e3", "C")>>],
  [t |-> <<"enum", "e4">>, vs |-> <<En("e4", "LOW"), En("e4", "HIGH")>>],
  [t |-> <<"lit", <<S("a"), I("2"), <<"bool", "false">> >> >>, vs |-> <<S("a"), I("2"), <<"bool", "false">> >>],
  [t |-> <<"newtype", "UserId", "int">>, vs |-> <<I("5"), I("0")>>],
  [t |-> <<"sub", "MyInt", "int">>, vs |-> << <<"sub", "MyInt", I("5")>>, <<"sub", "MyInt", I("0")>> >>],
  [t |-> <<"sub", "MyStr", "str">>, vs |-> << <<"sub", "MyStr", S("a")>> >>],
  [t |-> <<"any">>, vs |-> <<I("5"), None, S("a"), L(<<I("1")>>)>>],
  [t |-> <<"cls", "L">>, vs |-> <<Obj("L", << <<"n", I("1")>>, <<"s", S("q")>> >>),
                                  Obj("L", << <<"n", I("0")>>, <<"s", S("")>> >>)>>]
>>
TheInt == Leaves[1]
TheStr == Leaves[2]
LeafNo(ks) == [i \in DOMAIN ks |-> Leaves[ks[i]]]
\* int, str, UUID, Decimal, date, enum, class: what the deeper types are made of
Core == LeafNo(<<1, 5, 18, 20, 30>>)

LeafDecl == <<"L", Class("Leaf", <<Field("n", <<"int">>), Default(Field("s", <<"str">>), S("q"))>>)>>

IsHashable(l) == l.t[1] \notin {"any", "cls", "gen", "bare", "list", "set", "deque", "dict", "ddict", "counter", "opt", "union"}
                 /\ (l.t[1] = "enum" => l.t[2] # "e2")
                 /\ ~(l.t[1] = "lit") /\ ~(l.t[1] \in {"vtuple", "tuple", "frozenset"})
Two(vs) == IF Len(vs) > 1 THEN <<vs[1], vs[2]>> ELSE <<vs[1]>>
One(vs) == <<vs[1]>>
FactoryName(t) == CASE t[1] \in {"list", "dict", "set", "int", "str", "float"} -> t[1] [] OTHER -> t[1]

\* ---------------------------------------------------------------- types built from others
TList(l, ann) == [t |-> <<"list", l.t, ann>>, vs |-> <<L(Two(l.vs)), L(<<>>), L(One(l.vs))>>]
TDeque(l) == [t |-> <<"deque", l.t>>, vs |-> << <<"deque", Two(l.vs)>>, <<"deque", <<>> >> >>]
TVTuple(l) == [t |-> <<"vtuple", l.t>>, vs |-> << <<"tuple", Two(l.vs)>>, <<"tuple", <<>> >> >>]
TTuple(l, m) == [t |-> <<"tuple", <<l.t, m.t>> >>,
                 vs |-> << <<"tuple", <<l.vs[1], m.vs[1]>> >>,
                           <<"tuple", <<l.vs[Len(l.vs)], m.vs[Len(m.vs)]>> >> >>]
TSet(l, ann) == [t |-> <<"set", l.t, ann>>, vs |-> << <<"set", Two(l.vs)>>, <<"set", <<>> >>, <<"set", One(l.vs)>> >>]
TFrozen(l) == [t |-> <<"frozenset", l.t>>, vs |-> << <<"frozenset", Two(l.vs)>>, <<"frozenset", <<>> >> >>]
TDictV(l, ann) == [t |-> <<"dict", <<"str">>, l.t, ann>>,
                   vs |-> <<D(<<P("k", l.vs[1])>>), D(<<>>),
                            D(<<P("k", l.vs[1]), P("m", l.vs[Len(l.vs)])>>)>>]
TDictK(l, m) == [t |-> <<"dict", l.t, m.t, "dict">>,
                 vs |-> <<D([i \in 1..Len(Two(l.vs)) |-> <<l.vs[i], Nth(m.vs, i)>>]), D(<<>>)>>]
TDDict(k, f, v) == [t |-> <<"ddict", k.t, f.t>>,
                    vs |-> << <<"defaultdict", FactoryName(f.t), << <<k.vs[1], v>> >> >>,
                              <<"defaultdict", FactoryName(f.t), <<>> >> >>]
TCounter(l) == [t |-> <<"counter", l.t>>, vs |-> << <<"counter", << <<l.vs[1], I("3")>> >> >>, <<"counter", <<>> >> >>]
TOpt(l) == [t |-> <<"opt", l.t>>, vs |-> <<l.vs[1], None, l.vs[Len(l.vs)]>>]
TUnion(ls) == [t |-> <<"union", [i \in DOMAIN ls |-> ls[i].t]>>,
               vs |-> [i \in DOMAIN ls |-> ls[i].vs[1]]]

\* ---------------------------------------------------------------- events
\* Events refer to earlier ones of their block by 0-based positions; Join makes
\* them absolute.
Decl_(c) == [op |-> "decl", c |-> c]
SerE(fn, v, c, reuse, csets, sn) ==
  [op |-> "ser", fn |-> fn, v |-> v, c |-> c, reuse |-> reuse, csets |-> csets, sn |-> sn]
Ser_(v) == SerE("dict", v, <<>>, "unset", "unset", FALSE)
SerT(v) == SerE("tuple", v, <<>>, "unset", "unset", FALSE)
DeE(fn, c, reuse, d) == [op |-> "de", fn |-> fn, c |-> c, reuse |-> reuse, d |-> d]
De_(c, d) == DeE("dict", c, "unset", d)
DeT(c, d) == DeE("tuple", c, "unset", d)
\* reads what the ser event at the position gave
DeBack(fn, c, reuse, from) ==
  [op |-> "de", fn |-> fn, c |-> c, reuse |-> reuse, from |-> from, back |-> from + 1]
\* reads it after changes
DeEdit(fn, c, reuse, from, edits) ==
  [op |-> "de", fn |-> fn, c |-> c, reuse |-> reuse, from |-> from, edit |-> edits]
NewE(c, kw) == [op |-> "new", c |-> c, kw |-> kw]
AddS(t, name) == [op |-> "addS", t |-> t, name |-> name]
AddD(t, name, const) == [op |-> "addD", t |-> t, name |-> name, const |-> const]
FSer(fmt, v, c) ==
  [op |-> "fser", fmt |-> fmt, v |-> v, c |-> c, reuse |-> "unset", csets |-> "unset", sn |-> "unset",
   named |-> "unset", ext |-> FALSE, sorted |-> FALSE, wantText |-> "", opts |-> <<>>, orj |-> FALSE]
FDeBack(fmt, c, from) ==
  [op |-> "fde", fmt |-> fmt, c |-> c, cn |-> "unset", named |-> "unset", ext |-> FALSE,
   strict |-> "unset", from |-> from, back |-> from + 1, opts |-> <<>>]
FDeEdit(fmt, c, from, edits) ==
  [op |-> "fde", fmt |-> fmt, c |-> c, cn |-> "unset", named |-> "unset", ext |-> FALSE,
   strict |-> "unset", from |-> from, edit |-> edits, opts |-> <<>>]
FDe(fmt, c, d) ==
  [op |-> "fde", fmt |-> fmt, c |-> c, cn |-> "unset", named |-> "unset", ext |-> FALSE,
   strict |-> "unset", d |-> d, opts |-> <<>>]

\* There and back, in one way or in all of them.
RT(fn, v, c, reuse, csets) ==
  <<SerE(fn, v, c, reuse, csets, FALSE), DeBack(fn, c, reuse, 0)>>
RTs(v, c) == << RT("dict", v, c, "unset", "unset"), RT("dict", v, c, "true", "unset"),
                RT("dict", v, c, "false", "true"), RT("dict", v, c, "true", "false"),
                RT("tuple", v, c, "unset", "unset"), RT("tuple", v, c, "false", "true") >>
Fmts == <<"json", "yaml", "toml", "msgpack", "pickle">>
FRT(fmt, v, c) == <<FSer(fmt, v, c), FDeBack(fmt, c, 0)>>

\* Changes to a tree: << <<"drop", key>>, <<"set", key, v>>, <<"ren", key, key2>>,
\* <<"add", key, v>>, <<"rev">>, <<"cut">>, <<"app", v>>, <<"nth", i, v>>, <<"whole", v>> >>

HasF(r, k) == k \in DOMAIN r
Shift(ev, n) ==
  LET a == IF HasF(ev, "from") THEN [ev EXCEPT !.from = @ + n] ELSE ev
  IN IF HasF(a, "back") THEN [a EXCEPT !.back = @ + n] ELSE a
Join(start, blocks) ==
  LET Add(acc, b) == acc \o [i \in DOMAIN b |-> Shift(b[i], Len(acc))]
  IN FoldLeft(Add, start, blocks)
One_(ev) == <<ev>>
Singles(evs) == [i \in DOMAIN evs |-> <<evs[i]>>]

\* Classes in the order they are declared: a sequence of <<id, declaration>>.
Of(cs) == LET ids == {cs[i][1] : i \in DOMAIN cs}
              at == [c \in ids |-> CHOOSE i \in DOMAIN cs : cs[i][1] = c]
          IN [c \in ids |-> cs[at[c]][2]]
Decls(cs) == [i \in DOMAIN cs |-> Decl_(cs[i][1])]
Session(cs, blocks) ==
  [classes |-> Of(cs), enums |-> Enums, tvars |-> <<"T", "U", "K">>,
   events |-> Join(Decls(cs), blocks)]
\* The same with events between the declarations: before each class its own ones.
SessionR(cs, before, blocks) ==
  [classes |-> Of(cs), enums |-> Enums, tvars |-> <<"T", "U", "K">>,
   events |-> Join(FlatMap([i \in DOMAIN cs |-> before[i] \o <<Decl_(cs[i][1])>>],
                           LAMBDA x : x), blocks)]
=============================================================================
