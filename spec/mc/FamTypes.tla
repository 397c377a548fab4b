------------------------------ MODULE FamTypes ------------------------------
(***************************************************************************)
(* Families over types: every leaf type, every container of every leaf,    *)
(* and containers of containers.                                           *)
(***************************************************************************)
EXTENDS Common

Cont(l) ==
  <<TList(l, "list"), TDeque(l), TVTuple(l), TTuple(l, TheInt), TDictV(l, "dict"), TOpt(l)>>
  \o (IF IsHashable(l) THEN <<TSet(l, "set"), TFrozen(l), TCounter(l), TDictK(l, TheStr)>> ELSE <<>>)
  \o (IF l.t[1] \in {"int", "str", "list"}
      THEN <<TDDict(TheStr, l, l.vs[1])>> ELSE <<>>)
ContFew(l) ==
  <<TList(l, "list"), TDictV(l, "dict"), TTuple(TheStr, l), TOpt(l), TVTuple(l), TDeque(l)>>
NoOpt(l) == l.t[1] # "opt"

Abstract == <<TList(TheInt, "typing"), TList(TheStr, "seq"), TList(TheInt, "mutseq"), TList(TheInt, "tseq"),
              TSet(TheInt, "typing"), TSet(TheStr, "mutset"), TSet(TheInt, "absset"),
              TDictV(TheInt, "typing"), TDictV(TheInt, "mapping"), TDictV(TheStr, "mutmap"),
              TDictV(TheInt, "tmapping"),
              [t |-> <<"bare", "list">>, vs |-> <<L(<<I("1"), S("a")>>), L(<<>>)>>],
              [t |-> <<"bare", "dict">>, vs |-> <<D(<<P("k", I("1"))>>), D(<<>>)>>],
              [t |-> <<"bare", "tuple">>, vs |-> << <<"tuple", <<I("1")>> >> >>],
              [t |-> <<"bare", "set">>, vs |-> << <<"set", <<I("1")>> >> >>],
              [t |-> <<"bare", "frozenset">>, vs |-> << <<"frozenset", <<S("a")>> >> >>],
              [t |-> <<"bare", "deque">>, vs |-> << <<"deque", <<S("a"), I("1")>> >> >>],
              [t |-> <<"bare", "counter">>, vs |-> << <<"counter", << <<S("a"), I("2")>> >> >> >>]>>

\* int, str, float, UUID, Decimal, date, enums, literal, class
Inner == LeafNo(<<1, 2, 3, 5, 6, 18, 20, 22, 25, 30>>)
Depth1 == FlatMap(Leaves, Cont)
Depth2 == FlatMap(Filter(FlatMap(LeafNo(<<1, 5, 18, 20, 30>>), Cont), NoOpt), ContFew)
          \o FlatMap(FlatMap(LeafNo(<<1, 5, 30>>), LAMBDA l : <<TOpt(l)>>), 
                     LAMBDA o : <<TList(o, "list"), TDictV(o, "dict"), TTuple(o, TheInt), TVTuple(o)>>)
AllTypes == Leaves \o Abstract \o Depth1 \o Depth2

FName(i) == "f" \o ToString(i)
FieldsOf(ts) == [i \in DOMAIN ts |-> Field(FName(i), ts[i].t)]
ObjOf(c, ts, j) == Obj(c, [i \in DOMAIN ts |-> <<FName(i), Nth(ts[i].vs, j)>>])

\* Class options in turn.
Opt4(c, n) ==
  CASE n % 4 = 1 -> [c EXCEPT !.reuse = FALSE]
    [] n % 4 = 2 -> [c EXCEPT !.csets = TRUE]
    [] n % 4 = 3 -> [c EXCEPT !.reuse = FALSE, !.csets = TRUE]
    [] OTHER -> c

\* Types as they are spread over the families: a few per class, in an order
\* that mixes small and deep ones.
Mixed(ts, k) ==
  LET n == (Len(ts) + k - 1) \div k
      Row(i) == [j \in 1..k |-> i + (j - 1) * n]
      Ok(x) == x <= Len(ts)
  IN [i \in 1..n |-> LET r == Filter(Row(i), Ok) IN [j \in DOMAIN r |-> ts[r[j]]]]

\* ---------------------------------------------------------------- dict and tuple
TypeSession(ts, n) ==
  LET cs == <<LeafDecl, <<"A", Opt4(Class("Alpha", FieldsOf(ts)), n)>> >>
      vs == [j \in 1..3 |-> ObjOf("A", ts, j)]
  IN Session(cs, FlatMap(vs, LAMBDA v : RTs(v, <<"cls", "A">>)))
TypeFamily(zz) == LET m == Mixed(AllTypes, 5) IN [n \in DOMAIN m |-> TypeSession(m[n], n)]

\* ---------------------------------------------------------------- handed to the API
TopBlocks(ty) ==
  FlatMap(Two(ty.vs), LAMBDA v :
    << <<SerE("dict", v, <<>>, "unset", "unset", FALSE), DeBack("dict", ty.t, "unset", 0)>>,
       <<SerE("tuple", v, <<>>, "unset", "unset", FALSE), DeBack("tuple", ty.t, "unset", 0)>>,
       <<SerE("dict", v, <<>>, "false", "true", FALSE), DeBack("dict", ty.t, "false", 0)>>,
       <<SerE("dict", v, <<>>, "true", "false", FALSE), DeBack("dict", ty.t, "true", 0)>> >>)
TopSession(ts) == Session(<<LeafDecl>>, FlatMap(ts, TopBlocks))
\* Not handed to the API: types that are no class or container there.
Arg(t) == CASE t[1] \in {"list", "deque", "set", "frozenset", "vtuple", "opt", "counter"} -> <<t[2]>>
            [] t[1] \in {"dict", "ddict"} -> <<t[2], t[3]>>
            [] t[1] \in {"tuple", "union"} -> t[2]
            [] OTHER -> <<>>
RECURSIVE TopT(_)
TopT(t) == t[1] \notin {"newtype", "any"} /\ \A i \in DOMAIN Arg(t) : TopT(Arg(t)[i])
Topable(ty) == TopT(ty.t)
TopFamily(zz) == LET m == Mixed(Filter(AllTypes, Topable), 6) IN [n \in DOMAIN m |-> TopSession(m[n])]

\* ---------------------------------------------------------------- data of any other kind
Pool == <<
  None, <<"bool", "true">>, <<"bool", "false">>, I("0"), I("5"), <<"float", "1.5">>, <<"float", "3.0">>,
  S(""), S("a"), S("5"), S("1.5"), S("true"), S(UU), S("2020-01-02"), S("2020-01-02T03:04:05"),
  S("127.0.0.1"), S("RED"), S("on"),
  L(<<>>), L(<<I("1")>>), L(<<S("a")>>), L(<<S("a"), I("1")>>), L(<<I("1"), S("t")>>), L(<<None>>),
  <<"tuple", <<S("a")>> >>, <<"tuple", <<I("1"), I("2")>> >>, <<"set", <<I("1")>> >>,
  D(<<>>), D(<<P("k", I("1"))>>), D(<<P("k", S("a"))>>), D(<<P("n", I("1"))>>),
  D(<<P("n", I("1")), P("s", S("z"))>>), D(<<P("n", S("1"))>>), D(<<P("1", I("1"))>>),
  En("e0", "RED"), <<"Path", "a/b">>, <<"UUID", UU>>, <<"date", "datetime.date(2020, 1, 2)">>,
  <<"datetime", "datetime.datetime(2020, 1, 2, 3, 4, 5)">>,
  Obj("L", << <<"n", I("1")>>, <<"s", S("q")>> >>)>>
Tcs == <<"strict", "coerce", "disabled">>
KindTypes == Leaves \o Abstract \o FlatMap(LeafNo(<<1, 2, 3, 5, 16, 18, 20, 25, 26, 30>>), Cont)
             \o <<TList(TList(TheInt, "list"), "list"), TOpt(TDictV(TheInt, "dict")),
                  TDictV(TList(Leaves[5], "list"), "dict")>>
             \o <<TUnion(<<TheInt, TheStr>>), TUnion(<<TheStr, Leaves[3]>>), TOpt(TUnion(<<TheInt, TList(TheStr, "list")>>))>>
KindSession(ts, tc, reuse) ==
  LET id(i) == "A" \o ToString(i)
      cs == <<LeafDecl>> \o [i \in DOMAIN ts |->
              <<id(i), [Class("C" \o ToString(i), <<Field("f", ts[i].t)>>) EXCEPT !.tc = tc]>>]
      Calls(i) == FlatMap(Pool, LAMBDA d :
         <<DeE("dict", <<"cls", id(i)>>, reuse, D(<<P("f", d)>>)),
           DeE("tuple", <<"cls", id(i)>>, reuse, <<"tuple", <<d>> >>),
           NewE(id(i), << <<"f", d>> >>)>>)
  IN Session(cs, Singles(FlatMap([i \in DOMAIN ts |-> i], Calls)))
KindFamily(tcs) ==
  FlatMap(tcs, LAMBDA tc : LET m == Mixed(KindTypes, 2) IN
     [n \in DOMAIN m |-> KindSession(m[n], tc, <<"unset", "false", "true">>[(n % 3) + 1])])
TopKindSession(ts) ==
  Session(<<LeafDecl>>, Singles(FlatMap(ts, LAMBDA ty : FlatMap(Pool, LAMBDA d :
     <<DeE("dict", ty.t, "unset", d), DeE("tuple", ty.t, "false", d)>>))))
TopKindFamily(zz) == LET m == Mixed(Filter(KindTypes, Topable), 2) IN [n \in DOMAIN m |-> TopKindSession(m[n])]

\* Objects that hold something else than declared, serialized.
MutatedSession(ts, tc) ==
  LET id(i) == "A" \o ToString(i)
      cs == <<LeafDecl>> \o [i \in DOMAIN ts |->
              <<id(i), [Class("C" \o ToString(i), <<Field("f", ts[i].t)>>) EXCEPT !.tc = tc]>>]
      Calls(i) == FlatMap(Pool, LAMBDA d :
         LET v == Obj(id(i), << <<"f", d>> >>) IN
         <<SerE("dict", v, <<>>, "unset", "unset", FALSE), SerE("tuple", v, <<>>, "false", "true", FALSE)>>)
  IN Session(cs, Singles(FlatMap([i \in DOMAIN ts |-> i], Calls)))
MutatedFamily(zz) ==
  FlatMap(Tcs, LAMBDA tc : LET m == Mixed(KindTypes, 2) IN [n \in DOMAIN m |-> MutatedSession(m[n], tc)])

\* ---------------------------------------------------------------- formats
FmtBlocks(v, c) ==
  FlatMap(Fmts, LAMBDA f : <<FRT(f, v, c), <<[FSer(f, v, c) EXCEPT !.sn = "true"], FDeBack(f, c, 0)>> >>)
  \o << <<[FSer("msgpack", v, c) EXCEPT !.named = "false"],
          [FDeBack("msgpack", c, 0) EXCEPT !.named = "false"]>>,
        <<[FSer("json", v, c) EXCEPT !.csets = "false"]>>,
        <<[FSer("yaml", v, c) EXCEPT !.csets = "false"], FDeBack("yaml", c, 0)>>,
        <<[FSer("pickle", v, c) EXCEPT !.reuse = "true"]>>,
        <<[FSer("pickle", v, c) EXCEPT !.csets = "false"], FDeBack("pickle", c, 0)>>,
        <<[FSer("json", v, <<>>) EXCEPT !.reuse = "false"]>>,
        <<[FSer("msgpack", v, c) EXCEPT !.csets = "false"]>>,
        <<[FSer("toml", v, c) EXCEPT !.sn = "false"]>> >>
FmtSession(ts, n) ==
  LET cs == <<LeafDecl, <<"A", Opt4(Class("Alpha", FieldsOf(ts)), n)>> >>
      vs == [j \in 1..2 |-> ObjOf("A", ts, j)]
  IN Session(cs, FlatMap(vs, LAMBDA v : FmtBlocks(v, <<"cls", "A">>)))
FmtFamily(zz) == LET m == Mixed(AllTypes, 3) IN [n \in DOMAIN m |-> FmtSession(m[n], n)]
FmtTopSession(ts) ==
  Session(<<LeafDecl>>, FlatMap(ts, LAMBDA ty : FlatMap(Two(ty.vs), LAMBDA v :
     FlatMap(<<"json", "yaml", "msgpack", "pickle">>, LAMBDA f : <<FRT(f, v, ty.t)>>))))
FmtTopFamily(zz) == LET m == Mixed(Filter(AllTypes, Topable), 5) IN [n \in DOMAIN m |-> FmtTopSession(m[n])]

\* Numbers as the formats have them.
NumPool == <<I("0"), I("5"), I("-3"), <<"float", "1.5">>, <<"float", "3.0">>, <<"bool", "true">>,
             S("5"), S("1.5"), S("1e3"), S("nan"), S("x"), None>>
NumTypes == << <<"float">>, <<"int">>, <<"list", <<"float">>, "list">>, <<"opt", <<"float">> >>,
               <<"dict", <<"str">>, <<"float">>, "dict">>, <<"union", <<<<"int">>, <<"float">> >> >>,
               <<"union", <<<<"float">>, <<"str">> >> >>, <<"newtype", "Score", "float">>,
               <<"sub", "MyFloat", "float">>, <<"tuple", <<<<"float">>, <<"int">> >> >>,
               <<"set", <<"float">>, "set">>, <<"strlike", "Decimal">>,
               <<"dict", <<"float">>, <<"float">>, "dict">> >>
Around(t, d) ==
  CASE t[1] = "list" -> L(<<d>>) [] t[1] = "set" -> L(<<d>>)
    [] t[1] = "dict" -> IF t[2][1] = "str" THEN D(<<P("k", d)>>) ELSE D(<<P("1.5", d)>>)
    [] t[1] = "tuple" -> L(<<d, I("1")>>) [] OTHER -> d
NumSession(t, tc) ==
  LET cs == << <<"A", [Class("Alpha", <<Field("f", t)>>) EXCEPT !.tc = tc]>> >>
  IN Session(cs, Singles(FlatMap(NumPool, LAMBDA d : FlatMap(<<"json", "yaml", "toml", "msgpack">>, LAMBDA f :
       FlatMap(<<"unset", "true", "false">>, LAMBDA cn :
         IF f \in {"toml", "msgpack"} /\ cn # "unset" THEN <<>>
         ELSE <<[FDe(f, <<"cls", "A">>, D(<<P("f", Around(t, d))>>)) EXCEPT !.cn = cn],
                [FDe(f, t, Around(t, d)) EXCEPT !.cn = cn]>>)))))
NumFamily(zz) == Cross(NumTypes, Tcs, NumSession)
=============================================================================
