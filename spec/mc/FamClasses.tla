----------------------------- MODULE FamClasses -----------------------------
(***************************************************************************)
(* Families over classes: unions and their tagging, what happened before a *)
(* call, hooks, generics, inheritance, custom serializers and transparent  *)
(* classes.                                                                *)
(***************************************************************************)
EXTENDS FamFields

\* ---------------------------------------------------------------- unions
XC == [t |-> <<"cls", "X">>, vs |-> <<Obj("X", << <<"x", I("1")>> >>), Obj("X", << <<"x", I("0")>> >>)>>]
YC == [t |-> <<"cls", "Y">>, vs |-> <<Obj("Y", << <<"y", S("s")>>, <<"k", I("0")>> >>)>>]
ZC == [t |-> <<"cls", "Z">>, vs |-> <<Obj("Z", << <<"x", I("1")>>, <<"z", None>> >>), Obj("Z", << <<"x", I("1")>>, <<"z", I("2")>> >>)>>]
TC_ == [t |-> <<"cls", "R">>, vs |-> <<Obj("R", << <<"inner", I("4")>> >>)>>]
UDecls == << <<"X", Class("Xi", <<Field("x", <<"int">>)>>)>>,
             <<"Y", Class("Ypsilon", <<Field("y", <<"str">>), Default(Field("k", <<"int">>), I("0"))>>)>>,
             <<"Z", Class("Zeta", <<Field("x", <<"int">>), Field("z", <<"opt", <<"int">> >>)>>)>>,
             <<"R", [Class("Rho", <<Field("inner", <<"int">>)>>) EXCEPT !.transparent = TRUE]>> >>
TNone == [t |-> <<"none">>, vs |-> <<None>>]
LInt == TList(TheInt, "list")
LStr == TList(TheStr, "list")
Lf(i) == Leaves[i]
UnionSets == <<
  <<TheInt, TheStr>>, <<TheStr, TheInt>>, <<TheInt, XC>>, <<XC, TheInt>>, <<XC, YC>>, <<YC, XC>>,
  <<XC, ZC>>, <<ZC, XC>>, <<XC, TheInt, TNone>>, <<TNone, XC, YC>>, <<Lf(18), TheStr>>, <<TheStr, Lf(18)>>,
  <<Lf(5), TheStr>>, <<Lf(3), TheInt>>, <<TheInt, Lf(3)>>, <<Lf(4), TheInt>>, <<TheInt, Lf(4)>>,
  <<LInt, LStr>>, <<LStr, LInt, XC>>, <<TList(XC, "list"), XC>>, <<TDictV(TheInt, "dict"), XC>>, <<XC, TDictV(TheInt, "dict")>>,
  <<Lf(20), TheStr>>, <<Lf(25), TheInt>>, <<Lf(7), TheInt>>, <<TTuple(TheInt, TheStr), LInt>>,
  <<TSet(TheInt, "set"), TheStr>>, <<XC, TNone, TheStr>>, <<XC, YC, TheInt, TheStr>>, <<TC_, TheStr>>, <<XC, TC_>>,
  <<Lf(6), Lf(3)>>, <<Lf(17), Lf(18), TheStr>>, <<TDDict(TheStr, LInt, LInt.vs[1]), TheInt>>, <<TFrozen(TheInt), LStr>> >>
UTags == << <<"external">>, <<"internal", "t">>, <<"adjacent", "t", "c">>, <<"untagged">> >>
Rot(s, n) == [i \in DOMAIN s |-> s[((i + n - 1) % Len(s)) + 1]]
UFields(u) == <<Field("u", u.t), Field("l", <<"list", u.t, "list">>), Field("d", <<"dict", <<"str">>, u.t, "dict">>),
                Field("o", <<"opt", u.t>>), Field("p", <<"tuple", <<u.t, <<"int">> >> >>)>>
UObj(c, v) == Obj(c, << <<"u", v>>, <<"l", L(<<v, v>>)>>, <<"d", D(<<P("k", v)>>)>>, <<"o", v>>, <<"p", <<"tuple", <<v, I("9")>> >> >> >>)
\* The ways some data might name a member.
Tagged(nm, d) == <<d, D(<<P(nm, d)>>), D(<<P("t", S(nm)), P("c", d)>>), D(<<P("t", S(nm))>>), D(<<P(nm, d), P("q", I("1"))>>),
                   D(<<P("t", S("Nope")), P("c", d)>>), D(<<P("Nope", d)>>), S(nm)>>
                 \o (IF d[1] = "dict" THEN <<D(<<P("t", S(nm))>> \o d[2]), D(d[2] \o <<P("t", S(nm)), P("q", None)>>),
                                             D(<<P("t", S("Nope"))>> \o d[2])>> ELSE <<>>)
UData == Tagged("Xi", D(<<P("x", I("1"))>>)) \o Tagged("Xi", D(<<P("x", S("1"))>>)) \o Tagged("Zeta", D(<<P("x", I("1")), P("z", I("2"))>>))
         \o Tagged("Ypsilon", D(<<P("y", S("s"))>>)) \o Tagged("Rho", I("4"))
         \o <<None, I("0"), I("5"), S("5"), S("a"), S("2020-01-02"), S("12:30:00"), S(UU), <<"float", "1.5">>, <<"float", "3.0">>, <<"bool", "true">>,
              L(<<>>), L(<<I("1")>>), L(<<S("a")>>), L(<<I("1"), S("a")>>), L(<<D(<<P("x", I("1"))>>)>>), D(<<>>), D(<<P("k", I("1"))>>)>>
UnionSession(ms, rot) ==
  LET u == TUnion(ms)
      ids == <<"A1", "A2", "A3", "A4">>
      tags == Rot(UTags, rot)
      cs == UDecls \o [i \in 1..4 |-> <<ids[i], [Class("C" \o ToString(i), UFields(u)) EXCEPT !.tag = tags[i], !.tc = Nth(Tcs, rot)]>>]
      Calls(v) == FlatMap(<<1, 2, 3, 4>>, LAMBDA i :
                    <<RT("dict", UObj(ids[i], v), <<"cls", ids[i]>>, "unset", "unset"),
                      RT("dict", UObj(ids[i], v), <<"cls", ids[i]>>, "true", "true"),
                      RT("tuple", UObj(ids[i], v), <<"cls", ids[i]>>, "false", "true")>>)
      Data(d) == Map(<<1, 2, 3, 4>>, LAMBDA i : De_(<<"cls", ids[i]>>, D(<<P("u", d), P("l", L(<<d>>)), P("d", D(<<P("k", d)>>)), P("o", None), P("p", L(<<d, I("9")>>))>>)))
  IN Session(cs, FlatMap(FlatMap(ms, LAMBDA m : Two(m.vs)), Calls) \o Singles(FlatMap(UData, Data)))
UnionFamily(zz) == Cross(UnionSets, <<0, 1, 2, 3>>, UnionSession)

\* Handed to the API, with and without tagging.
UnionTopSession(ms) ==
  LET u == TUnion(ms)
      cs == <<u.t>> \o Map(UTags, LAMBDA tg : <<"tagged", u.t[2], tg>>)
      Calls(v) == FlatMap(cs, LAMBDA c : <<RT("dict", v, c, "unset", "unset"), RT("dict", v, c, "false", "true"),
                                           RT("dict", v, c, "true", "false"), RT("tuple", v, c, "unset", "unset")>>)
      Data(d) == Map(cs, LAMBDA c : De_(c, d)) \o Map(cs, LAMBDA c : DeE("tuple", c, "false", d))
      Fm(v) == FlatMap(cs, LAMBDA c : <<FRT("json", v, c), FRT("yaml", v, c), FRT("msgpack", v, c)>>)
  IN Session(UDecls, FlatMap(FlatMap(ms, LAMBDA m : Two(m.vs)), Calls) \o FlatMap(FlatMap(ms, LAMBDA m : One(m.vs)), Fm)
                     \o Singles(FlatMap(UData, Data)))
UnionTopFamily(zz) == Map(UnionSets, UnionTopSession)

\* ---------------------------------------------------------------- what happened before
\* Calls that use the same types in different ways; every one between two of
\* every other.
HUnion(tg) == <<"union", <<<<"int">>, <<"cls", "X">>, <<"dt", "date">> >> >>
HDate == <<"date", "datetime.date(2020, 1, 2)">>
HX == XC.vs[1]
HDecls == UDecls \o
  << <<"A", Class("Alpha", <<Field("u", HUnion(0)), Field("d", <<"dt", "date">>), Field("s", <<"set", <<"int">>, "set">>)>>)>>,
     <<"B", [Class("Beta", <<Field("u", HUnion(0)), Field("d", <<"dt", "date">>), Field("s", <<"set", <<"int">>, "set">>)>>)
               EXCEPT !.tag = <<"adjacent", "t", "c">>, !.reuse = FALSE, !.dereuse = FALSE, !.csets = TRUE]>>,
     <<"E", [Class("Epsilon", <<Field("u", HUnion(0)), Field("d", <<"list", <<"cls", "A">>, "list">>)>>) EXCEPT !.tag = <<"untagged">>]>>,
     <<"G", [Class("Gamma", <<Field("v", <<"tv", "T">>)>>) EXCEPT !.tvars = <<"T">>]>>,
     <<"F", Class("Phi", <<Field("g", <<"gen", "G", << <<"dt", "date">> >> >>), Field("h", <<"gen", "G", << <<"int">> >> >>)>>)>> >>
HObj(c, u) == Obj(c, << <<"u", u>>, <<"d", HDate>>, <<"s", <<"set", <<I("3")>> >> >> >>)
HBlocks == <<
  RT("dict", HObj("A", HX), <<"cls", "A">>, "unset", "unset"),
  RT("dict", HObj("A", HDate), <<"cls", "A">>, "false", "true"),
  RT("tuple", HObj("A", I("1")), <<"cls", "A">>, "true", "false"),
  RT("dict", HObj("B", HX), <<"cls", "B">>, "unset", "unset"),
  RT("dict", HObj("B", HDate), <<"cls", "B">>, "true", "false"),
  RT("dict", Obj("E", << <<"u", HX>>, <<"d", L(<<HObj("A", HX)>>)>> >>), <<"cls", "E">>, "unset", "unset"),
  RT("dict", HX, HUnion(0), "unset", "unset"),
  RT("dict", HDate, HUnion(0), "false", "true"),
  RT("dict", HX, <<"tagged", HUnion(0)[2], <<"internal", "t">> >>, "unset", "unset"),
  RT("dict", HX, <<"tagged", HUnion(0)[2], <<"untagged">> >>, "true", "unset"),
  RT("dict", L(<<HDate>>), <<"list", <<"dt", "date">>, "list">>, "false", "unset"),
  RT("dict", HDate, <<"dt", "date">>, "false", "unset"),
  RT("dict", HX, <<"cls", "X">>, "unset", "unset"),
  RT("dict", Obj("F", << <<"g", Obj("G", << <<"v", HDate>> >>)>>, <<"h", Obj("G", << <<"v", I("2")>> >>)>> >>), <<"cls", "F">>, "false", "unset"),
  RT("dict", Obj("G", << <<"v", HDate>> >>), <<"gen", "G", << <<"dt", "date">> >> >>, "false", "unset"),
  RT("dict", Obj("G", << <<"v", S("2020-01-02")>> >>), <<"gen", "G", << <<"str">> >> >>, "unset", "unset"),
  FRT("json", HObj("A", HX), <<"cls", "A">>),
  FRT("yaml", HObj("B", HDate), <<"cls", "B">>),
  FRT("msgpack", HDate, HUnion(0)),
  FRT("pickle", HObj("A", HDate), <<"cls", "A">>),
  <<De_(<<"cls", "A">>, D(<<P("u", S("x"))>>))>>,
  <<De_(HUnion(0), S("x"))>>,
  <<De_(<<"union", <<<<"dt", "date">>, <<"int">>, <<"cls", "X">> >> >>, S("2020-01-02"))>>,
  <<De_(<<"union", <<<<"int">>, <<"str">> >> >>, S("2020-01-02"))>>,
  <<De_(<<"list", HUnion(0), "list">>, L(<<S("2020-01-02"), I("1")>>))>>,
  <<NewE("A", << <<"u", HX>>, <<"d", S("x")>>, <<"s", <<"set", <<>> >> >> >>)>>,
  <<De_(<<"dict", <<"int">>, <<"cls", "X">>, "dict">>, D(<<P("1", D(<<P("x", I("1"))>>))>>))>>,
  <<SerE("dict", L(<<HX, HDate>>), <<>>, "false", "true", FALSE)>> >>
HistoryFamily(zz) == Cross(HBlocks, HBlocks, LAMBDA a, b : Session(HDecls, <<a, b, a>>))

\* ---------------------------------------------------------------- hooks
HookExcs == <<"ValueError", "TypeError", "KeyError", "RuntimeError", "AttributeError", "Boom", "IndexError", "LookupError",
              "BoomArgs", "AssertionError">>
HookPos == <<"plain", "list", "opt", "dict", "tuple", "vtuple", "deque", "flat", "flatopt", "union", "unionlast", "untagged", "optlist", "nested", "gen", "transparent", "default">>
HookC(e) == [Class("Hook", <<Field("v", <<"int">>), Default(Field("w", <<"str">>), S(""))>>)
               EXCEPT !.post = <<"v", I("7"), e, "boom-K">>]
HookT == <<"cls", "K">>
HookField(p) ==
  CASE p = "list" -> Field("f", <<"list", HookT, "list">>) [] p = "opt" -> Field("f", <<"opt", HookT>>)
    [] p = "dict" -> Field("f", <<"dict", <<"str">>, HookT, "dict">>)
    [] p = "tuple" -> Field("f", <<"tuple", << <<"int">>, HookT>> >>)
    [] p = "vtuple" -> Field("f", <<"vtuple", HookT>>) [] p = "deque" -> Field("f", <<"deque", HookT>>)
    [] p = "flat" -> [Field("f", HookT) EXCEPT !.flat = TRUE]
    [] p = "flatopt" -> [Field("f", <<"opt", HookT>>) EXCEPT !.flat = TRUE]
    [] p \in {"union", "untagged"} -> Field("f", <<"union", <<HookT, <<"cls", "X">> >> >>)
    [] p = "unionlast" -> Field("f", <<"union", << <<"int">>, HookT>> >>)
    [] p = "optlist" -> Field("f", <<"opt", <<"list", <<"opt", HookT>>, "list">> >>)
    [] p = "nested" -> Field("f", <<"list", <<"dict", <<"str">>, <<"list", HookT, "list">>, "dict">>, "list">>)
    [] p = "gen" -> Field("f", <<"gen", "G", <<HookT>> >>)
    [] p = "transparent" -> Field("f", <<"cls", "W">>)
    [] p = "default" -> Factory_(Field("f", HookT), Obj("K", << <<"v", I("1")>>, <<"w", S("")>> >>))
    [] OTHER -> Field("f", HookT)
HookData(p, k) ==
  CASE p \in {"list", "vtuple", "deque"} -> L(<<D(<<P("v", I("1"))>>), k>>) [] p = "dict" -> D(<<P("q", k)>>)
    [] p = "tuple" -> L(<<I("1"), k>>) [] p = "unionlast" -> D(<<P("Hook", k)>>) [] p = "union" -> D(<<P("Hook", k)>>)
    [] p = "optlist" -> L(<<None, k>>) [] p = "nested" -> L(<<D(<<P("m", L(<<k>>))>>)>>)
    [] p = "gen" -> D(<<P("v", k)>>) [] OTHER -> k
HookSession(p, e) ==
  LET Al(tc) == [Class("Alpha_" \o tc, <<HookField(p)>>) EXCEPT !.tc = tc,
                   !.tag = IF p = "untagged" THEN <<"untagged">> ELSE <<"external">>]
      Out(tc) == Class("Outer_" \o tc, <<Field("o", <<"list", <<"cls", "A" \o tc>>, "list">>)>>)
      cs == UDecls \o << <<"K", HookC(e)>>,
               <<"G", [Class("Gamma", <<Field("v", <<"tv", "T">>)>>) EXCEPT !.tvars = <<"T">>]>>,
               <<"W", [Class("Wrap", <<Field("z", HookT)>>) EXCEPT !.transparent = TRUE]>> >>
            \o FlatMap(Tcs, LAMBDA tc : << <<"A" \o tc, Al(tc)>>, <<"O" \o tc, Out(tc)>> >>)
      Ks == <<D(<<P("v", I("7"))>>), D(<<P("v", I("1"))>>), D(<<P("v", I("7")), P("w", S("x"))>>), D(<<P("v", S("7"))>>), D(<<P("w", S("x"))>>),
              D(<<P("v", I("7")), P("x", I("1"))>>), None>>
      InA(k) == IF p \in {"flat", "flatopt"} THEN (IF k = None THEN D(<<>>) ELSE k) ELSE D(<<P("f", HookData(p, k))>>)
      Calls(k) == FlatMap(Tcs, LAMBDA tc :
          <<De_(<<"cls", "A" \o tc>>, InA(k)), De_(<<"cls", "O" \o tc>>, D(<<P("o", L(<<InA(k)>>))>>)),
            De_(<<"list", <<"cls", "A" \o tc>>, "list">>, L(<<InA(k)>>)),
            FDe("json", <<"cls", "O" \o tc>>, D(<<P("o", L(<<InA(k)>>))>>)), FDe("yaml", <<"cls", "A" \o tc>>, InA(k))>>)
      Rows == Map(<<I("7"), I("1")>>, LAMBDA x : DeT(<<"cls", "K">>, <<"tuple", <<x, S("")>> >>))
      News == Map(<<I("7"), I("1"), S("7")>>, LAMBDA x : NewE("K", << <<"v", x>> >>))
      Tops == FlatMap(Ks, LAMBDA k : <<De_(HookT, k), De_(<<"opt", HookT>>, k), De_(<<"union", <<HookT, <<"cls", "X">> >> >>, D(<<P("Hook", k)>>)),
                                       De_(<<"tagged", <<HookT, <<"cls", "X">> >>, <<"untagged">> >>, k), De_(<<"dict", <<"str">>, HookT, "dict">>, D(<<P("j", k)>>))>>)
  IN Session(cs, Singles(FlatMap(Ks, Calls) \o Rows \o News \o (IF p = "plain" THEN Tops ELSE <<>>)))
HookFamily(zz) == Cross(HookPos, HookExcs, HookSession)

\* ---------------------------------------------------------------- generics
GArgs == LeafNo(<<1, 2, 3, 5, 6, 7, 11, 17, 18, 20, 22, 25, 26, 30>>) \o <<TList(TheInt, "list"), TList(Leaves[18], "list"), TDictV(Leaves[5], "dict"),
            TTuple(TheInt, Leaves[18]), TSet(TheInt, "set")>>
TvT == [t |-> <<"tv", "T">>]
GField(a) == <<Field("v", <<"tv", "T">>), Field("l", <<"list", <<"tv", "T">>, "list">>), Field("o", <<"opt", <<"tv", "T">> >>),
               Field("d", <<"dict", <<"str">>, <<"tv", "T">>, "dict">>), Field("n", <<"int">>)>>
GObj(v) == Obj("G", << <<"v", v>>, <<"l", L(<<v>>)>>, <<"o", v>>, <<"d", D(<<P("k", v)>>)>>, <<"n", I("1")>> >>)
GDecls(a, b) == <<LeafDecl, <<"G", [Class("Gamma", GField(0)) EXCEPT !.tvars = <<"T">>]>>,
   <<"P", [Class("Pi", <<Field("a", <<"tv", "U">>), Field("b", <<"tv", "T">>)>>) EXCEPT !.tvars = <<"T", "U">>]>>,
   <<"Q", [Class("Qoph", <<Field("a", <<"tv", "T">>), Field("b", <<"tv", "U">>)>>) EXCEPT !.tvars = <<"T", "U">>]>>,
   \* the same variable under another name, and passed on
   <<"N", [Class("Nu", <<Field("g", <<"gen", "G", << <<"tv", "U">> >> >>), Field("p", <<"gen", "P", << <<"tv", "U">>, a.t>> >>)>>) EXCEPT !.tvars = <<"U">>]>>,
   <<"A", Class("Alpha", <<Field("x", <<"gen", "G", <<a.t>> >>), Field("y", <<"gen", "G", <<b.t>> >>),
                           Field("l", <<"list", <<"gen", "P", <<a.t, b.t>> >>, "list">>),
                           Field("o", <<"opt", <<"gen", "Q", <<a.t, b.t>> >> >>),
                           Field("m", <<"gen", "N", <<b.t>> >>)>>)>> >>
PairOf(c, x, y) == Obj(c, << <<"a", x>>, <<"b", y>> >>)
GenSession(i) ==
  LET a == GArgs[i]
      b == Nth(GArgs, i + 5)
      av == a.vs[1]
      bv == b.vs[1]
      nv == Obj("N", << <<"g", GObj(bv)>>, <<"p", PairOf("P", av, bv)>> >>)
      whole == Obj("A", << <<"x", GObj(av)>>, <<"y", GObj(bv)>>, <<"l", L(<<PairOf("P", bv, av)>>)>>, <<"o", PairOf("Q", av, bv)>>, <<"m", nv>> >>)
      GA == <<"gen", "G", <<a.t>> >>
      GB == <<"gen", "G", <<b.t>> >>
      Tops == <<RT("dict", GObj(av), GA, "false", "true"), RT("dict", GObj(bv), GB, "false", "true"),
                RT("dict", GObj(av), GA, "true", "false"), RT("tuple", GObj(bv), GB, "unset", "unset"),
                RT("dict", PairOf("P", bv, av), <<"gen", "P", <<a.t, b.t>> >>, "false", "true"),
                RT("dict", PairOf("Q", av, bv), <<"gen", "Q", <<a.t, b.t>> >>, "false", "true"),
                RT("dict", nv, <<"gen", "N", <<b.t>> >>, "false", "true"),
                RT("dict", L(<<GObj(av), GObj(av)>>), <<"list", GA, "list">>, "false", "true"),
                RT("dict", D(<<P("j", GObj(bv))>>), <<"dict", <<"str">>, GB, "dict">>, "false", "true"),
                RT("dict", GObj(<<"gen">>), GA, "false", "true")>>
      \* without parametrisation the data is kept
      Raw == << <<SerE("dict", GObj(av), <<>>, "false", "true", FALSE), DeBack("dict", <<"cls", "G">>, "unset", 0)>> >>
      Gx(d) == <<De_(GA, D(<<P("v", d), P("l", L(<<d>>)), P("o", d), P("d", D(<<P("k", d)>>)), P("n", I("1"))>>))>>
  IN Session(GDecls(a, b), RTs(whole, <<"cls", "A">>) \o SubSeq(Tops, 1, 9) \o Raw \o Map(SubSeq(Pool, 1, 20), Gx)
                           \o <<FRT("json", whole, <<"cls", "A">>), FRT("yaml", GObj(av), GA), FRT("msgpack", GObj(bv), GB)>>)
GenFamily(zz) == [i \in DOMAIN GArgs |-> GenSession(i)]

\* ---------------------------------------------------------------- inheritance
InhOpts == <<"none", "case", "tag", "untagged", "coerce", "disabled", "deny", "skipdef", "skipnone", "reuse", "csets", "csers", "lsers", "post">>
WithOpt(c, o, who) ==
  CASE o = "case" -> [c EXCEPT !.case = "camelcase"] [] o = "tag" -> [c EXCEPT !.tag = <<"adjacent", "t", "c">>]
    [] o = "untagged" -> [c EXCEPT !.tag = <<"untagged">>]
    [] o \in {"coerce", "disabled"} -> [c EXCEPT !.tc = o] [] o = "deny" -> [c EXCEPT !.deny = TRUE]
    [] o = "skipdef" -> [c EXCEPT !.skipdef = TRUE] [] o = "skipnone" -> [c EXCEPT !.skipnone = TRUE]
    [] o = "reuse" -> [c EXCEPT !.reuse = FALSE, !.dereuse = FALSE] [] o = "csets" -> [c EXCEPT !.csets = TRUE]
    [] o = "csers" -> [c EXCEPT !.csers = << << <<"dt", "date">>, "cs" \o who>> >>, !.cdesers = << << <<"dt", "date">>, "cd" \o who, HDate>> >>]
    [] o = "lsers" -> [c EXCEPT !.lsers = << << <<"dt", "date">>, "ls" \o who>> >>, !.ldesers = << << <<"dt", "date">>, "ld" \o who, HDate>> >>]
    [] o = "post" -> [c EXCEPT !.post = <<"foo_bar", I("7"), "ValueError", "boom-" \o who>>]
    [] OTHER -> c
InhBase == <<Field("foo_bar", <<"int">>), Field("u", <<"union", << <<"int">>, <<"cls", "X">> >> >>), Field("s", <<"set", <<"int">>, "set">>),
             Field("d", <<"dt", "date">>), Default(Field("o", <<"opt", <<"int">> >>), None)>>
InhVals(x) == << <<"foo_bar", x>>, <<"u", HX>>, <<"s", <<"set", <<I("1")>> >> >>, <<"d", HDate>>, <<"o", None>> >>
InhSession(ob, os, order) ==
  LET b == <<"B", WithOpt(Class("Base", InhBase), ob, "B")>>
      s == <<"S", [WithOpt(Class("Sub", <<Default(Field("own_one", <<"int">>), I("3"))>>), os, "S") EXCEPT !.bases = <<"B">>]>>
      t == <<"T2", [Class("Sibling", <<Default(Field("own_two", <<"opt", <<"str">> >>), None)>>) EXCEPT !.bases = <<"B">>]>>
      h == <<"H", Class("Holder", <<Field("b", <<"cls", "B">>), Field("l", <<"list", <<"cls", "B">>, "list">>)>>)>>
      cs == SubSeq(UDecls, 1, 1) \o (IF order = 0 THEN <<b, s, t, h>> ELSE <<b, h, t, s>>)
      bv == Obj("B", InhVals(I("1")))
      sv == Obj("S", InhVals(I("2")) \o << <<"own_one", I("3")>> >>)
      tv == Obj("T2", InhVals(I("4")) \o << <<"own_two", None>> >>)
      hv == Obj("H", << <<"b", sv>>, <<"l", L(<<bv, sv, tv>>)>> >>)
      Bad_(c, v) == << <<Ser_(v), DeEdit("dict", <<"cls", c>>, "unset", 0, << <<"add", "zz", I("1")>> >>),
                         DeEdit("dict", <<"cls", c>>, "unset", 0, << <<"set", "foo_bar", S("5")>>, <<"set", "fooBar", S("5")>> >>),
                         DeEdit("dict", <<"cls", c>>, "unset", 0, << <<"set", "foo_bar", I("7")>> >>),
                         DeEdit("dict", <<"cls", c>>, "unset", 0, << <<"ren", "foo_bar", "fooBar">> >>),
                         DeEdit("dict", <<"cls", c>>, "unset", 0, << <<"drop", "o">>, <<"drop", "own_one">>, <<"drop", "ownOne">> >>)>> >>
      All(c, v) == RTs(v, <<"cls", c>>) \o Bad_(c, v) \o Singles(<<NewE(c, << <<"foo_bar", S("x")>>, <<"u", I("1")>>, <<"s", <<"set", <<>> >> >>, <<"d", HDate>> >>)>>)
      early == All("B", bv)
      blocks == All("S", sv) \o All("B", bv) \o All("T2", tv)
                \o <<RT("dict", hv, <<"cls", "H">>, "unset", "unset"), RT("dict", hv, <<"cls", "H">>, "false", "true"), <<SerT(hv)>>>>
  IN IF order = 0 THEN Session(cs, blocks)
     ELSE \* the base is used before there is a subclass
          [Session(cs, blocks) EXCEPT !.events =
             Join(<<>>, Singles(<<Decl_("X"), Decl_("B")>>) \o early
                        \o Singles(<<Decl_("H"), Decl_("T2"), Decl_("S")>>) \o blocks)]
InhFamily(zz) == Cross3(InhOpts, InhOpts, <<0, 1>>, InhSession)
\* Several bases and redeclared fields, and the order of the fields.
DiaSession(o1, o2) ==
  LET fd(n, v) == Default(Field(n, <<"int">>), I(v))
      r == <<"R0", WithOpt(Class("Root", <<fd("a_a", "1"), fd("b_b", "2")>>), o1, "R")>>
      l == <<"L1", [WithOpt(Class("Left", <<fd("c_c", "3"), fd("a_a", "10")>>), o2, "L") EXCEPT !.bases = <<"R0">>]>>
      m == <<"M1", [Class("Right", <<fd("d_d", "4"), fd("b_b", "20")>>) EXCEPT !.bases = <<"R0">>]>>
      d == <<"D1", [Class("Diamond", <<fd("e_e", "5"), fd("c_c", "30")>>) EXCEPT !.bases = <<"L1", "M1">>]>>
      e == <<"E1", [Class("Deep", <<fd("f_f", "6")>>) EXCEPT !.bases = <<"D1">>]>>
      Ev(c) == Singles(<<De_(<<"cls", c>>, D(<<>>)), NewE(c, <<>>), De_(<<"cls", c>>, D(<<P("a_a", I("100")), P("aA", I("101"))>>)),
                         De_(<<"cls", c>>, D(<<P("a_a", S("100"))>>)), DeT(<<"cls", c>>, L(Map(<<"51", "52", "53", "54", "55", "56">>, I)))>>)
      V(c, ns) == Obj(c, [i \in DOMAIN ns |-> <<ns[i], I("5" \o ToString(i))>>])
      Cx == <<V("R0", <<"a_a", "b_b">>), V("L1", <<"a_a", "b_b", "c_c">>), V("M1", <<"a_a", "b_b", "d_d">>),
              V("D1", <<"a_a", "b_b", "d_d", "c_c", "e_e">>), V("E1", <<"a_a", "b_b", "d_d", "c_c", "e_e", "f_f">>)>>
  IN Session(<<r, l, m, d, e>>, FlatMap(<<"R0", "L1", "M1", "D1", "E1">>, Ev) \o FlatMap(Cx, LAMBDA v : RTs(v, <<"cls", v[2]>>)))
DiaFamily(zz) == Cross(SubSeq(InhOpts, 1, 9), SubSeq(InhOpts, 1, 9), DiaSession)

\* ---------------------------------------------------------------- custom serializers
RegTypes == << [t |-> <<"dt", "date">>, v |-> HDate], [t |-> <<"strlike", "UUID">>, v |-> <<"UUID", UU>>], [t |-> <<"int">>, v |-> I("5")],
               [t |-> <<"cls", "X">>, v |-> HX], [t |-> <<"strlike", "Path">>, v |-> <<"Path", "a/b">>], [t |-> <<"enum", "e0">>, v |-> En("e0", "RED")],
               [t |-> <<"str">>, v |-> S("a")] >>
OnOff(b, s) == IF b THEN s ELSE <<>>
RegSession(rt, g1, cs, ls, fs, g2) ==
  LET t == rt.t
      fx == [Field("x", t) EXCEPT !.fser = IF fs THEN "fs" ELSE "", !.fde = IF fs THEN <<"fn", "fd", rt.v>> ELSE <<>>]
      a == [Class("Alpha", <<fx, Field("l", <<"list", t, "list">>), Field("o", <<"opt", t>>), Field("d", <<"dict", <<"str">>, t, "dict">>),
                             Field("p", <<"tuple", <<t, <<"bool">> >> >>), Field("q", <<"float">>)>>)
              EXCEPT !.csers = OnOff(cs, << <<t, "cs0">>, <<t, "cs">> >>), !.cdesers = OnOff(cs, << <<t, "cd", rt.v>> >>),
                     !.lsers = OnOff(ls, << <<t, "ls">> >>), !.ldesers = OnOff(ls, << <<t, "ld", rt.v>> >>)]
      b == Class("Beta", <<Field("x", t), Field("a", <<"opt", <<"cls", "A">> >>)>>)
      x == rt.v
      av == Obj("A", << <<"x", x>>, <<"l", L(<<x, x>>)>>, <<"o", x>>, <<"d", D(<<P("k", x)>>)>>, <<"p", <<"tuple", <<x, <<"bool", "true">> >> >> >>, <<"q", <<"float", "1.5">> >> >>)
      bv == Obj("B", << <<"x", x>>, <<"a", av>> >>)
      G(n) == <<AddS(t, "gs" \o n), AddD(t, "gd" \o n, x)>>
      Rd(w) == <<P("x", w), P("l", L(<<w>>)), P("o", w), P("d", D(<<P("k", w)>>)), P("p", L(<<w, <<"bool", "true">> >>)), P("q", <<"float", "1.5">>)>>
      blocks == <<RT("dict", av, <<"cls", "A">>, "unset", "unset"), RT("dict", bv, <<"cls", "B">>, "false", "true"),
                  RT("tuple", bv, <<"cls", "B">>, "unset", "unset"), <<Ser_(x)>>, <<Ser_(L(<<x>>))>>, <<Ser_(D(<<P("k", x)>>))>>,
                  <<SerE("dict", x, <<"union", <<t, <<"none">>, <<"deque", <<"bool">> >> >> >>, "unset", "unset", FALSE)>>,
                  <<De_(t, S("data"))>>, <<De_(<<"list", t, "list">>, L(<<S("data"), S("bad")>>))>>, <<De_(<<"cls", "A">>, D(Rd(S("data"))))>>,
                  <<De_(<<"cls", "A">>, D(Rd(S("bad"))))>>, <<De_(<<"cls", "B">>, D(<<P("x", S("data")), P("a", D(Rd(S("data"))))>>))>>,
                  FRT("json", bv, <<"cls", "B">>)>>
      gb == IF g1 THEN G("1") ELSE <<>>
      ga == IF g2 THEN Singles(G("2")) ELSE <<>>
  IN SessionR(SubSeq(UDecls, 1, 1) \o << <<"A", a>>, <<"B", b>> >>, << <<>>, gb, <<>> >>, blocks \o ga \o (IF g2 THEN blocks ELSE <<>>))
RegFamily(zz) == FlatMap(RegTypes, LAMBDA rt : FlatMap(Bools, LAMBDA a : FlatMap(Bools, LAMBDA b : FlatMap(Bools, LAMBDA c :
               Cross(Bools, Bools, LAMBDA d, e : RegSession(rt, a, b, c, d, e))))))

\* ---------------------------------------------------------------- transparent classes
TrOpts == <<"none", "rename", "alias", "coerce", "disabled", "reuse", "csets", "case", "csers", "fser", "extra", "deny">>
TrClass(t, o) ==
  LET f == Field("inner_one", t)
      c == [Class("Tau", << CASE o = "rename" -> [f EXCEPT !.rename = "other"] [] o = "alias" -> [f EXCEPT !.alias = <<"other">>]
                              [] o = "fser" -> [f EXCEPT !.fser = "fs"] [] OTHER -> f >>
                         \o (IF o = "extra" THEN <<[Default(Field("hidden", <<"int">>), I("42")) EXCEPT !.init = FALSE, !.skip = TRUE]>> ELSE <<>>))
              EXCEPT !.transparent = TRUE]
  IN IF o \in {"rename", "alias", "none", "fser", "extra"} THEN c ELSE WithOpt(c, o, "T")
TrInner == LeafNo(<<1, 2, 3, 4, 5, 6, 7, 18, 20, 25, 26, 27, 30>>) \o <<TList(TheInt, "list"), TSet(TheInt, "set"), TOpt(TheInt), TDictV(Leaves[18], "dict"), TUnion(<<TheInt, XC>>)>>
TrSession(ty, o) ==
  LET ex(v) == Obj("T1", << <<"inner_one", v>> >> \o (IF o = "extra" THEN << <<"hidden", I("42")>> >> ELSE <<>>))
      t == <<"cls", "T1">>
      cs == SubSeq(UDecls, 1, 1) \o <<LeafDecl, <<"T1", TrClass(ty.t, o)>>, <<"T2", [Class("Tau2", <<Field("w", t)>>) EXCEPT !.transparent = TRUE]>>,
              <<"A", Class("Alpha", <<Field("x", t), Field("l", <<"list", t, "list">>), Field("o", <<"opt", t>>), Field("d", <<"dict", <<"str">>, t, "dict">>),
                                      Field("p", <<"tuple", <<t, <<"int">> >> >>), Field("y", <<"cls", "T2">>), Field("u", <<"union", << <<"none">>, t>> >>)>>)>> >>
      av(v) == Obj("A", << <<"x", ex(v)>>, <<"l", L(<<ex(v)>>)>>, <<"o", ex(v)>>, <<"d", D(<<P("k", ex(v))>>)>>,
                           <<"p", <<"tuple", <<ex(v), I("1")>> >> >>, <<"y", Obj("T2", << <<"w", ex(v)>> >>)>>, <<"u", ex(v)>> >>)
      Calls(v) == RTs(ex(v), t) \o RTs(av(v), <<"cls", "A">>) \o <<RT("dict", L(<<ex(v)>>), <<"list", t, "list">>, "unset", "unset")>>
                  \o <<FRT("json", ex(v), t), FRT("yaml", av(v), <<"cls", "A">>), FRT("msgpack", ex(v), t), FRT("pickle", ex(v), t)>>
      Datum(d) == <<De_(t, d), DeT(t, d), De_(<<"cls", "T2">>, d), De_(<<"list", t, "list">>, L(<<d>>)), NewE("T1", << <<"inner_one", d>> >>)>>
  IN Session(cs, FlatMap(Two(ty.vs), Calls) \o Singles(FlatMap(SubSeq(Pool, 1, 28), Datum)))
TrFamily(zz) == Cross(TrInner, TrOpts, TrSession)
=============================================================================
