------------------------------ MODULE FamFields ------------------------------
(***************************************************************************)
(* Families over the attributes of fields: skip conditions, names,         *)
(* defaults, flattening and unknown keys, and which declarations are       *)
(* rejected.                                                               *)
(***************************************************************************)
EXTENDS FamTypes

Bools == <<FALSE, TRUE>>
Tris3 == <<"unset", "true", "false">>
Cross3(a, b, c, Op(_, _, _)) == FlatMap(a, LAMBDA x : Cross(b, c, LAMBDA y, z : Op(x, y, z)))
Pairs2(a, b) == Cross(a, b, LAMBDA x, y : <<x, y>>)
\* All subsequences, as sequences.
RECURSIVE Subs(_)
Subs(s) == IF s = <<>> THEN << <<>> >>
           ELSE LET r == Subs(Tail(s)) IN r \o Map(r, LAMBDA q : <<Head(s)>> \o q)
RECURSIVE Perms(_)
Perms(s) == IF s = <<>> THEN << <<>> >>
            ELSE FlatMap([i \in DOMAIN s |-> i], LAMBDA i :
                   LET Rest == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
                   IN Map(Perms(Rest), LAMBDA q : <<s[i]>> \o q))

\* ---------------------------------------------------------------- skipping
\* A type, what its default may be, and the values to try.
SkipTypes == <<
  [t |-> <<"int">>, dv |-> I("5"), dk |-> "val", sif |-> I("0"), vs |-> <<I("5"), I("0"), I("1")>>],
  [t |-> <<"opt", <<"int">> >>, dv |-> None, dk |-> "val", sif |-> None, vs |-> <<None, I("0"), I("7")>>],
  [t |-> <<"opt", <<"str">> >>, dv |-> S("x"), dk |-> "val", sif |-> S("x"), vs |-> <<None, S(""), S("x"), S("y")>>],
  [t |-> <<"list", <<"int">>, "list">>, dv |-> L(<<>>), dk |-> "fac", sif |-> L(<<I("1")>>),
   vs |-> <<L(<<>>), L(<<I("1")>>), L(<<I("0"), I("2")>>)>>],
  [t |-> <<"bool">>, dv |-> <<"bool", "true">>, dk |-> "val", sif |-> I("0"), vs |-> << <<"bool", "true">>, <<"bool", "false">> >>],
  [t |-> <<"dt", "date">>, dv |-> <<"date", "datetime.date(2020, 1, 2)">>, dk |-> "val", sif |-> S("2020-01-02"),
   vs |-> << <<"date", "datetime.date(2020, 1, 2)">>, <<"date", "datetime.date(1999, 12, 31)">> >>],
  [t |-> <<"set", <<"int">>, "set">>, dv |-> <<"set", <<I("1")>> >>, dk |-> "fac", sif |-> <<"set", <<>> >>,
   vs |-> << <<"set", <<>> >>, <<"set", <<I("1")>> >>, <<"set", <<I("2")>> >> >>],
  [t |-> <<"cls", "L">>, dv |-> Obj("L", << <<"n", I("1")>>, <<"s", S("q")>> >>), dk |-> "fac",
   sif |-> D(<<P("n", I("1")), P("s", S("q"))>>),
   vs |-> <<Obj("L", << <<"n", I("1")>>, <<"s", S("q")>> >>), Obj("L", << <<"n", I("0")>>, <<"s", S("")>> >>)>>],
  [t |-> <<"opt", <<"cls", "L">> >>, dv |-> None, dk |-> "val", sif |-> D(<<P("n", I("1")), P("s", S("q"))>>),
   vs |-> <<None, Obj("L", << <<"n", I("1")>>, <<"s", S("q")>> >>)>>],
  [t |-> <<"union", <<<<"int">>, <<"str">>, <<"none">> >> >>, dv |-> None, dk |-> "val", sif |-> S("a"),
   vs |-> <<None, I("0"), S("a"), S("")>>],
  [t |-> <<"strlike", "Path">>, dv |-> <<"Path", "a/b">>, dk |-> "val", sif |-> S("a/b"),
   vs |-> << <<"Path", "a/b">>, <<"Path", ".">> >>],
  [t |-> <<"enum", "e0">>, dv |-> En("e0", "RED"), dk |-> "val", sif |-> I("2"), vs |-> <<En("e0", "RED"), En("e0", "BLUE")>>] >>
\* The conditions on one field: skip_if, skip_if_false, skip_if_default, skip_if_none.
SkipConds == FlatMap(Bools, LAMBDA i : FlatMap(Bools, LAMBDA z : Cross(Tris3, Tris3, LAMBDA a, b : <<i, z, a, b>>)))
SkipField(st, k, dflt, n) ==
  LET f == Field(n, st.t)
      g == IF dflt THEN [f EXCEPT !.dk = st.dk, !.dv = st.dv] ELSE f
  IN [g EXCEPT !.sif = IF k[1] THEN <<st.sif>> ELSE <<>>, !.sfalse = k[2], !.sdef = k[3], !.snone = k[4]]
\* A class with a field per condition, those without default first.
SkipFields(st) ==
  [i \in DOMAIN SkipConds |-> SkipField(st, SkipConds[i], FALSE, "a" \o ToString(i))]
  \o [i \in DOMAIN SkipConds |-> SkipField(st, SkipConds[i], TRUE, "b" \o ToString(i))]
SkipObj(c, st, j) ==
  Obj(c, [i \in DOMAIN SkipConds |-> <<"a" \o ToString(i), Nth(st.vs, j)>>]
         \o [i \in DOMAIN SkipConds |-> <<"b" \o ToString(i), Nth(st.vs, j)>>])
SkipSession(st, flags) ==
  LET cs == <<LeafDecl, <<"A", [Class("Alpha", SkipFields(st)) EXCEPT !.skipdef = flags[1], !.skipnone = flags[2],
                                    !.reuse = flags[3]]>> >>
      vs == [j \in DOMAIN st.vs |-> SkipObj("A", st, j)]
      One1(v) == << <<SerE("dict", v, <<>>, "unset", "unset", FALSE)>>,
                    <<SerE("dict", v, <<>>, "unset", "unset", TRUE)>>,
                    <<SerE("dict", v, <<>>, "true", "true", FALSE)>>,
                    <<SerE("dict", v, <<>>, "false", "false", TRUE)>>,
                    <<SerT(v)>>,
                    <<FSer("json", v, <<"cls", "A">>)>>, <<[FSer("json", v, <<>>) EXCEPT !.sn = "true"]>>,
                    <<FSer("toml", v, <<>>)>>, <<[FSer("msgpack", v, <<>>) EXCEPT !.named = "false"]>>,
                    <<[FSer("yaml", v, <<>>) EXCEPT !.sn = "true"]>> >>
  IN Session(cs, FlatMap(vs, One1))
SkipFamily(zz) == Cross(SkipTypes, << <<FALSE, FALSE, TRUE>>, <<TRUE, FALSE, FALSE>>, <<FALSE, TRUE, TRUE>>, <<TRUE, TRUE, FALSE>> >>,
                    SkipSession)

\* Classes inside classes, each with its own flags.
In1(t, w) == CASE w = "list" -> [t |-> <<"list", t, "list">>, v |-> "list"] [] w = "opt" -> [t |-> <<"opt", t>>, v |-> "opt"]
               [] w = "dict" -> [t |-> <<"dict", <<"str">>, t, "dict">>, v |-> "dict"]
               [] w = "tuple" -> [t |-> <<"tuple", <<t, <<"int">> >> >>, v |-> "tuple"]
               [] w = "union" -> [t |-> <<"union", <<<<"int">>, t>> >>, v |-> "union"]
               [] OTHER -> [t |-> t, v |-> "plain"]
Put1(x, w) == CASE w = "list" -> L(<<x, x>>) [] w = "dict" -> D(<<P("k", x)>>)
                [] w = "tuple" -> <<"tuple", <<x, I("3")>> >> [] OTHER -> x
Ways == <<"plain", "list", "opt", "dict", "tuple", "union">>
NestFields == <<Field("p", <<"opt", <<"int">> >>), Default(Field("q", <<"int">>), I("5")),
                [Default(Field("r", <<"opt", <<"int">> >>), I("6")) EXCEPT !.snone = "false", !.sdef = "false"]>>
NestVals == << << <<"p", None>>, <<"q", I("5")>>, <<"r", None>> >>, << <<"p", I("1")>>, <<"q", I("0")>>, <<"r", I("6")>> >> >>
SkipNest(w, f1, f2, flat) ==
  LET b == [Class("Beta", NestFields) EXCEPT !.skipdef = f1[1], !.skipnone = f1[2]]
      t == In1(<<"cls", "B">>, w).t
      fb == [Field("b", t) EXCEPT !.flat = flat]
      a == [Class("Alpha", <<fb, Default(Field("z", <<"opt", <<"int">> >>), None)>>)
              EXCEPT !.skipdef = f2[1], !.skipnone = f2[2]]
      V(j) == Obj("A", << <<"b", Put1(Obj("B", NestVals[j]), w)>>, <<"z", None>> >>)
      Blk(v) == Singles(<<Ser_(v), SerE("dict", v, <<>>, "unset", "unset", TRUE), SerT(v),
                          [FSer("json", v, <<>>) EXCEPT !.sn = "true"], FSer("toml", v, <<>>)>>)
                \o <<RT("dict", v, <<"cls", "A">>, "unset", "unset"), FRT("yaml", v, <<"cls", "A">>)>>
  IN Session(<< <<"B", b>>, <<"A", a>> >>, Blk(V(1)) \o Blk(V(2)))
Flags4 == Pairs2(Bools, Bools)
SkipNestFamily(zz) == FlatMap(Ways, LAMBDA w : Cross(Flags4, Flags4, LAMBDA a, b : SkipNest(w, a, b, FALSE)))
                  \o Cross(Flags4, Flags4, LAMBDA a, b : SkipNest("plain", a, b, TRUE))
                  \o Cross(Flags4, Flags4, LAMBDA a, b : SkipNest("opt", a, b, TRUE))

\* ---------------------------------------------------------------- names
Cases == <<"", "camelcase", "pascalcase", "snakecase", "kebabcase", "constcase", "capitalcase", "lowercase", "uppercase">>
NamePool == <<"a", "foo_bar", "fooBar", "_x", "x_1", "class_", "HTTPServer", "two_word_name">>
\* What a field of that name may be called.
NameField(n, k, t) ==
  LET f == Field(n, t) IN
  CASE k = "plain" -> f
    [] k = "rename" -> [f EXCEPT !.rename = "re-" \o n]
    [] k = "alias" -> [f EXCEPT !.alias = <<"al_" \o n, "Al " \o n>>]
    [] k = "both" -> [f EXCEPT !.rename = "re " \o n, !.alias = <<"al1" \o n, "al2" \o n>>]
    [] k = "aliasdef" -> Default([f EXCEPT !.alias = <<"al_" \o n>>], IF t[1] = "opt" THEN None ELSE I("77"))
    [] OTHER -> [f EXCEPT !.rename = n \o "x", !.dk = "val", !.dv = I("78")]
NameKinds == <<"plain", "rename", "alias", "both", "aliasdef", "renamedef">>
RECURSIVE NameKeys(_, _)
NameKeys(n, k) == CASE k = "plain" -> <<n>> [] k = "rename" -> <<"re-" \o n, n>>
                    [] k = "alias" -> <<n, "al_" \o n, "Al " \o n>>
                    [] k = "both" -> <<n, "re " \o n, "al1" \o n, "al2" \o n>>
                    [] k = "aliasdef" -> <<n, "al_" \o n>> [] OTHER -> <<n, n \o "x">>
\* Reads a dict with any subset of the names a field might go by; the wire
\* names come from writing an object and editing what was written.
NameSession(cse, n, dn) ==
  LET ks == <<"plain", "rename", "alias", "both">>
      ids == <<"A1", "A2", "A3", "A4", "A5", "A6">>
      T(i) == <<<<"int">>, <<"opt", <<"int">> >> >>[(i % 2) + 1]
      cs == [i \in DOMAIN NameKinds |->
               <<ids[i], [Class("N" \o ToString(i), <<NameField(n, NameKinds[i], IF NameKinds[i] = "renamedef" THEN <<"int">> ELSE T(i))>>)
                            EXCEPT !.case = cse, !.deny = dn]>>]
      O1(i) == Obj(ids[i], << <<n, I("9")>> >>)
      Keys(i) == NameKeys(n, NameKinds[i])
      Data(ss) == D([j \in DOMAIN ss |-> P(ss[j], I(ToString(j)))])
      B(i) == << <<Ser_(O1(i)), DeBack("dict", <<"cls", ids[i]>>, "unset", 0)>>
                   \o Map(Keys(i), LAMBDA k : DeEdit("dict", <<"cls", ids[i]>>, "unset", 0, << <<"add", k, I("4")>> >>))
                   \o Map(Keys(i), LAMBDA k : DeEdit("dict", <<"cls", ids[i]>>, "unset", 0, << <<"whole", D(<<P(k, I("0"))>>)>> >>)),
                 <<SerT(O1(i)), DeBack("tuple", <<"cls", ids[i]>>, "unset", 0)>>,
                 FRT("json", O1(i), <<"cls", ids[i]>>), FRT("toml", O1(i), <<"cls", ids[i]>>) >>
              \o Singles(Map(Subs(Keys(i)), LAMBDA ss : De_(<<"cls", ids[i]>>, Data(ss))))
              \o Singles(<<De_(<<"cls", ids[i]>>, D(Map(Keys(i), LAMBDA k : P(k, None))))>>)
  IN Session(cs, FlatMap([i \in DOMAIN NameKinds |-> i], B))
NameFamily(zz) == Cross3(Cases, NamePool, <<FALSE>>, NameSession)
              \o Cross3(<<"", "camelcase", "kebabcase">>, NamePool, <<TRUE>>, NameSession)

\* Several fields, nested and inherited, each class with its own case.
ManyNames == <<"foo_bar", "a", "b_c">>
CaseNest(c1, c2, w) ==
  LET b == [Class("Beta", Map(ManyNames, LAMBDA n : Field(n, <<"int">>))) EXCEPT !.case = c1]
      fl == w = "flat"
      a == [Class("Alpha", <<[Field("my_b", In1(<<"cls", "B">>, w).t) EXCEPT !.flat = fl], Field("own_one", <<"str">>)>>)
              EXCEPT !.case = c2]
      bv == Obj("B", << <<"foo_bar", I("1")>>, <<"a", I("2")>>, <<"b_c", I("3")>> >>)
      v == Obj("A", << <<"my_b", Put1(bv, w)>>, <<"own_one", S("s")>> >>)
      \* the subclass has a case of its own
      d == [Class("Delta", <<Field("more_of", <<"int">>)>>) EXCEPT !.case = c2, !.bases = <<"B">>]
      dv == Obj("D", << <<"foo_bar", I("1")>>, <<"a", I("2")>>, <<"b_c", I("3")>>, <<"more_of", I("4")>> >>)
  IN Session(<< <<"B", b>>, <<"A", a>>, <<"D", d>> >>,
             RTs(v, <<"cls", "A">>) \o RTs(dv, <<"cls", "D">>)
             \o <<FRT("yaml", v, <<"cls", "A">>), FRT("msgpack", dv, <<"cls", "D">>)>>)
CaseNestFamily(zz) == Cross3(Cases, <<"", "camelcase", "constcase", "kebabcase">>, <<"plain", "list", "flat">>, CaseNest)

\* ---------------------------------------------------------------- defaults
DefTypes == <<
  [t |-> <<"int">>, dv |-> I("7"), v |-> I("1")],
  [t |-> <<"str">>, dv |-> S(""), v |-> S("v")],
  [t |-> <<"float">>, dv |-> <<"float", "1.5">>, v |-> <<"float", "0.0">>],
  [t |-> <<"bool">>, dv |-> <<"bool", "false">>, v |-> <<"bool", "true">>],
  [t |-> <<"opt", <<"int">> >>, dv |-> I("3"), v |-> I("0")],
  [t |-> <<"opt", <<"str">> >>, dv |-> None, v |-> S("w")],
  [t |-> <<"opt", <<"list", <<"int">>, "list">> >>, dv |-> None, v |-> L(<<>>)],
  [t |-> <<"list", <<"int">>, "list">>, dv |-> L(<<>>), v |-> L(<<I("1")>>)],
  [t |-> <<"list", <<"int">>, "list">>, dv |-> L(<<I("4"), I("4")>>), v |-> L(<<>>)],
  [t |-> <<"dict", <<"str">>, <<"int">>, "dict">>, dv |-> D(<<P("d", I("1"))>>), v |-> D(<<>>)],
  [t |-> <<"set", <<"int">>, "set">>, dv |-> <<"set", <<>> >>, v |-> <<"set", <<I("1")>> >>],
  [t |-> <<"deque", <<"int">> >>, dv |-> <<"deque", <<I("2")>> >>, v |-> <<"deque", <<I("1")>> >>],
  [t |-> <<"ddict", <<"str">>, <<"list", <<"int">>, "list">> >>, dv |-> <<"defaultdict", "list", <<>> >>,
   v |-> <<"defaultdict", "list", << <<S("k"), L(<<I("1")>>)>> >> >>],
  [t |-> <<"counter", <<"str">> >>, dv |-> <<"counter", <<>> >>, v |-> <<"counter", << <<S("k"), I("1")>> >> >>],
  [t |-> <<"tuple", <<<<"int">>, <<"str">> >> >>, dv |-> <<"tuple", <<I("1"), S("t")>> >>, v |-> <<"tuple", <<I("2"), S("u")>> >>],
  [t |-> <<"cls", "L">>, dv |-> Obj("L", << <<"n", I("1")>>, <<"s", S("q")>> >>), v |-> Obj("L", << <<"n", I("2")>>, <<"s", S("")>> >>)],
  [t |-> <<"opt", <<"cls", "L">> >>, dv |-> None, v |-> Obj("L", << <<"n", I("2")>>, <<"s", S("")>> >>)],
  [t |-> <<"enum", "e0">>, dv |-> En("e0", "RED"), v |-> En("e0", "BLUE")],
  [t |-> <<"dt", "date">>, dv |-> <<"date", "datetime.date(2020, 1, 2)">>, v |-> <<"date", "datetime.date(1999, 12, 31)">>],
  [t |-> <<"strlike", "UUID">>, dv |-> <<"UUID", UU>>, v |-> <<"UUID", UU>>],
  [t |-> <<"union", <<<<"int">>, <<"str">> >> >>, dv |-> S("d"), v |-> I("1")],
  [t |-> <<"union", <<<<"int">>, <<"str">>, <<"none">> >> >>, dv |-> None, v |-> S("x")],
  [t |-> <<"any">>, dv |-> None, v |-> L(<<I("1")>>)],
  [t |-> <<"lit", <<S("a"), I("2")>> >>, dv |-> S("a"), v |-> I("2")],
  [t |-> <<"newtype", "UserId", "int">>, dv |-> I("1"), v |-> I("0")],
  [t |-> <<"bare", "list">>, dv |-> L(<<>>), v |-> L(<<S("a")>>)],
  [t |-> <<"bare", "dict">>, dv |-> D(<<>>), v |-> D(<<P("k", None)>>)] >>
Mutable(v) == v[1] \in {"list", "dict", "set", "deque", "defaultdict", "counter", "obj"}
DefField(dt, n, k) ==   \* k: none val fac
  LET f == Field(n, dt.t) IN
  CASE k = "none" -> f
    [] k = "val" -> IF Mutable(dt.dv) THEN Factory_(f, dt.dv) ELSE Default(f, dt.dv)
    [] OTHER -> Factory_(f, dt.dv)
\* A class with each type once; every field is left out, or None, by itself;
\* nothing and everything is given.
DefSession(ts, k, extra) ==
  LET fs == [i \in DOMAIN ts |-> DefField(ts[i], FName(i), k)]
      gs == [i \in DOMAIN fs |-> CASE extra = "alias" -> [fs[i] EXCEPT !.alias = <<"al" \o FName(i), "bl" \o FName(i)>>]
                                   [] extra = "kw" -> [fs[i] EXCEPT !.kw = TRUE]
                                   [] extra = "sser" -> [fs[i] EXCEPT !.sser = TRUE]
                                   [] extra = "sde" -> IF k = "none" THEN fs[i] ELSE [fs[i] EXCEPT !.sde = TRUE]
                                   [] extra = "skip" -> IF k = "none" THEN fs[i] ELSE [fs[i] EXCEPT !.skip = TRUE]
                                   [] extra = "init" -> IF k = "none" THEN fs[i] ELSE [fs[i] EXCEPT !.init = FALSE]
                                   [] OTHER -> fs[i]]
      a == [Class("Alpha", gs) EXCEPT !.deny = (extra = "deny")]
      v == Obj("A", [i \in DOMAIN ts |-> <<FName(i), ts[i].v>>])
      cn == <<"cls", "A">>
      E(es) == DeEdit("dict", cn, "unset", 0, es)
      named == IF extra = "sser"
               THEN <<>> ELSE
               <<SerE("dict", v, <<>>, "false", "true", FALSE), DeBack("dict", cn, "unset", 0)>>
               \o [i \in DOMAIN ts |-> E(<< <<"drop", FName(i)>> >>)]
               \o [i \in DOMAIN ts |-> E(<< <<"set", FName(i), None>> >>)]
               \o [i \in DOMAIN ts |-> E(<< <<"ren", FName(i), "al" \o FName(i)>> >>)]
               \o [i \in DOMAIN ts |-> E(<< <<"ren", FName(i), "bl" \o FName(i)>>, <<"rev">> >>)]
               \o [i \in DOMAIN ts |-> E([j \in 1..i |-> <<"drop", FName(j)>>])]
      fmts == IF extra = "sser" THEN <<>>
              ELSE FlatMap(<<"json", "yaml">>, LAMBDA fm :
                 <<<<FSer(fm, v, cn), FDeBack(fm, cn, 0)>>
                   \o [i \in DOMAIN ts |-> FDeEdit(fm, cn, 0, << <<"drop", FName(i)>> >>)]>>)
      \* no data: twice, so that factories are used twice
      nothing == Singles(<<De_(cn, D(<<>>)), De_(cn, D(<<>>)), DeT(cn, <<"tuple", <<>> >>),
                           FDe("json", cn, D(<<>>)), NewE("A", <<>>)>>)
      rows == << <<SerT(v), DeBack("tuple", cn, "unset", 0),
                   DeEdit("tuple", cn, "unset", 0, << <<"cut">> >>),
                   DeEdit("tuple", cn, "unset", 0, << <<"cut">>, <<"cut">> >>),
                   DeEdit("tuple", cn, "unset", 0, << <<"app", I("1")>> >>)>> >>
  IN Session(<<LeafDecl, <<"A", a>> >>, <<named>> \o fmts \o rows
             \o IF k = "none" THEN SubSeq(nothing, 1, 4) ELSE nothing)
Extras == <<"", "alias", "kw", "sser", "sde", "skip", "init", "deny">>
DefFamily(zz) == Cross3(Chunks(DefTypes, 5), <<"none", "val", "fac">>, Extras, DefSession)

\* ---------------------------------------------------------------- declarations
\* Which are rejected: every combination of what a field may be.
DeclKinds ==
  FlatMap(Bools, LAMBDA sk : FlatMap(Bools, LAMBDA ss : FlatMap(Bools, LAMBDA sd :
    Cross(Bools, <<"none", "val">>, LAMBDA ini, dk :
      [Field("x", <<"int">>) EXCEPT !.skip = sk, !.sser = ss, !.sde = sd, !.init = ini, !.dk = dk,
                                    !.dv = IF dk = "val" THEN I("1") ELSE None]))))
\* not: without init and without a default nothing gives the value; nor a
\* field without a default that is not read (a known finding)
DeclOK(f) == ~(~f.init /\ f.dk = "none") /\ ~(f.skip /\ f.dk = "none")
DeclFields == Filter(DeclKinds, DeclOK)
Ordered2(f, g) == f.dk = "none" \/ g.dk = "val"
DeclOne(f, tr) ==
  Session(<< <<"A", [Class("Alpha", <<f>>) EXCEPT !.transparent = tr]>> >>,
          IF f.sde /\ f.init /\ f.dk = "none" THEN <<>>
          ELSE IF tr /\ (~f.init \/ f.skip \/ (f.sser /\ f.sde)) THEN <<>>
          ELSE LET v == Obj("A", << <<"x", I("5")>> >>) IN
               RTs(v, <<"cls", "A">>) \o Singles(<<De_(<<"cls", "A">>, D(<<>>)), De_(<<"cls", "A">>, I("4"))>>))
DeclTwo(f, g, tr) ==
  Session(<< <<"A", [Class("Alpha", <<f, [g EXCEPT !.n = "y"]>>) EXCEPT !.transparent = tr]>> >>, <<>>)
DeclFamily(zz) ==
  Cross(DeclFields, Bools, DeclOne)
  \o FlatMap(Bools, LAMBDA tr : FlatMap(DeclFields, LAMBDA f :
        Map(Filter(DeclFields, LAMBDA g : Ordered2(f, g)), LAMBDA g : DeclTwo(f, g, tr))))

\* ---------------------------------------------------------------- the key space
Keys6 == <<"a", "b", "c", "z", "d">>
KeyData(ks) == D([i \in DOMAIN ks |-> P(ks[i], I(ToString(i)))])
\* How the enclosing class has its child, and what else it captures.
KeyChild(kind) ==
  CASE kind = "none" -> <<>>
    [] kind = "flat" -> <<[Field("x", <<"cls", "X">>) EXCEPT !.flat = TRUE]>>
    [] kind = "flatopt" -> <<[Field("x", <<"opt", <<"cls", "X">> >>) EXCEPT !.flat = TRUE]>>
    [] kind = "flatdef" -> <<Factory_([Field("x", <<"cls", "X">>) EXCEPT !.flat = TRUE],
                                      Obj("X", << <<"b", I("50")>>, <<"c", I("51")>> >>))>>
    [] kind = "nested" -> <<Field("x", <<"opt", <<"cls", "X">> >>)>>
    [] OTHER -> <<[Field("y", <<"cls", "Y">>) EXCEPT !.flat = TRUE]>>
KeyCapture(k) ==
  CASE k = "typed" -> <<[Field("r", <<"dict", <<"str">>, <<"any">>, "dict">>) EXCEPT !.flat = TRUE]>>
    [] k = "bare" -> <<[Field("r", <<"bare", "dict">>) EXCEPT !.flat = TRUE]>>
    [] OTHER -> <<>>
KeyX(k, dn) ==
  [Class("Xi", CASE k = "req" -> <<Field("b", <<"int">>), Field("c", <<"int">>)>>
                 [] k = "opt" -> <<Field("b", <<"opt", <<"int">> >>), Default(Field("c", <<"int">>), I("51"))>>
                 [] k = "ren" -> <<[Field("b", <<"int">>) EXCEPT !.rename = "d", !.alias = <<"z">>],
                                   Default(Field("c", <<"int">>), I("51"))>>
                 [] OTHER -> <<Field("b", <<"int">>), Default(Field("c", <<"int">>), I("51")),
                               Factory_([Field("rest", <<"dict", <<"str">>, <<"any">>, "dict">>) EXCEPT !.flat = TRUE], D(<<>>))>>)
     EXCEPT !.deny = dn]
KeySession(kind, cap, xk, dn) ==
  LET mayDef == kind = "flatdef" \/ cap # ""
      a == [Class("Alpha", <<Field("a", <<"int">>)>> \o KeyChild(kind)
                           \o (IF kind = "flatdef" THEN Map(KeyCapture(cap), LAMBDA f : Factory_(f, D(<<>>))) ELSE KeyCapture(cap)))
              EXCEPT !.deny = dn[1]]
      y == [Class("Upsilon", <<[Field("x", <<"cls", "X">>) EXCEPT !.flat = TRUE]>>) EXCEPT !.deny = FALSE]
      x == KeyX(xk, dn[2])
      cn == <<"cls", "A">>
      xs == IF xk = "req" \/ xk = "opt" \/ xk = "ren" THEN Obj("X", << <<"b", I("8")>>, <<"c", I("9")>> >>)
            ELSE Obj("X", << <<"b", I("8")>>, <<"c", I("9")>>, <<"rest", D(<<P("w", I("6"))>>)>> >>)
      xv == CASE kind = "deep" -> << <<"y", Obj("Y", << <<"x", xs>> >>)>> >>
              [] kind = "none" -> <<>> [] OTHER -> << <<"x", xs>> >>
      nv == CASE kind = "flatopt" -> << <<"x", None>> >> [] OTHER -> xv
      R(d) == IF cap = "" THEN <<>> ELSE << <<"r", d>> >>
      V(p, d) == Obj("A", << <<"a", I("5")>> >> \o p \o R(d))
      vs == <<V(xv, D(<<>>)), V(xv, D(<<P("z", I("1")), P("q", S("w"))>>)), V(nv, D(<<P("a", I("0")), P("k", None)>>))>>
      Rows(v) == << <<SerT(v), DeBack("tuple", cn, "unset", 0), DeEdit("tuple", cn, "unset", 0, << <<"cut">> >>)>> >>
  IN Session(<< <<"X", x>>, <<"Y", y>>, <<"A", a>> >>,
       Singles(Map(Subs(Keys6), LAMBDA ks : De_(cn, KeyData(ks))))
       \o Singles(Map(Subs(<<"b", "c", "z">>), LAMBDA ks : De_(cn, D(<<P("a", I("1"))>> \o Map(ks, LAMBDA k : P(k, None))))))
       \o FlatMap(vs, LAMBDA v : <<RT("dict", v, cn, "unset", "unset"), RT("dict", v, cn, "false", "true")>> \o Rows(v)
                                 \o <<FRT("json", v, cn), FRT("yaml", v, cn)>>))
KeyFamily(zz) ==
  FlatMap(<<"none", "flat", "flatopt", "flatdef", "nested", "deep">>, LAMBDA kind :
    FlatMap(<<"", "typed", "bare">>, LAMBDA cap :
      FlatMap(IF kind = "none" THEN <<"req">> ELSE IF kind = "flatdef" THEN <<"req", "opt", "ren">> ELSE <<"req", "opt", "ren", "cap">>, LAMBDA xk :
        Map(Flags4, LAMBDA dn : KeySession(kind, cap, xk, dn)))))
=============================================================================
