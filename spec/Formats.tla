------------------------------- MODULE Formats -------------------------------
(***************************************************************************)
(* What a document of each format decodes to, given the tree the object    *)
(* serializes to.  The decoding is done by an independent codec, so this   *)
(* says only what the format can express: JSON and TOML keys are text,     *)
(* tuples are lists everywhere but in pickle (and msgpack is decoded to    *)
(* tuples), YAML and TOML do not keep the order of entries.                *)
(* ANYX: the format cannot express the tree; anything may happen.          *)
(***************************************************************************)
EXTENDS SerdeCore

ANYX == <<"ANYX">>

\* Text of a dict key in JSON.
JsonKey(k, orj) ==
  CASE k[1] = "str" -> k
    [] k[1] = "float" /\ orj -> ANYX   \* spelled differently
    [] k[1] \in {"int", "float"} -> Text(sid, k)
    [] k[1] = "sub" /\ k[3][1] = "str" -> k[3]
    [] OTHER -> ANYX

FirstX(s) ==
  LET B == {i \in DOMAIN s : s[i][1] = "ANYX" \/ Bad(s[i])}
  IN IF B = {} THEN NONE ELSE ANYX

RECURSIVE FmtImage(_, _, _)
FmtSeq(fmt, kind, s, orj) ==
  LET r == TLCEval([i \in DOMAIN s |-> FmtImage(fmt, s[i], orj)])
  IN IF FirstX(r) # NONE THEN ANYX ELSE <<kind, r>>
FmtDict(fmt, ps, orj) ==
  LET ks == TLCEval([i \in DOMAIN ps |->
               CASE fmt = "json" -> JsonKey(ps[i][1], orj)
                 [] fmt = "toml" -> IF ps[i][1][1] = "str" THEN ps[i][1] ELSE ANYX
                 [] fmt = "pickle" -> ps[i][1]
                 [] fmt = "msgpack" -> FmtImage(fmt, ps[i][1], orj)
                 [] OTHER -> IF ps[i][1][1] \in {"str", "int", "float", "bool", "none"}
                             THEN ps[i][1] ELSE ANYX])
      vs == TLCEval([i \in DOMAIN ps |-> FmtImage(fmt, ps[i][2], orj)])
  IN IF FirstX(ks) # NONE \/ FirstX(vs) # NONE THEN ANYX
     ELSE IF ~NoDup(ks) THEN ANYX
     ELSE <<"dict", TLCEval([i \in DOMAIN ps |-> <<ks[i], vs[i]>>])>>

FmtImage(fmt, v, orj) ==
  IF fmt = "pickle" THEN (IF Mentions(v, {"opaque", "ANY"}) THEN ANYX ELSE v)
  ELSE
  CASE v[1] = "none" -> IF fmt = "toml" THEN ANYX ELSE v
    [] v[1] \in {"bool", "int", "float", "str"} -> v
    [] v[1] \in {"list", "tuple"} -> FmtSeq(fmt, IF fmt = "msgpack" THEN "tuple" ELSE "list", v[2], orj)
    [] v[1] = "listU" -> FmtSeq(fmt, "listU", v[2], orj)
    [] v[1] = "dict" -> FmtDict(fmt, v[2], orj)
    [] v[1] = "sub" -> IF fmt = "msgpack" \/ (fmt = "json" /\ ~orj) THEN v[3] ELSE ANYX
    [] v[1] = "set" /\ fmt = "yaml" ->
         LET r == FmtSeq(fmt, "set", v[2], orj) IN IF r = ANYX \/ Mentions(r, {"list", "dict"})
                                                   THEN ANYX ELSE r
    [] OTHER -> ANYX

\* listU may decode to a tuple
RECURSIVE EqF(_, _, _)
EqF(e, o, ord) ==
  IF e = o THEN TRUE
  ELSE IF e[1] = "listU" THEN o[1] \in {"list", "tuple"} /\ Len(e[2]) = Len(o[2])
          /\ \A i \in DOMAIN e[2] :
               Cardinality({j \in DOMAIN o[2] : EqF(e[2][i], o[2][j], ord)})
               = Cardinality({j \in DOMAIN e[2] : EqF(e[2][i], e[2][j], ord)})
  ELSE IF e[1] # o[1] THEN FALSE
  ELSE CASE e[1] \in {"list", "tuple"} ->
              Len(e[2]) = Len(o[2]) /\ \A i \in DOMAIN e[2] : EqF(e[2][i], o[2][i], ord)
         [] e[1] = "dict" ->
              /\ Len(e[2]) = Len(o[2])
              /\ IF ord THEN \A i \in DOMAIN e[2] :
                               EqF(e[2][i][1], o[2][i][1], ord) /\ EqF(e[2][i][2], o[2][i][2], ord)
                 ELSE \A i \in DOMAIN e[2] : \E j \in DOMAIN o[2] :
                               EqF(e[2][i][1], o[2][j][1], ord) /\ EqF(e[2][i][2], o[2][j][2], ord)
         [] OTHER -> Eq(e, o, ord)

\* Options of the format functions, and the tree they stand for.
FmtSn(fmt, o) == IF o = "unset" THEN fmt = "toml" ELSE o = "true"
FmtOpt(o, dflt) == IF o = "unset" THEN dflt ELSE o
FmtFn(e) == IF e.fmt = "msgpack" /\ e.named = "false" THEN "iter" ELSE "dict"

FmtTree(e) ==
  TopSer(e.v, e.c, SerCtx(FmtFn(e), FmtOpt(e.reuse, "false"), FmtOpt(e.csets, "true"),
                          FmtSn(e.fmt, e.sn)))
FmtExpected(e) ==
  LET t == FmtTree(e)
  IN IF t[1] \in {"ERR", "UERR"} THEN t
     ELSE IF t[1] = "ANY" THEN ANYX
     ELSE IF e.reuse = "true" /\ e.fmt # "pickle" THEN ANYX
     ELSE IF e.fmt = "toml" /\ t[1] # "dict" THEN ANYX
     ELSE FmtImage(e.fmt, t, e.orj)
Ordered(fmt, e) == fmt \notin {"yaml", "toml"} /\ e.sorted = FALSE

NumsOf(e) == IF e.fmt \in {"json", "yaml"} /\ e.cn # "false" THEN e.fmt ELSE "off"
FmtRead(e) == TopDe(e.c, e.d, DeCtx(FmtFn(e), "false", NumsOf(e)))
=============================================================================
