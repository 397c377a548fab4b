----------------------------- MODULE SerdeCore ------------------------------
(***************************************************************************)
(* What (de)serialization does: Ser/De follow the type annotations of a    *)
(* class, TopSer/TopDe the values and types handed to the API.             *)
(*                                                                         *)
(* A context x records the options in force and the class whose            *)
(* declaration is being followed:                                          *)
(*   fn "dict"/"iter"; reuse, csets "true"/"false"/"unset"; sn BOOLEAN;    *)
(*   coerce BOOLEAN; tag (tagging); sers, lsers, desers, ldesers (custom   *)
(*   serializers in force, later ones win); nums "off"/"json"/"yaml";      *)
(*   tv  type variable -> type argument                                    *)
(***************************************************************************)
EXTENDS SerdeBase

LastFor(list, t) ==
  LET I == {i \in DOMAIN list : list[i][1] = t}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i

Payload(v) ==
  CASE v[1] \in Containers -> v[1]
    [] v[1] = "enum" -> v[3]
    [] v[1] \in {"sub", "opaque"} -> v[1]
    [] OTHER -> Lex(v)
\* The custom serializers of the harness write "name:payload"; custom
\* deserializers give a constant or "name:payload", and fail on "bad".
Custom(name, v) == Str(name \o ":" \o Payload(v))
CustomDe(e, d) ==   \* e = <<type, name, const>>; const <<>> gives name:payload
  IF d = Str("bad") THEN ERR ELSE IF e[3] = <<>> THEN Custom(e[2], d) ELSE e[3]

SersOf(c) == SubSeq(regS, 1, snap[c][1]) \o C(c).csers
DesersOf(c) == SubSeq(regD, 1, snap[c][2]) \o C(c).cdesers

On(o) == o = "true"

(***************************************************************************)
(* Is v an instance of t, as far as choosing a union member goes when      *)
(* serializing?  "y", "n", or "m" when it is left open.                    *)
(***************************************************************************)
Tri(b) == IF b THEN "y" ELSE "n"
Tris(S) == IF S \subseteq {"y"} THEN "y" ELSE IF S = {"n"} THEN "n" ELSE "m"
AnyTri(S) == IF "y" \in S THEN "y" ELSE IF "m" \in S THEN "m" ELSE "n"
AllTri(S) == IF "n" \in S THEN "n" ELSE IF "m" \in S THEN "m" ELSE "y"

SeqKind(ann, tag) ==
  CASE ann \in {"list", "typing"} -> tag = "list"
    [] ann = "mutseq" -> tag \in {"list", "deque"}
    [] OTHER -> tag \in {"list", "tuple", "deque"}
SetKind(ann, tag) ==
  CASE ann \in {"set", "typing", "mutset"} -> tag = "set"
    [] OTHER -> tag \in {"set", "frozenset"}
BareKind(kind, tag) ==
  CASE kind = "dict" -> tag \in {"dict", "counter", "defaultdict"}
    [] OTHER -> tag = kind

RECURSIVE Inst(_, _)
Inst(v, t) ==
  CASE t[1] = "cls" -> Tri(v[1] = "obj" /\ IsSubclass(sid, v[2], t[2]))
    [] t[1] = "gen" -> Tri(v[1] = "obj" /\ IsSubclass(sid, v[2], t[2]))
    [] t[1] = "opt" -> IF v = NONE THEN "y" ELSE Inst(v, t[2])
    [] t[1] = "union" -> AnyTri({Inst(v, t[2][i]) : i \in DOMAIN t[2]})
    [] t[1] = "list" -> IF ~SeqKind(t[3], v[1]) THEN "n"
                        ELSE IF v[2] = <<>> THEN "y" ELSE Inst(v[2][1], t[2])
    [] t[1] = "deque" -> IF v[1] # "deque" THEN "n"
                         ELSE IF v[2] = <<>> THEN "y" ELSE Inst(v[2][1], t[2])
    [] t[1] \in {"set", "frozenset"} ->
         IF v[1] \notin {"set", "frozenset"} THEN "n"
         ELSE Tris({Inst(v[2][i], t[2]) : i \in DOMAIN v[2]})
    [] t[1] = "vtuple" -> IF v[1] # "tuple" THEN "n"
                          ELSE AllTri({Inst(v[2][i], t[2]) : i \in DOMAIN v[2]})
    [] t[1] = "tuple" -> IF v[1] # "tuple" \/ Len(v[2]) # Len(t[2]) THEN "n"
                         ELSE AllTri({Inst(v[2][i], t[2][i]) : i \in DOMAIN v[2]})
    [] t[1] \in {"dict", "ddict"} ->
         IF ~IsDict(v) THEN "n"
         ELSE IF Pairs(v) = <<>> THEN "y"
         ELSE AllTri({Inst(Pairs(v)[1][1], t[2]), Inst(Pairs(v)[1][2], t[3])})
    [] t[1] = "counter" -> IF v[1] # "counter" THEN "n"
                           ELSE IF v[2] = <<>> THEN "y" ELSE Inst(v[2][1][1], t[2])
    [] t[1] = "bare" ->
         IF t[2] \in {"set", "frozenset"} THEN Tri(v[1] \in {"set", "frozenset"})
         ELSE Tri(BareKind(t[2], v[1]))
    [] t[1] \in {"any", "tv"} -> "y"
    [] t[1] = "none" -> Tri(v = NONE)
    [] t[1] = "lit" -> Tri(\E i \in DOMAIN t[2] : PyEq(sid, t[2][i], v))
    [] t[1] \in {"int", "float", "str", "bool"} -> Tri(IsPrim(sid, v, t[1]))
    [] t[1] = "newtype" -> Tri(IsPrim(sid, v, t[3]))
    [] t[1] = "sub" -> Tri(v[1] = "sub" /\ v[2] = t[2])
    [] t[1] = "strlike" -> Tri(IsLib(v, t[2]))
    [] t[1] = "dt" -> Tri(IsLib(v, t[2]))
    [] t[1] = "enum" -> Tri(v[1] = "enum" /\ v[2] = t[2])
    [] t[1] = "alias" -> Inst(v, t[2])
    [] OTHER -> "m"

(***************************************************************************)
(* Conformance to an annotation as the strict mode checks it: "y" accepted,*)
(* "n" rejected, "m" only some elements are wrong, where the run time      *)
(* checker samples.                                                        *)
(***************************************************************************)
RECURSIVE Conf(_, _)
Elems(s, t) == IF s = <<>> THEN "y"
               ELSE Tris({Conf(t, s[i]) : i \in DOMAIN s})
ConfPairs(ps, K, V) ==
  IF ps = <<>> THEN "y"
  ELSE Tris({AllTri({Conf(K, ps[i][1]), Conf(V, ps[i][2])}) : i \in DOMAIN ps})
Conf(t, v) ==
  IF v[1] \in {"opaque"} THEN (IF t[1] \in {"any", "tv"} THEN "y" ELSE "m")
  ELSE
  CASE t[1] = "cls" -> Tri(v[1] = "obj" /\ IsSubclass(sid, v[2], t[2]))
    [] t[1] = "gen" -> IF v[1] = "obj" /\ IsSubclass(sid, v[2], t[2]) THEN "y"
                       ELSE "n"
    [] t[1] = "opt" -> IF v = NONE THEN "y" ELSE Conf(t[2], v)
    [] t[1] = "union" -> AnyTri({Conf(t[2][i], v) : i \in DOMAIN t[2]})
    [] t[1] = "list" -> IF v[1] = "str" /\ t[3] \in {"seq", "tseq"} THEN "m"
                        ELSE IF ~SeqKind(t[3], v[1]) THEN "n" ELSE Elems(v[2], t[2])
    [] t[1] = "deque" -> IF v[1] # "deque" THEN "n" ELSE Elems(v[2], t[2])
    [] t[1] = "set" -> IF ~SetKind(t[3], v[1]) THEN "n" ELSE Elems(v[2], t[2])
    [] t[1] = "frozenset" -> IF v[1] # "frozenset" THEN "n" ELSE Elems(v[2], t[2])
    [] t[1] = "vtuple" -> IF v[1] # "tuple" THEN "n" ELSE Elems(v[2], t[2])
    [] t[1] = "tuple" -> IF v[1] # "tuple" \/ Len(v[2]) # Len(t[2]) THEN "n"
                         ELSE AllTri({Conf(t[2][i], v[2][i]) : i \in DOMAIN v[2]})
    [] t[1] = "dict" -> IF ~IsDict(v) THEN "n" ELSE ConfPairs(Pairs(v), t[2], t[3])
    [] t[1] = "ddict" -> IF v[1] # "defaultdict" THEN "n" ELSE ConfPairs(v[3], t[2], t[3])
    [] t[1] = "counter" -> IF v[1] # "counter" THEN "n"
                           ELSE IF \E i \in DOMAIN v[2] : v[2][i][2][1] # "int"
                           THEN (IF v[2] # <<>> /\ Elems([i \in DOMAIN v[2] |-> v[2][i][1]], t[2]) = "n"
                                 THEN "n" ELSE "m")
                           ELSE ConfPairs(v[2], t[2], <<"int">>)
    [] t[1] = "bare" -> Tri(BareKind(t[2], v[1]))
    [] t[1] \in {"any", "tv"} -> "y"
    [] t[1] = "none" -> Tri(v = NONE)
    [] t[1] = "lit" ->
         Tri(\E i \in DOMAIN t[2] : PyEq(sid, t[2][i], v) /\
               (\E j \in DOMAIN t[2] : Unsub(sid, v)[1] = t[2][j][1]
                                       \/ (v[1] = "bool" /\ t[2][j][1] = "int")))
    [] t[1] \in {"int", "float", "str", "bool"} -> Tri(IsPrim(sid, v, t[1]))
    [] t[1] = "newtype" -> Tri(IsPrim(sid, v, t[3]))
    [] t[1] = "sub" -> Tri(v[1] = "sub" /\ v[2] = t[2])
    [] t[1] \in {"strlike", "dt"} -> Tri(IsLib(v, t[2]))
    [] t[1] = "enum" -> Tri(v[1] = "enum" /\ v[2] = t[2])
    [] t[1] = "alias" -> Conf(t[2], v)
    [] OTHER -> "m"

(***************************************************************************)
(* Coercion of a primitive                                                 *)
(***************************************************************************)
Ctor(t) == CASE t[1] = "sub" -> "sub:" \o t[2]
             [] t[1] = "newtype" -> t[3]
             [] OTHER -> t[1]
Coerce(t, v) == IF v = NONE THEN ERR ELSE Conv(sid, Ctor(t), v)

(***************************************************************************)
(* Iterating a value                                                       *)
(***************************************************************************)
IterOf(v) ==
  CASE v[1] \in {"list", "tuple", "deque", "set", "frozenset"} -> v[2]
    [] IsDict(v) -> TLCEval([i \in DOMAIN Pairs(v) |-> Pairs(v)[i][1]])
    [] OTHER -> <<>>
IterBad(v) ==  \* NONE when it can be iterated in a defined order
  CASE v[1] \in {"list", "tuple", "deque", "set", "frozenset"} -> NONE
    [] IsDict(v) -> ANY
    [] v[1] = "str" -> ANY
    [] v[1] = "sub" /\ v[3][1] = "str" -> ANY
    [] v[1] = "enum" -> IF Sessions[sid].enums[v[2]].mixin = "str" THEN ANY ELSE ERR
    [] v[1] = "opaque" -> ANY
    [] v[1] \in {"IPv4Network", "IPv6Network"} -> ANY
    [] OTHER -> ERR

Dedup(s) == LET RECURSIVE D(_)
                D(q) == IF q = <<>> THEN <<>>
                        ELSE LET r == D(SubSeq(q, 1, Len(q) - 1)) e == q[Len(q)]
                             IN IF \E i \in DOMAIN r : PyEq(sid, r[i], e) THEN r
                                ELSE Append(r, e)
            IN IF NoDup(s) /\ \A i, j \in DOMAIN s : i = j \/ ~PyEq(sid, s[i], s[j])
               THEN s ELSE D(s)

MkSet(kind, s) ==
  LET b == FirstBad(s) IN
  IF b # NONE THEN b
  ELSE IF \E i \in DOMAIN s : ~Hashable(s[i]) THEN ERR
  ELSE <<kind, Dedup(s)>>
MkSeq(kind, s) == LET b == FirstBad(s) IN IF b # NONE THEN b ELSE <<kind, s>>
MkTuple(s) == MkSeq("tuple", s)

\* Keys that Python takes for one (1, 1.0, True) do not occur together.
MkMap(kind, ks, vs) ==
  LET all == TLCEval([i \in 1..(2 * Len(ks)) |-> IF i % 2 = 1 THEN ks[(i + 1) \div 2] ELSE vs[i \div 2]])
      b == FirstBad(all)
  IN IF b # NONE THEN b
     ELSE IF \E i \in DOMAIN ks : ~Hashable(ks[i]) THEN ERR
     ELSE <<kind, DictOf(TLCEval([i \in DOMAIN ks |-> <<ks[i], vs[i]>>]))>>

(***************************************************************************)
(* Serialization                                                           *)
(***************************************************************************)
RECURSIVE Ser(_, _, _, _), SerObj(_, _), TopSer(_, _, _), UnionSer(_, _, _),
          SerMember(_, _, _)

SerSeq(T, v, x, dm) == TLCEval([i \in DOMAIN IterOf(v) |-> Ser(T, IterOf(v)[i], x, dm)])

WithTag(res, tag, name) ==
  IF res[1] # "dict" THEN ANY
  ELSE <<"dict", DictOf(res[2] \o << <<Str(tag), Str(name)>> >>)>>

SerMember(t, v, x) ==
  LET r == Ser(t, v, x, "")
  IN IF t[1] # "cls" \/ Bad(r) THEN r
     ELSE LET name == C(t[2]).name IN
       CASE x.tag[1] = "external" -> <<"dict", << <<Str(name), r>> >> >>
         [] x.tag[1] = "internal" -> WithTag(r, x.tag[2], name)
         [] x.tag[1] = "adjacent" ->
              <<"dict", DictOf(<< <<Str(x.tag[3]), r>>, <<Str(x.tag[2]), Str(name)>> >>)>>
         [] OTHER -> r

UnionSer(ms, v, x) ==
  LET y == [x EXCEPT !.fn = "dict", !.coerce = FALSE, !.lsers = <<>>]
      H == {i \in DOMAIN ms : Inst(v, ms[i]) # "n"}
  IN IF H = {} THEN ERR
     ELSE LET i == MinOf(H)
          IN IF Inst(v, ms[i]) = "m" \/ ms[i][1] = "gen" THEN ANY ELSE SerMember(ms[i], v, y)

\* dm: "" or "default" (the field carries the default marker)
Ser(t, v, x, dm) ==
  LET i == IF dm = "" THEN LastFor(x.sers, t) ELSE 0
      l == IF dm = "" THEN LastFor(x.lsers, t) ELSE 0
      nt == dm = "" /\ t[1] = "newtype" /\ LastFor(x.lsers, <<t[3]>>) # 0
      k == t[1]
  IN
  IF i # 0 THEN (IF Inst(v, t) = "y" THEN Custom(x.sers[i][2], v) ELSE ANY)
  ELSE IF l # 0 THEN (IF Inst(v, t) = "y" THEN Custom(x.lsers[l][2], v) ELSE ANY)
  ELSE IF v[1] = "opaque" \/ nt THEN ANY
  ELSE
  CASE k \in {"cls", "gen"} -> IF v[1] = "obj" THEN SerObj(v, x) ELSE ERR
    [] k = "opt" -> IF v = NONE THEN NONE ELSE Ser(t[2], v, x, dm)
    [] k \in {"list", "deque", "vtuple"} ->
         LET b == IterBad(v) IN
         IF b # NONE THEN b
         ELSE IF v[1] \in {"set", "frozenset"} /\ Len(v[2]) > 1 THEN ANY
         ELSE MkSeq(IF k = "vtuple" THEN "tuple" ELSE "list", SerSeq(t[2], v, x, dm))
    [] k \in {"set", "frozenset"} ->
         LET b == IterBad(v) IN
         IF b # NONE THEN b
         ELSE IF On(x.csets) THEN MkSeq("listU", SerSeq(t[2], v, x, dm))
         ELSE MkSet("set", SerSeq(t[2], v, x, dm))
    [] k \in {"dict", "ddict"} ->
         IF ~IsDict(v) THEN ERR
         ELSE LET ps == Pairs(v)
              IN MkMap("dict", TLCEval([j \in DOMAIN ps |-> Ser(t[2], ps[j][1], x, dm)]),
                               TLCEval([j \in DOMAIN ps |-> Ser(t[3], ps[j][2], x, dm)]))
    [] k = "counter" ->
         IF ~IsDict(v) THEN ERR
         ELSE LET ps == Pairs(v)
              IN MkMap("dict", TLCEval([j \in DOMAIN ps |-> Ser(t[2], ps[j][1], x, dm)]),
                               TLCEval([j \in DOMAIN ps |-> ps[j][2]]))
    [] k = "tuple" ->
         IF v[1] \in {"tuple", "list", "deque"}
         THEN IF Len(v[2]) > Len(t[2]) THEN ANY
              ELSE IF Len(v[2]) < Len(t[2])
              THEN (LET b == FirstBad(TLCEval([j \in DOMAIN v[2] |-> Ser(t[2][j], v[2][j], x, dm)]))
                    IN IF b = NONE THEN ERR ELSE b)
              ELSE MkTuple(TLCEval([j \in DOMAIN t[2] |-> Ser(t[2][j], v[2][j], x, dm)]))
         ELSE IF IterBad(v) = ERR THEN ERR ELSE ANY
    [] k = "bare" ->
         (CASE t[2] \in {"set", "frozenset"} ->
                IF On(x.csets) THEN (IF IterBad(v) # NONE THEN IterBad(v) ELSE <<"listU", v[2]>>)
                ELSE v
            [] t[2] = "deque" -> IF IterBad(v) # NONE THEN IterBad(v) ELSE <<"list", v[2]>>
            [] t[2] = "counter" -> IF IsDict(v) THEN <<"dict", Pairs(v)>> ELSE ANY
            [] OTHER -> v)
    [] k = "enum" ->
         IF v[1] = "enum" THEN EnumVal(sid, v)
         ELSE LET m == EnumOf(sid, t[2], v) IN IF m = ERR THEN ERR ELSE EnumVal(sid, m)
    [] k \in {"int", "float", "str", "bool", "newtype", "sub"} ->
         IF x.coerce THEN Coerce(t, v) ELSE v
    [] k = "union" -> UnionSer(t[2], v, x)
    [] k = "strlike" -> IF On(x.reuse) THEN v ELSE Text(sid, v)
    [] k = "dt" -> IF On(x.reuse) THEN v ELSE Iso(sid, v)
    [] k = "none" -> NONE
    [] k \in {"any", "tv"} ->
         TopSer(v, <<>>, [x EXCEPT !.fn = "dict", !.reuse = "false"])
    [] k = "lit" -> v
    [] k = "alias" -> Ser(t[2], v, x, dm)
    [] OTHER -> ANY

SerField(f, v, y) ==
  IF f.fser \notin {"", "default"} THEN Custom(f.fser, v) ELSE Ser(f.t, v, y, f.fser)

\* Is the field left out of dict output, given its value and what it
\* serializes to?
\* Equal to the default: as the value is, or as it is serialized.
DefaultData(f) ==
  IF f.dv[1] = "obj"
  THEN TopSer(f.dv, <<>>, [fn |-> "dict", reuse |-> "unset", csets |-> "unset", sn |-> FALSE,
                coerce |-> FALSE, tag |-> <<"external">>, sers |-> <<>>, lsers |-> <<>>])
  ELSE f.dv
LeftOut(f, raw, sub, sn) ==
  CASE f.mode = "if" -> PyEq(sid, sub, f.sif[1])
    [] f.mode = "false" -> ~Truthy(sid, sub)
    [] f.mode = "default" -> f.dk # "none" /\
          (PyEq(sid, sub, DefaultData(f)) \/ PyEq(sid, raw, DefaultData(f)))
    [] f.mode = "none" -> sub = NONE
    [] OTHER -> FALSE
LeaveOut(f, raw, sub, sn) ==
  LeftOut(f, raw, sub, sn) \/ (sn /\ sub = NONE)

RECURSIVE AddAbsent(_, _)
AddAbsent(res, ps) ==
  IF ps = <<>> THEN res
  ELSE AddAbsent(IF HasKey(res, Head(ps)[1]) THEN res ELSE Append(res, Head(ps)), Tail(ps))

SerObj(v, x) ==
  LET c == C(v[2])
      y == [x EXCEPT !.reuse = IF x.reuse = "unset" THEN c.reuse ELSE @,
                     !.csets = IF x.csets = "unset" THEN c.csets ELSE @,
                     !.coerce = (c.tc = "coerce"), !.tag = c.tag,
                     !.sers = SersOf(v[2]), !.lsers = c.lsers]
      N == Len(c.fs)
      W == {i \in 1..N : c.fs[i].w}
      raw(i) == FieldVal(v, c.fs[i].n)
      subs == TLCEval([i \in 1..N |-> IF c.fs[i].w THEN SerField(c.fs[i], raw(i), y) ELSE NONE])
      \* class variables come last
      vars == TLCEval([i \in DOMAIN c.cvars |-> Ser(c.cvars[i][2], c.cvars[i][3], y, "")])
      RECURSIVE AddVars(_, _)
      AddVars(i, res) ==
        IF i > Len(c.cvars) THEN res
        ELSE IF x.sn /\ vars[i] = NONE THEN AddVars(i + 1, res)
        ELSE AddVars(i + 1, DictOf(Append(res, <<Str(c.cvars[i][1]), vars[i]>>)))
      RECURSIVE Build(_, _)
      Build(i, res) ==
        IF i > N THEN AddVars(1, res)
        ELSE IF i \notin W THEN Build(i + 1, res)
        ELSE LET f == c.fs[i] sub == subs[i] IN
          IF f.flat
          THEN IF ~Truthy(sid, sub) \/ LeftOut(f, sub, sub, x.sn) THEN Build(i + 1, res)
               ELSE Build(i + 1, AddAbsent(res, sub[2]))
          ELSE IF LeaveOut(f, raw(i), sub, x.sn) THEN Build(i + 1, res)
          ELSE Build(i + 1, DictOf(Append(res, <<Str(f.wire), sub>>)))
      RECURSIVE Row(_)
      Row(i) ==
        IF i > N THEN <<>>
        ELSE IF i \notin W THEN Row(i + 1)
        ELSE LET f == c.fs[i] sub == subs[i] IN
          IF f.child # ""
          THEN (IF sub = NONE THEN TLCEval([j \in 1..f.slotsW |-> NONE])
                ELSE IF sub[1] = "tuple" THEN sub[2] ELSE <<ANY>>) \o Row(i + 1)
          ELSE <<sub>> \o Row(i + 1)
      b == FirstBad(subs \o vars)
  IN IF c.transparent
     THEN LET T == {i \in 1..N : c.fs[i].init /\ ~c.fs[i].skip /\ ~(c.fs[i].sser /\ c.fs[i].sde)}
              i == MinOf(T)
          IN SerField(c.fs[i], raw(i), y)
     ELSE IF b # NONE THEN b
     ELSE IF \E i \in W : c.fs[i].flat /\ subs[i] # NONE /\ ~IsDict(subs[i]) /\ x.fn = "dict"
     THEN ANY
     ELSE IF x.fn = "dict" THEN <<"dict", Build(1, <<>>)>>
     ELSE MkTuple(Row(1) \o vars)

\* Values handed to the API without an annotation.
KeepKeys(v, x) ==
  LET ps == Pairs(v) IN
  MkMap("dict", TLCEval([i \in DOMAIN ps |-> ps[i][1]]),
                TLCEval([i \in DOMAIN ps |-> TopSer(ps[i][2], <<>>, x)]))
TypeOf(v) ==
  CASE v[1] \in {"int", "float", "str", "bool"} -> <<v[1]>>
    [] v[1] = "obj" -> <<"cls", v[2]>>
    [] v[1] = "enum" -> <<"enum", v[2]>>
    [] v[1] \in {"datetime", "date", "time"} -> <<"dt", v[1]>>
    [] v[1] = "sub" -> <<"sub", v[2], v[3][1]>>
    [] v[1] \in Containers \cup {"opaque", "none"} -> <<"?">>
    [] OTHER -> <<"strlike", v[1]>>

RECURSIVE Unalias(_)
Unalias(t) == IF t # <<>> /\ t[1] = "alias" THEN Unalias(t[2]) ELSE t

TopSer(v, c0, x) ==
  LET c == Unalias(c0)
      i == LastFor(regS, TypeOf(v))
      w == [x EXCEPT !.coerce = FALSE, !.sers = regS, !.lsers = <<>>, !.tag = <<"external">>]
  IN
  IF c # <<>> /\ c[1] = "union" THEN UnionSer(c[2], v, w)
  ELSE IF c # <<>> /\ c[1] = "tagged" THEN UnionSer(c[2], v, [w EXCEPT !.tag = c[3]])
  ELSE IF v = NONE THEN NONE
  ELSE IF v[1] = "opaque" THEN ANY
  ELSE IF i # 0 THEN Custom(regS[i][2], v)
  ELSE CASE v[1] = "obj" -> SerObj(v, x)
    [] v[1] \in {"list", "deque"} ->
         MkSeq("list", TLCEval([j \in DOMAIN v[2] |-> TopSer(v[2][j], <<>>, x)]))
    [] v[1] = "tuple" -> MkTuple(TLCEval([j \in DOMAIN v[2] |-> TopSer(v[2][j], <<>>, x)]))
    [] v[1] \in {"set", "frozenset"} ->
         MkSeq("listU", TLCEval([j \in DOMAIN v[2] |-> TopSer(v[2][j], <<>>, x)]))
    [] IsDict(v) -> KeepKeys(v, x)
    [] v[1] = "enum" -> EnumVal(sid, v)
    [] v[1] \in {"int", "float", "str", "bool", "sub"} -> v
    [] v[1] \in {"datetime", "date", "time"} ->
         IF x.reuse = "false" THEN Iso(sid, v) ELSE v
    [] OTHER -> IF x.reuse = "false" THEN Text(sid, v) ELSE v

SerCtx(fn, reuse, csets, sn) ==
  [fn |-> fn, reuse |-> reuse, csets |-> csets, sn |-> sn, coerce |-> FALSE,
   tag |-> <<"external">>, sers |-> <<>>, lsers |-> <<>>]

(***************************************************************************)
(* Deserialization                                                         *)
(***************************************************************************)
RECURSIVE De(_, _, _, _), DeClass(_, _, _, _), TopDe(_, _, _), UnionDe(_, _, _)

Nums(mode, d) ==
  CASE d[1] = "bool" -> ERR
    [] d[1] \in {"int", "float"} -> Conv(sid, "float", d)
    [] d[1] = "sub" /\ d[3][1] \in {"int", "float"} -> Conv(sid, "float", d)
    [] d[1] = "str" /\ mode = "yaml" -> Conv(sid, "float", d)
    [] d[1] \in {"enum", "opaque", "sub"} -> ANY
    [] OTHER -> ERR

\* Type arguments seen from a class with the bindings tv.
RECURSIVE Subst(_, _)
Subst(t, tv) ==
  CASE t[1] = "tv" -> IF Has(tv, t[2]) THEN tv[t[2]] ELSE <<"any">>
    [] t[1] \in {"opt", "list", "set", "frozenset", "deque", "vtuple", "counter"} ->
         [t EXCEPT ![2] = Subst(@, tv)]
    [] t[1] \in {"dict", "ddict"} -> [t EXCEPT ![2] = Subst(@, tv), ![3] = Subst(@, tv)]
    [] t[1] = "tuple" -> [t EXCEPT ![2] = TLCEval([i \in DOMAIN @ |-> Subst(@[i], tv)])]
    [] t[1] = "gen" -> [t EXCEPT ![3] = TLCEval([i \in DOMAIN @ |-> Subst(@[i], tv)])]
    [] OTHER -> t
NoTv == TLCEval([n \in {} |-> <<"any">>])
Bind(cid, args, tv) ==
  LET vars == C(cid).tvars
  IN TLCEval([n \in Range(vars) |->
        Subst(args[MinOf({i \in DOMAIN vars : vars[i] = n})], tv)])

DictKey(K, d, y, dm) ==
  LET base == CASE K[1] \in {"newtype"} -> K[3] [] K[1] = "sub" -> K[3] [] OTHER -> K[1]
  IN IF base \in {"int", "float"} /\ ~(dm = "" /\ LastFor(y.desers, K) # 0)
     THEN Coerce(K, d) ELSE De(K, d, y, dm)

\* name of the class used as default factory of a defaultdict
Factory(V) ==
  CASE V[1] = "bare" -> V[2]
    [] V[1] = "vtuple" -> "tuple"
    [] V[1] = "ddict" -> "defaultdict"
    [] V[1] \in {"cls", "gen"} -> C(V[2]).name
    [] V[1] \in {"sub", "strlike", "dt", "enum"} -> V[2]
    [] OTHER -> V[1]

DeSeq(T, d, y, dm) == TLCEval([i \in DOMAIN IterOf(d) |-> De(T, IterOf(d)[i], y, dm)])
MapBad(d) == IF d[1] = "opaque" THEN ANY ELSE IF IsDict(d) THEN NONE ELSE ERR
DeMap(kind, K, V, d, y, dm) ==
  LET ps == Pairs(d)
  IN MkMap(kind, TLCEval([i \in DOMAIN ps |-> DictKey(K, ps[i][1], y, dm)]),
                 TLCEval([i \in DOMAIN ps |-> De(V, ps[i][2], y, dm)]))
MkDDict(m, V) == IF Bad(m) THEN m ELSE <<"defaultdict", Factory(V), m[2]>>

De(t, d, y, dm) ==
  LET i == IF dm = "" THEN LastFor(y.desers, t) ELSE 0
      k == t[1]
  IN
  IF i # 0 THEN CustomDe(y.desers[i], d)
  ELSE IF d[1] = "opaque" THEN ANY
  ELSE
  CASE k = "cls" -> DeClass(t[2], d, y, NoTv)
    [] k = "gen" -> DeClass(t[2], d, y, Bind(t[2], t[3], y.tv))
    [] k = "opt" -> IF d = NONE THEN NONE ELSE De(t[2], d, y, dm)
    [] k = "list" ->
         IF IterBad(d) # NONE THEN IterBad(d)
         ELSE IF d[1] \in {"set", "frozenset"} /\ Len(d[2]) > 1 THEN ANY
         ELSE MkSeq("list", DeSeq(t[2], d, y, dm))
    [] k = "deque" ->
         IF IterBad(d) # NONE THEN IterBad(d)
         ELSE IF d[1] \in {"set", "frozenset"} /\ Len(d[2]) > 1 THEN ANY
         ELSE MkSeq("deque", DeSeq(t[2], d, y, dm))
    [] k = "vtuple" ->
         IF IterBad(d) # NONE THEN IterBad(d)
         ELSE IF d[1] \in {"set", "frozenset"} /\ Len(d[2]) > 1 THEN ANY
         ELSE MkTuple(DeSeq(t[2], d, y, dm))
    [] k \in {"set", "frozenset"} ->
         IF IterBad(d) # NONE THEN IterBad(d) ELSE MkSet(k, DeSeq(t[2], d, y, dm))
    [] k = "dict" -> IF MapBad(d) # NONE THEN MapBad(d) ELSE DeMap("dict", t[2], t[3], d, y, dm)
    [] k = "ddict" -> IF MapBad(d) # NONE THEN MapBad(d)
                      ELSE MkDDict(DeMap("dict", t[2], t[3], d, y, dm), t[3])
    [] k = "counter" ->
         IF MapBad(d) # NONE THEN MapBad(d)
         ELSE LET ps == Pairs(d)
              IN MkMap("counter", TLCEval([j \in DOMAIN ps |-> DictKey(t[2], ps[j][1], y, dm)]),
                                  TLCEval([j \in DOMAIN ps |-> ps[j][2]]))
    [] k = "tuple" ->
         IF d[1] \in {"tuple", "list", "deque"}
         THEN IF Len(d[2]) > Len(t[2]) THEN ANY
              ELSE IF Len(d[2]) < Len(t[2])
              THEN (LET b == FirstBad(TLCEval([j \in DOMAIN d[2] |-> De(t[2][j], d[2][j], y, dm)]))
                    IN IF b = NONE THEN ERR ELSE b)
              ELSE MkTuple(TLCEval([j \in DOMAIN t[2] |-> De(t[2][j], d[2][j], y, dm)]))
         ELSE IF IterBad(d) = ERR THEN ERR ELSE ANY
    [] k = "bare" ->
         (CASE t[2] = "dict" -> d
            [] t[2] = "counter" ->
                 IF d[1] = "dict" THEN <<"counter", Pairs(d)>>
                 ELSE IF IsDict(d) THEN ANY
                 ELSE IF d[1] \in {"list", "tuple", "str", "set", "frozenset", "deque", "none",
                                   "sub", "enum", "opaque", "listU", "IPv4Network",
                                   "IPv6Network"} THEN ANY
                 ELSE ERR
            [] OTHER ->
                 IF IterBad(d) # NONE THEN IterBad(d)
                 ELSE IF t[2] \in {"set", "frozenset"} THEN MkSet(t[2], d[2])
                 ELSE IF d[1] \in {"set", "frozenset"} /\ Len(d[2]) > 1 THEN ANY
                 ELSE <<t[2], d[2]>>)
    [] k = "enum" -> DeEnum(sid, t[2], d)
    [] k = "union" -> UnionDe(t[2], d, y)
    [] k = "strlike" -> IF On(y.reuse) /\ IsLib(d, t[2]) THEN d ELSE Conv(sid, t[2], d)
    [] k = "dt" -> IF On(y.reuse) /\ IsLib(d, t[2]) THEN d ELSE Conv(sid, "dt:" \o t[2], d)
    [] k = "none" -> NONE
    [] k = "any" -> d
    [] k = "alias" -> De(t[2], d, y, dm)
    [] k \in {"int", "str", "bool"} -> IF y.coerce THEN Coerce(t, d) ELSE d
    [] k = "float" -> IF y.nums # "off" THEN Nums(y.nums, d)
                      ELSE IF y.coerce THEN Coerce(t, d) ELSE d
    [] k = "newtype" ->
         IF t[3] = "float" /\ y.nums # "off" THEN Nums(y.nums, d)
         ELSE IF y.coerce THEN Coerce(t, d) ELSE d
    [] k = "sub" ->
         IF t[3] = "float" /\ y.nums # "off"
         THEN (LET n == Nums(y.nums, d) IN IF Bad(n) THEN n ELSE Conv(sid, Ctor(t), n))
         ELSE Coerce(t, d)
    [] k = "tv" -> TopDe(IF Has(y.tv, t[2]) THEN y.tv[t[2]] ELSE <<"any">>, d,
                         [y EXCEPT !.fn = "dict"])
    [] k = "lit" ->
         IF \E j \in DOMAIN t[2] : PyEq(sid, t[2][j], d) THEN d ELSE ERR
    [] OTHER -> ANY

(***************************************************************************)
(* Deserializing into a class: dict data by name, tuple data by position   *)
(***************************************************************************)
RECURSIVE MentionsType(_, _)
MentionsType(t, list) ==   \* does t contain a type that has an entry in the list?
  LastFor(list, t) # 0 \/ (t[1] = "newtype" /\ LastFor(list, <<t[3]>>) # 0) \/
  CASE t[1] \in {"opt", "list", "set", "frozenset", "deque", "vtuple", "counter", "alias"} ->
         MentionsType(t[2], list)
    [] t[1] \in {"dict", "ddict"} -> MentionsType(t[2], list) \/ MentionsType(t[3], list)
    [] t[1] \in {"tuple", "union"} -> \E i \in DOMAIN t[2] : MentionsType(t[2][i], list)
    [] OTHER -> FALSE

\* A field's data once it has been located.
DeField(f, d, y) ==
  IF f.fde \notin {<<>>, <<"default">>} THEN CustomDe(f.fde, d)
  ELSE IF y.ldesers # <<>> /\ f.fde = <<>> /\ LastFor(y.desers, f.t) = 0
       /\ MentionsType(f.t, y.ldesers)
  THEN (IF LastFor(y.ldesers, f.t) # 0 THEN CustomDe(y.ldesers[LastFor(y.ldesers, f.t)], d)
        ELSE ANY)
  ELSE De(f.t, d, y, IF f.fde = <<>> THEN "" ELSE "default")

\* Union[.., None]: a missing entry reads as None.
NoneUnion(t) == t[1] = "union" /\ \E i \in DOMAIN t[2] : t[2][i] = <<"none">>

Project(ps, f, c) ==
  LET keep == f.ckCapture \/ ~c.capture
      Sel(p) == \/ p[1][1] = "str" /\ p[1][2] \in f.ckKnown
                \/ keep /\ ~(p[1][1] = "str" /\ p[1][2] \in c.known)
  IN SelectSeq(ps, Sel)

\* Does the (projected) data hold anything for the flattened child?
Holds(ps, f, Test(_)) ==
  \E i \in DOMAIN ps : Test(ps[i][2]) /\
     (f.ckCapture \/ (ps[i][1][1] = "str" /\ ps[i][1][2] \in f.ckKnown))
NotNone(v) == v # NONE
Always(v) == TRUE

DeNamed(c, f, ps, y) ==   \* one field of dict data
  LET here == {i \in DOMAIN f.names : HasKey(ps, Str(f.names[i]))}
      val == Get(ps, Str(f.names[MinOf(here)]))
      custom == f.fde \notin {<<>>, <<"default">>} \/
                (f.fde = <<>> /\ LastFor(y.desers, f.t) # 0)
      legacy == f.fde = <<>> /\ ~custom /\ MentionsType(f.t, y.ldesers)
  IN IF f.capture
     THEN <<"dict", LET Sel(p) == ~(p[1][1] = "str" /\ p[1][2] \in c.known)
                    IN SelectSeq(ps, Sel)>>
     ELSE IF f.child # "" /\ (custom \/ legacy
             \/ (f.fde # <<"default">> /\ MentionsType(f.t, y.desers))) THEN ANY
     ELSE IF f.child # ""
     THEN LET q == Project(ps, f, c)
              sub == <<"dict", q>>
          IN IF f.dk # "none" /\ ~Holds(q, f, Always) THEN f.dv
             ELSE IF f.t[1] = "opt" THEN
                    (IF Holds(q, f, NotNone) THEN De(f.t[2], sub, y, "default") ELSE NONE)
             ELSE De(f.t, sub, y, "default")
     ELSE IF here # {} THEN
            (IF f.t[1] = "opt" /\ val = NONE /\ ~custom /\ ~legacy THEN NONE
             ELSE DeField(f, val, y))
     ELSE IF f.dk # "none" THEN (IF legacy THEN ANY ELSE f.dv)
     ELSE IF legacy THEN ANY
     ELSE IF f.t[1] = "opt" \/ NoneUnion(f.t) THEN
            (IF custom THEN ANY ELSE IF f.t[1] = "opt" THEN NONE ELSE De(f.t, NONE, y, ""))
     ELSE IF f.t[1] = "alias" THEN ANY
     ELSE IF f.t[1] = "none" THEN (IF custom THEN ANY ELSE NONE)
     ELSE ERR

MkObj(cid, vals) ==  \* vals: one result per field; checks of the constructor
  LET c == C(cid)
      b == FirstBad(vals)
      checks == {Conf(c.fs[i].t, vals[i]) : i \in {j \in DOMAIN c.fs : c.fs[j].r}}
      obj == <<"obj", cid, TLCEval([i \in DOMAIN c.fs |-> <<c.fs[i].n, vals[i]>>])>>
      hooked == c.post # <<>> /\ FieldVal(obj, c.post[1]) = c.post[2]
  IN IF b # NONE THEN b
     ELSE IF c.tc = "strict" /\ "n" \in checks THEN ERR
     ELSE IF c.tc = "strict" /\ "m" \in checks THEN ANY
     ELSE IF hooked THEN UERR(c.post[3], c.post[4])
     ELSE obj

Unread(f) == IF f.dk # "none" THEN f.dv ELSE ANY

DeClass(cid, d, y0, tv) ==
  LET c == C(cid)
      y == [y0 EXCEPT !.reuse = IF y0.reuse = "unset" THEN c.dereuse ELSE @,
                      !.coerce = (c.tc = "coerce"), !.tag = c.tag,
                      !.desers = DesersOf(cid), !.ldesers = c.ldesers, !.tv = tv]
      N == Len(c.fs)
      R == {i \in 1..N : c.fs[i].r}
      Required(f) == f.dk = "none" /\ f.t[1] # "opt" /\ ~NoneUnion(f.t)
                     /\ ~f.flat /\ f.t[1] \notin {"alias", "none"} /\ f.fde = <<>>
      ps == IF IsDict(d) THEN Pairs(d) ELSE <<>>
      unknown == {i \in DOMAIN ps : ~(ps[i][1][1] = "str" /\ ps[i][1][2] \in c.known)}
      RECURSIVE Start(_)
      Start(i) == IF i = 1 THEN 0
                  ELSE Start(i - 1) + (IF c.fs[i - 1].r THEN c.fs[i - 1].slotsR ELSE 0)
      Pos(i) ==
        LET f == c.fs[i] p == Start(i) IN
        IF f.child # "" /\ f.fde # <<"default">>
           /\ (f.fde # <<>> \/ LastFor(y.desers, f.t) # 0 \/ MentionsType(f.t, y.desers)
               \/ MentionsType(f.t, y.ldesers))
        THEN ANY
        ELSE IF f.child # ""
        THEN LET rest == SubSeq(d[2], p + 1, Len(d[2]))
                 mine == SubSeq(d[2], p + 1, IF p + f.slotsR < Len(d[2]) THEN p + f.slotsR
                                             ELSE Len(d[2]))
             IN IF f.t[1] = "opt"
                THEN IF \E j \in DOMAIN mine : mine[j] # NONE
                     THEN De(f.t[2], <<"list", rest>>, y, "default") ELSE NONE
                ELSE De(f.t, <<"list", rest>>, y, "default")
        ELSE IF p + 1 > Len(d[2]) THEN (IF f.t[1] = "none" THEN ANY ELSE ERR)
        ELSE IF f.capture THEN (IF d[2][p + 1][1] = "dict" THEN DeField(f, d[2][p + 1], y)
                                ELSE ANY)
        ELSE DeField(f, d[2][p + 1], y)
  IN IF c.transparent
     THEN LET T == {i \in 1..N : c.fs[i].init /\ ~c.fs[i].skip /\ ~(c.fs[i].sser /\ c.fs[i].sde)}
              k == MinOf(T)
          IN MkObj(cid, TLCEval([i \in 1..N |->
                    IF i = k THEN
                      (IF c.fs[i].sde THEN Unread(c.fs[i])
                       ELSE IF y.ldesers # <<>> THEN ANY
                       ELSE DeField(c.fs[i], d, y))
                    ELSE Unread(c.fs[i])]))
     ELSE IF d[1] = "opaque" THEN ANY
     ELSE IF y.fn = "iter"
     THEN IF d[1] \in {"list", "tuple"}
          THEN MkObj(cid, TLCEval([i \in 1..N |-> IF c.fs[i].r THEN Pos(i) ELSE Unread(c.fs[i])]))
          ELSE IF (\A i \in R : c.fs[i].t[1] = "none") \/ d[1] \in {"str", "sub", "deque", "enum"} THEN ANY
          ELSE IF IsDict(d) /\ \E i \in DOMAIN Pairs(d) : Num(sid, Pairs(d)[i][1]) # "" THEN ANY
          ELSE ERR
     ELSE IF ~IsDict(d)
     THEN IF \E i \in R : Required(c.fs[i]) THEN ERR ELSE ANY
     ELSE IF d[1] # "dict" THEN ANY
     ELSE IF c.deny /\ ~c.capture /\ unknown # {} THEN ERR
     ELSE MkObj(cid, TLCEval([i \in 1..N |->
            IF c.fs[i].r THEN DeNamed(c, c.fs[i], ps, y) ELSE Unread(c.fs[i])]))

(***************************************************************************)
(* Unions                                                                  *)
(***************************************************************************)
UnionDe(ms, d, y0) ==
  LET y == [y0 EXCEPT !.fn = "dict", !.coerce = FALSE, !.ldesers = <<>>,
                      !.reuse = IF @ = "unset" THEN "true" ELSE @, !.tv = NoTv]
      ps == IF d[1] = "dict" THEN Pairs(d) ELSE <<>>
      Custom_(t) == LastFor(y.desers, t) # 0
      Content(t) ==   \* the data for a tagged member, or ERR
        LET name == Str(C(t[2]).name) tag == y.tag IN
        CASE tag[1] = "external" -> IF HasKey(ps, name) THEN Get(ps, name) ELSE ERR
          [] tag[1] = "internal" ->
               IF HasKey(ps, Str(tag[2])) /\ Get(ps, Str(tag[2])) = name
               THEN IF tag[2] \in C(t[2]).known THEN d
                    ELSE LET Sel(p) == p[1] # Str(tag[2]) IN <<"dict", SelectSeq(ps, Sel)>>
               ELSE ERR
          [] tag[1] = "adjacent" ->
               IF HasKey(ps, Str(tag[2])) /\ HasKey(ps, Str(tag[3]))
                  /\ Get(ps, Str(tag[2])) = name
               THEN Get(ps, Str(tag[3])) ELSE ERR
          [] OTHER -> d
      Try(t) ==
        IF t[1] \in {"newtype", "sub", "gen", "alias"} THEN ANY
        ELSE LET e == IF t[1] = "cls" THEN Content(t) ELSE d
                 pass == (t[1] \in {"int", "float", "str", "bool", "none"} /\ ~Custom_(t))
                         => (IF t[1] = "none" THEN e = NONE ELSE IsPrim(sid, e, t[1]))
                 r == IF Bad(e) THEN e ELSE IF ~pass THEN ERR ELSE De(t, e, y, "")
             IN IF r[1] = "UERR" THEN ERR
                ELSE IF Bad(r) THEN r
                ELSE CASE Conf(t, r) = "y" -> r [] Conf(t, r) = "m" -> ANY [] OTHER -> ERR
      rs == TLCEval([i \in DOMAIN ms |-> Try(ms[i])])
      H == {i \in DOMAIN ms : rs[i] # ERR}
  IN IF d[1] = "opaque" THEN ANY
     ELSE IF H = {} THEN ERR ELSE rs[MinOf(H)]

(***************************************************************************)
(* Types handed to the API                                                 *)
(***************************************************************************)
\* Already an instance of exactly the requested class: returned as it is.
Same(c, d) ==
  CASE c[1] \in {"int", "float", "str", "bool"} -> d[1] = c[1]
    [] c[1] = "cls" -> d[1] = "obj" /\ d[2] = c[2]
    [] c[1] = "bare" -> d[1] = c[2]
    [] c[1] = "dt" -> d[1] = c[2]
    [] c[1] = "enum" -> d[1] = "enum" /\ d[2] = c[2]
    [] c[1] = "sub" -> d[1] = "sub" /\ d[2] = c[2]
    [] c[1] = "strlike" -> d[1] = c[2]
    [] c[1] = "none" -> d = NONE
    [] OTHER -> FALSE

TopDe(c0, d, y) ==
  LET c == Unalias(c0)
      k == c[1]
      i == LastFor(regD, c)
      w == [y EXCEPT !.coerce = FALSE, !.desers = regD, !.ldesers = <<>>, !.tag = <<"external">>,
                     !.reuse = "true"]
      El(T) == TLCEval([j \in DOMAIN IterOf(d) |-> TopDe(T, IterOf(d)[j], y)])
      Mp(kind, K, V) ==
        LET ps == Pairs(d)
        IN MkMap(kind, TLCEval([j \in DOMAIN ps |-> TopDe(K, ps[j][1], y)]),
                       TLCEval([j \in DOMAIN ps |-> TopDe(V, ps[j][2], y)]))
  IN
  IF Same(c, d) THEN d
  ELSE IF k = "union" THEN UnionDe(c[2], d, w)
  ELSE IF k = "tagged" THEN UnionDe(c[2], d, [w EXCEPT !.tag = c[3]])
  ELSE IF i # 0 THEN CustomDe(regD[i], d)
  ELSE IF d[1] = "opaque" THEN ANY
  ELSE CASE k = "cls" -> DeClass(c[2], d, y, NoTv)
    [] k = "gen" -> DeClass(c[2], d, y, Bind(c[2], c[3], NoTv))
    [] k = "opt" -> IF d = NONE THEN NONE ELSE TopDe(c[2], d, y)
    [] k \in {"list", "deque", "vtuple"} ->
         IF IterBad(d) # NONE THEN IterBad(d)
         ELSE IF d[1] \in {"set", "frozenset"} /\ Len(d[2]) > 1 THEN ANY
         ELSE MkSeq(IF k = "vtuple" THEN "tuple" ELSE k, El(c[2]))
    [] k \in {"set", "frozenset"} ->
         IF IterBad(d) # NONE THEN IterBad(d) ELSE MkSet(k, El(c[2]))
    [] k = "dict" -> IF MapBad(d) # NONE THEN MapBad(d) ELSE Mp("dict", c[2], c[3])
    [] k = "ddict" -> IF MapBad(d) # NONE THEN MapBad(d) ELSE MkDDict(Mp("dict", c[2], c[3]), c[3])
    [] k = "counter" ->
         IF MapBad(d) # NONE THEN MapBad(d)
         ELSE LET ps == Pairs(d)
              IN MkMap("counter", TLCEval([j \in DOMAIN ps |-> TopDe(c[2], ps[j][1], y)]),
                                  TLCEval([j \in DOMAIN ps |-> ps[j][2]]))
    [] k = "tuple" ->
         IF IterBad(d) # NONE THEN IterBad(d)
         ELSE IF d[1] \in {"set", "frozenset"} THEN ANY
         ELSE IF Len(d[2]) # Len(c[2]) THEN ANY
         ELSE MkTuple(TLCEval([j \in DOMAIN c[2] |-> TopDe(c[2][j], d[2][j], y)]))
    [] k = "bare" ->
         (CASE c[2] = "dict" -> d
            [] c[2] = "counter" -> IF d[1] = "dict" THEN <<"counter", d[2]>> ELSE ANY
            [] OTHER -> IF IterBad(d) # NONE THEN IterBad(d)
                        ELSE IF c[2] \in {"set", "frozenset"} THEN MkSet(c[2], d[2])
                        ELSE IF d[1] \in {"set", "frozenset"} THEN ANY
                        ELSE <<c[2], d[2]>>)
    [] k = "dt" -> Conv(sid, "dt:" \o c[2], d)
    [] k = "float" \/ (k = "sub" /\ c[3] = "float") ->
         LET n == IF y.nums # "off" THEN Nums(y.nums, d) ELSE d
         IN IF Bad(n) THEN n ELSE Conv(sid, Ctor(c), n)
    [] k = "any" -> d
    [] k = "enum" -> DeEnum(sid, c[2], d)
    [] k = "lit" -> IF \E j \in DOMAIN c[2] : PyEq(sid, c[2][j], d) THEN d ELSE ERR
    [] k \in {"int", "str", "bool", "sub"} -> Conv(sid, Ctor(c), d)
    [] k = "newtype" -> d
    [] k = "strlike" -> Conv(sid, c[2], d)
    [] k = "none" -> ERR
    [] OTHER -> ANY

DeCtx(fn, reuse, nums) ==
  [fn |-> fn, reuse |-> reuse, nums |-> nums, coerce |-> FALSE, tag |-> <<"external">>,
   desers |-> <<>>, ldesers |-> <<>>, tv |-> NoTv]
=============================================================================
