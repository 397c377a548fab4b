------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Data values.  Every Python value that can appear in an object, in a     *)
(* data tree or as an outcome is a tagged tuple.  Leaves carry a lexeme    *)
(* (a string), so that values of different kinds never need comparing by   *)
(* anything but their tags:                                                *)
(*                                                                         *)
(*   <<"none">>  <<"bool","true">>  <<"int","5">>  <<"float","1.5">>       *)
(*   <<"str","a">>  <<"Path","a/b">>  <<"UUID",..>>  <<"datetime",..>> ..  *)
(*   <<"list",s>> <<"tuple",s>> <<"deque",s>> <<"set",s>> <<"frozenset",s>>*)
(*   <<"dict",ps>> <<"counter",ps>> <<"defaultdict",factory,ps>>           *)
(*        where ps is a sequence of <<key,value>>                          *)
(*   <<"enum",class,member>>  <<"sub",class,base value>>                   *)
(*   <<"obj",class,fs>>  where fs is a sequence of <<field,value>>         *)
(*   <<"opaque",text>>  anything else                                      *)
(*                                                                         *)
(* Outcomes that are not values:                                           *)
(*   <<"ERR">>  <<"UERR",type,message>>  a SerdeError / the user's own     *)
(*   <<"ANY">>  the specification does not constrain this corner           *)
(* listU / tupleS are only used in expected values (see Eq).               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

ERR == <<"ERR">>
ANY == <<"ANY">>
NONE == <<"none">>
UERR(t, m) == <<"UERR", t, m>>

Bad(v) == v[1] \in {"ERR", "ANY", "UERR"}

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* The first bad value of a sequence of results, or NONE when all are good.
FirstBad(s) ==
  LET B == {i \in DOMAIN s : Bad(s[i])}
  IN IF B = {} THEN NONE ELSE s[MinOf(B)]

Range(s) == {s[i] : i \in DOMAIN s}

\* Build a value of kind `mk` from element results unless one is bad.
Collect(mk(_), s) == LET b == FirstBad(s) IN IF b # NONE THEN b ELSE mk(s)

Str(x) == <<"str", x>>

Containers == {"list", "tuple", "deque", "set", "frozenset", "dict", "counter",
               "defaultdict", "obj", "listU"}
IsLeaf(v) == v[1] \notin Containers /\ v[1] \notin {"enum", "sub", "opaque"}

RECURSIVE Hashable(_)
Hashable(v) ==
  CASE v[1] \in {"list", "deque", "set", "dict", "counter", "defaultdict", "obj", "listU", "opaque"} -> FALSE
    [] v[1] = "tuple" -> \A i \in DOMAIN v[2] : Hashable(v[2][i])
    [] OTHER -> TRUE

Pairs(v) == IF v[1] = "defaultdict" THEN v[3] ELSE v[2]
IsDict(v) == v[1] \in {"dict", "counter", "defaultdict"}

HasKey(ps, k) == \E i \in DOMAIN ps : ps[i][1] = k
KeyIdx(ps, k) == CHOOSE i \in DOMAIN ps : ps[i][1] = k
Get(ps, k) == ps[KeyIdx(ps, k)][2]

SelectPairs(ps, Test(_)) == SelectSeq(ps, Test)

\* Python dict semantics for a comprehension: a repeated key keeps its first
\* position and its last value.
RECURSIVE MkDict(_)
MkDict(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE LET r == MkDict(SubSeq(ps, 1, Len(ps) - 1))
           p == ps[Len(ps)]
       IN IF HasKey(r, p[1]) THEN [r EXCEPT ![KeyIdx(r, p[1])] = p]
          ELSE Append(r, p)

NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
DictOf(ps) == IF \A i, j \in DOMAIN ps : i # j => ps[i][1] # ps[j][1] THEN ps ELSE MkDict(ps)

(***************************************************************************)
(* Eq(e, o, ord): does the observed value o match the expected value e?    *)
(* Types are compared exactly (1, 1.0 and True differ); sets regardless of *)
(* order; dict entries in order only if ord; listU is a list in any order. *)
(***************************************************************************)
RECURSIVE Eq(_, _, _)
EqSeq(a, b, ord) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Eq(a[i], b[i], ord)
EqBag(a, b, ord) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a :
       Cardinality({j \in DOMAIN b : Eq(a[i], b[j], ord)})
         = Cardinality({j \in DOMAIN a : Eq(a[i], a[j], ord)})
EqPairs(a, b, ord) ==
  /\ Len(a) = Len(b)
  /\ IF ord THEN \A i \in DOMAIN a : Eq(a[i][1], b[i][1], ord) /\ Eq(a[i][2], b[i][2], ord)
     ELSE \A i \in DOMAIN a : \E j \in DOMAIN b :
             Eq(a[i][1], b[j][1], ord) /\ Eq(a[i][2], b[j][2], ord)
Eq(e, o, ord) ==
  IF e = o THEN TRUE
  ELSE IF e[1] = "ANY" THEN TRUE
  ELSE IF e[1] = "listU" THEN o[1] = "list" /\ EqBag(e[2], o[2], ord)
  ELSE IF e[1] # o[1] THEN FALSE
  ELSE CASE e[1] \in {"list", "tuple", "deque"} -> EqSeq(e[2], o[2], ord)
         [] e[1] \in {"set", "frozenset"} -> EqBag(e[2], o[2], ord)
         [] e[1] \in {"dict", "counter"} -> EqPairs(e[2], o[2], ord)
         [] e[1] = "defaultdict" -> e[2] = o[2] /\ EqPairs(e[3], o[3], ord)
         [] e[1] = "obj" -> /\ e[2] = o[2] /\ Len(e[3]) = Len(o[3])
                            /\ \A i \in DOMAIN e[3] :
                                 e[3][i][1] = o[3][i][1] /\ Eq(e[3][i][2], o[3][i][2], ord)
         [] OTHER -> FALSE

\* Does the tree contain a value of one of the tags?
RECURSIVE Mentions(_, _)
Mentions(v, tags) ==
  \/ v[1] \in tags
  \/ v[1] \in {"list", "tuple", "deque", "set", "frozenset", "listU"}
     /\ \E i \in DOMAIN v[2] : Mentions(v[2][i], tags)
  \/ IsDict(v) /\ \E i \in DOMAIN Pairs(v) :
        Mentions(Pairs(v)[i][1], tags) \/ Mentions(Pairs(v)[i][2], tags)
  \/ v[1] = "obj" /\ \E i \in DOMAIN v[3] : Mentions(v[3][i][2], tags)
  \/ v[1] = "sub" /\ Mentions(v[3], tags)
=============================================================================
