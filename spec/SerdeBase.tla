----------------------------- MODULE SerdeBase ------------------------------
(***************************************************************************)
(* Sessions, declared classes and the tables of library conversions.       *)
(*                                                                         *)
(* A session is a finite history of declarations, registrations and calls  *)
(* over a set of classes.  Its static part is a record                     *)
(*   classes : class id -> declaration       (see below)                   *)
(*   enums   : enum id  -> [mixin, members : << <<name, value>>, .. >>]    *)
(*   env     : conversions of leaf values done by the Python library:      *)
(*               env.conv[ctor][tag][lexeme]  value or <<"ERR">>           *)
(*               env.case[case][name]         name converted by casefy     *)
(*               env.num[tag][lexeme]         canonical number             *)
(*               env.text[tag][lexeme]        str(value)                   *)
(*               env.iso[tag][lexeme]         value.isoformat()            *)
(* The tables say nothing about serde: they are str(), int(), UUID(),      *)
(* date.fromisoformat() and so on.                                         *)
(*                                                                         *)
(* Types:  <<"int">> <<"float">> <<"str">> <<"bool">> <<"none">> <<"any">> *)
(*   <<"sub",name,base>> <<"newtype",name,base>> <<"strlike",name>>        *)
(*   <<"dt",name>> <<"enum",id>> <<"lit",values>> <<"list",T,ann>>         *)
(*   <<"set",T,ann>> <<"frozenset",T>> <<"deque",T>> <<"vtuple",T>>        *)
(*   <<"tuple",Ts>> <<"dict",K,V,ann>> <<"ddict",K,V>> <<"counter",K>>     *)
(*   <<"bare",kind>> <<"opt",T>> <<"union",Ts>> <<"cls",id>>               *)
(*   <<"gen",id,Ts>> <<"tv",name>> <<"alias",T>>                           *)
(***************************************************************************)
EXTENDS Values, SessionData

VARIABLES sid,   \* which session this behaviour belongs to
          regS,  \* global serializers registered so far: <<type, name>>
          regD,  \* global deserializers: <<type, name, const>>
          snap   \* class id -> how many of each existed when it was declared

Env(s) == Sessions[s].env

Has(r, k) == k \in DOMAIN r

Warn(a, b, c) == PrintT("NOCONV " \o ToString(<<a, b, c>>))

Lex(v) == IF Len(v) > 1 THEN v[2] ELSE ""

(***************************************************************************)
(* Numbers and Python equality                                             *)
(***************************************************************************)
RECURSIVE Num(_, _)
Num(s, v) ==   \* canonical number, "" for a non number
  CASE v[1] \in {"int", "float", "bool", "Decimal"} ->
         LET t == Env(s).num
         IN IF Has(t, v[1]) /\ Has(t[v[1]], v[2]) THEN t[v[1]][v[2]]
            ELSE IF Warn("num", v[1], v[2]) THEN "?" ELSE "?"
    [] v[1] = "sub" -> Num(s, v[3])
    [] v[1] = "enum" /\ Sessions[s].enums[v[2]].mixin # "" ->
         LET ms == Sessions[s].enums[v[2]].members
             i == CHOOSE i \in DOMAIN ms : ms[i][1] = v[3]
         IN Num(s, ms[i][2])
    [] OTHER -> ""

RECURSIVE Unsub(_, _)
Unsub(s, v) ==  \* strip subclasses of primitives and mixin enums
  CASE v[1] = "sub" -> v[3]
    [] v[1] = "enum" /\ Sessions[s].enums[v[2]].mixin # "" ->
         LET ms == Sessions[s].enums[v[2]].members
             i == CHOOSE i \in DOMAIN ms : ms[i][1] = v[3]
         IN ms[i][2]
    [] OTHER -> v

EqClass(t) == CASE t \in {"set", "frozenset"} -> "set"
                [] t \in {"dict", "counter", "defaultdict"} -> "dict"
                [] t = "listU" -> "list"
                [] OTHER -> t

RECURSIVE PyEq(_, _, _)
PyEq(s, a, b) ==
  IF a = b THEN TRUE
  ELSE IF Num(s, a) # "" \/ Num(s, b) # "" THEN Num(s, a) = Num(s, b)
  ELSE LET x == Unsub(s, a) y == Unsub(s, b) IN
    IF x = y THEN TRUE
    ELSE IF EqClass(x[1]) # EqClass(y[1]) THEN FALSE
    ELSE CASE x[1] \in {"list", "tuple", "deque", "listU"} ->
                Len(x[2]) = Len(y[2]) /\ \A i \in DOMAIN x[2] : PyEq(s, x[2][i], y[2][i])
           [] EqClass(x[1]) = "set" ->
                Len(x[2]) = Len(y[2])
                /\ \A i \in DOMAIN x[2] : \E j \in DOMAIN y[2] : PyEq(s, x[2][i], y[2][j])
           [] EqClass(x[1]) = "dict" ->
                LET p == Pairs(x) q == Pairs(y) IN
                Len(p) = Len(q) /\ \A i \in DOMAIN p : \E j \in DOMAIN q :
                     PyEq(s, p[i][1], q[j][1]) /\ PyEq(s, p[i][2], q[j][2])
           [] x[1] = "obj" ->
                /\ x[2] = y[2] /\ Len(x[3]) = Len(y[3])
                /\ \A i \in DOMAIN x[3] : PyEq(s, x[3][i][2], y[3][i][2])
           [] OTHER -> FALSE

RECURSIVE Truthy(_, _)
Truthy(s, v) ==
  CASE v[1] = "none" -> FALSE
    [] Num(s, v) # "" -> Num(s, v) # "0"
    [] v[1] = "str" -> v[2] # ""
    [] v[1] = "sub" -> Truthy(s, v[3])
    [] v[1] \in {"list", "tuple", "deque", "set", "frozenset", "listU"} -> v[2] # <<>>
    [] IsDict(v) -> Pairs(v) # <<>>
    [] v[1] = "enum" /\ Sessions[s].enums[v[2]].mixin # "" -> Truthy(s, Unsub(s, v))
    [] OTHER -> TRUE

(***************************************************************************)
(* Conversions by the constructors of the standard library                 *)
(***************************************************************************)
Table(s, tab, ctor, v) ==
  LET t == Env(s).conv
  IN IF Has(t, ctor) /\ Has(t[ctor], v[1]) /\ Has(t[ctor][v[1]], Lex(v))
     THEN t[ctor][v[1]][Lex(v)]
     ELSE IF Warn(ctor, v[1], Lex(v)) THEN ANY ELSE ANY

RECURSIVE Conv(_, _, _)
Conv(s, ctor, v) ==
  CASE v[1] = "sub" -> Conv(s, ctor, v[3])
    [] v[1] = "enum" ->
         IF Sessions[s].enums[v[2]].mixin # "" \/ ctor \in {"str", "bool", "sub:MyStr"} THEN ANY ELSE ERR
    [] v[1] = "opaque" -> ANY
    [] v[1] \in Containers ->
         IF ctor = "bool" THEN <<"bool", IF Truthy(s, v) THEN "true" ELSE "false">>
         ELSE IF ctor = "int" \/ ctor = "float" THEN ERR
         ELSE IF ctor \in {"UUID", "Path", "PurePath", "PurePosixPath", "PureWindowsPath"} THEN ERR
         ELSE ANY
    [] OTHER -> Table(s, "conv", ctor, v)

Text(s, v) == Conv(s, "str", v)

Iso(s, v) ==
  IF v[1] \in {"datetime", "date", "time"}
  THEN LET t == Env(s).iso
       IN IF Has(t, v[1]) /\ Has(t[v[1]], v[2]) THEN Str(t[v[1]][v[2]])
          ELSE IF Warn("iso", v[1], v[2]) THEN ANY ELSE ANY
  ELSE IF v[1] = "opaque" THEN ANY ELSE ERR

\* isinstance of a library scalar class
IsLib(v, name) ==
  \/ v[1] = name
  \/ name = "date" /\ v[1] = "datetime"
  \/ name = "PurePath" /\ v[1] \in {"Path", "PurePosixPath", "PureWindowsPath"}
  \/ name = "PurePosixPath" /\ v[1] = "Path"
  \/ name = "IPv4Address" /\ v[1] = "IPv4Interface"
  \/ name = "IPv6Address" /\ v[1] = "IPv6Interface"

\* isinstance of a primitive class
IsPrim(s, v, name) ==
  \/ v[1] = name
  \/ name = "int" /\ v[1] = "bool"
  \/ v[1] = "sub" /\ v[3][1] = name
  \/ v[1] = "enum" /\ Sessions[s].enums[v[2]].mixin = name

(***************************************************************************)
(* Enums                                                                   *)
(***************************************************************************)
Members(s, E) == Sessions[s].enums[E].members

RECURSIVE EnumVal(_, _)
EnumVal(s, v) ==  \* the value of a member, through nested enums
  LET ms == Members(s, v[2])
      w == ms[CHOOSE i \in DOMAIN ms : ms[i][1] = v[3]][2]
  IN IF w[1] = "enum" THEN EnumVal(s, w) ELSE w

\* The member that calling the enum with d gives.
EnumOf(s, E, d) ==
  IF d[1] = "enum" /\ d[2] = E THEN d
  ELSE LET ms == Members(s, E)
           I == {i \in DOMAIN ms : PyEq(s, ms[i][2], d)}
       IN IF I = {} THEN ERR ELSE <<"enum", E, ms[MinOf(I)][1]>>

DeEnum(s, E, d) ==
  LET m == EnumOf(s, E, d)
      t0 == Unsub(s, Members(s, E)[1][2])[1]
  IN IF m # ERR THEN m
     ELSE IF d[1] = "list" /\ t0 = "tuple" THEN EnumOf(s, E, <<"tuple", d[2]>>)
     ELSE IF IsPrim(s, d, "str") /\ t0 # "str"
       THEN IF t0 \in {"int", "float", "bool"}
            THEN LET c == Conv(s, t0, Unsub(s, d)) IN IF Bad(c) THEN c ELSE EnumOf(s, E, c)
            ELSE ERR
     ELSE ERR

(***************************************************************************)
(* Classes.  A declaration is a record                                     *)
(*   name kind case tag tc deny skipdef skipnone reuse dereuse csets       *)
(*   transparent bases tvars csers cdesers lsers ldesers fields post       *)
(*   cvars scv (class variables, and whether they are serialized)          *)
(* and a field                                                             *)
(*   n t rename alias skip sser sde sif sfalse snone sdef kw init dk dv    *)
(*   flat fser fde                                                         *)
(* Comp[s][c] is the declaration with everything inherited and derived.    *)
(***************************************************************************)
Decl(s, c) == Sessions[s].classes[c]

RECURSIVE AllFields(_, _)
MergeFields(base, own) ==
  LET Idx(fs, n) == {i \in DOMAIN fs : fs[i].n = n}
      over == TLCEval([i \in DOMAIN base |->
                 IF Idx(own, base[i].n) = {} THEN base[i]
                 ELSE own[MinOf(Idx(own, base[i].n))]])
      IsNew(f) == Idx(base, f.n) = {}
  IN over \o SelectSeq(own, IsNew)
AllFields(s, c) ==
  LET d == Decl(s, c)
      RECURSIVE Bases(_)
      \* dataclass collects along the reversed method resolution order
      Bases(bs) == IF bs = <<>> THEN <<>>
                   ELSE MergeFields(Bases(Tail(bs)), AllFields(s, Head(bs)))
  IN MergeFields(Bases(d.bases), d.fields)

RECURSIVE IsSubclass(_, _, _)
IsSubclass(s, c, b) ==
  c = b \/ \E i \in DOMAIN Decl(s, c).bases : IsSubclass(s, Decl(s, c).bases[i], b)

\* Class variables, those of the bases first.
RECURSIVE ClassVars(_, _)
ClassVars(s, c) ==
  LET Merge(base, own) ==
        LET Idx(n) == {i \in DOMAIN own : own[i][1] = n}
            IsNew(p) == \A i \in DOMAIN base : base[i][1] # p[1]
        IN TLCEval([i \in DOMAIN base |-> IF Idx(base[i][1]) = {} THEN base[i]
                                           ELSE own[MinOf(Idx(base[i][1]))]])
           \o SelectSeq(own, IsNew)
      RECURSIVE Bases(_)
      Bases(bs) == IF bs = <<>> THEN <<>> ELSE Merge(Bases(Tail(bs)), ClassVars(s, Head(bs)))
  IN Merge(Bases(Decl(s, c).bases), Decl(s, c).cvars)

Cased(s, c, n) == IF Decl(s, c).case # "" THEN Env(s).case[Decl(s, c).case][n] ELSE n

Wire(s, c, f) ==
  IF f.rename # "" THEN f.rename
  ELSE Cased(s, c, f.n)

\* Which condition leaves the field out: the first of these that is set.
Flag(own, dflt) == IF own = "unset" THEN dflt ELSE own = "true"
SkipMode(d, f) ==
  IF f.sif # <<>> THEN "if"
  ELSE IF f.sfalse THEN "false"
  ELSE IF Flag(f.sdef, d.skipdef) THEN "default"
  ELSE IF Flag(f.snone, d.skipnone) THEN "none"
  ELSE ""

FlatChild(f) ==  \* id of the class flattened by the field, or ""
  IF ~f.flat THEN ""
  ELSE IF f.t[1] = "cls" THEN f.t[2]
  ELSE IF f.t[1] = "opt" /\ f.t[2][1] = "cls" THEN f.t[2][2]
  ELSE ""
IsCapture(f) == f.flat /\ (f.t[1] = "dict" \/ f.t = <<"bare", "dict">>)

Written(f) == ~f.skip /\ ~f.sser
Read(f) == f.init /\ ~f.skip /\ ~f.sde

RECURSIVE Known(_, _)
Known(s, c) ==
  IF Decl(s, c).transparent THEN {"__serde_transparent__"}
  ELSE LET fs == AllFields(s, c) IN
    UNION {IF IsCapture(fs[i]) THEN {}
           ELSE IF FlatChild(fs[i]) # "" THEN Known(s, FlatChild(fs[i]))
           ELSE {Wire(s, c, fs[i])} \cup Range(fs[i].alias) : i \in DOMAIN fs}

RECURSIVE Captures(_, _)
Captures(s, c) ==
  ~Decl(s, c).transparent /\
  LET fs == AllFields(s, c) IN
    \E i \in DOMAIN fs : Read(fs[i]) /\
       (IsCapture(fs[i]) \/ (FlatChild(fs[i]) # "" /\ Captures(s, FlatChild(fs[i]))))

RECURSIVE SlotsW(_, _), SlotsR(_, _), SumSlots(_, _, _, _)
SumSlots(s, fs, i, dir) ==
  IF i > Len(fs) THEN 0
  ELSE (IF dir = "w" THEN (IF Written(fs[i]) THEN SlotsW(s, fs[i]) ELSE 0)
        ELSE (IF Read(fs[i]) THEN SlotsR(s, fs[i]) ELSE 0)) + SumSlots(s, fs, i + 1, dir)
SlotsW(s, f) == IF FlatChild(f) = "" THEN 1 ELSE SumSlots(s, AllFields(s, FlatChild(f)), 1, "w")
SlotsR(s, f) == IF FlatChild(f) = "" THEN 1 ELSE SumSlots(s, AllFields(s, FlatChild(f)), 1, "r")

Compile(s, c) ==
  LET d == Decl(s, c)
      fs == AllFields(s, c)
      F(f) == [n |-> f.n, t |-> f.t, wire |-> Wire(s, c, f),
               names |-> <<Wire(s, c, f)>> \o f.alias,
               w |-> Written(f), r |-> Read(f), mode |-> SkipMode(d, f), sif |-> f.sif,
               dk |-> f.dk, dv |-> f.dv, flat |-> f.flat, capture |-> IsCapture(f),
               child |-> FlatChild(f), fser |-> f.fser, fde |-> f.fde,
               skip |-> f.skip, sser |-> f.sser, sde |-> f.sde, init |-> f.init,
               slotsW |-> SlotsW(s, f), slotsR |-> SlotsR(s, f),
               ckCapture |-> FlatChild(f) # "" /\ Captures(s, FlatChild(f)),
               ckKnown |-> IF FlatChild(f) # "" THEN Known(s, FlatChild(f)) ELSE {}]
  IN [id |-> c, name |-> d.name, kind |-> d.kind, tag |-> d.tag, tc |-> d.tc, deny |-> d.deny,
      reuse |-> IF d.reuse THEN "true" ELSE "false",
      dereuse |-> IF d.dereuse THEN "true" ELSE "false",
      csets |-> IF d.csets THEN "true" ELSE "false",
      transparent |-> d.transparent, tvars |-> d.tvars,
      csers |-> d.csers, cdesers |-> d.cdesers, lsers |-> d.lsers, ldesers |-> d.ldesers,
      cvars |-> IF ~d.scv THEN <<>>
                ELSE LET vs == ClassVars(s, c)
                     IN TLCEval([i \in DOMAIN vs |-> <<Cased(s, c, vs[i][1]), vs[i][2], vs[i][3]>>]),
      post |-> d.post, fs |-> TLCEval([i \in DOMAIN fs |-> F(fs[i])]),
      known |-> Known(s, c), captures |-> Captures(s, c),
      capture |-> \E i \in DOMAIN fs : Read(fs[i]) /\ IsCapture(fs[i])]

Comp == TLCEval([s \in DOMAIN Sessions |->
           TLCEval([c \in DOMAIN Sessions[s].classes |-> Compile(s, c)])])

C(c) == Comp[sid][c]
FieldAt(c, n) == CHOOSE i \in DOMAIN C(c).fs : C(c).fs[i].n = n
FieldVal(o, n) == Get(o[3], n)

\* A declaration that must be rejected (and one that must not).
BadTransparent(c) ==
  LET fs == C(c).fs
      full(f) == f.skip \/ (f.sser /\ f.sde)
      cand == {i \in DOMAIN fs : fs[i].init /\ ~full(fs[i])}
  IN \/ Cardinality(cand) # 1
     \/ \E i \in cand : fs[i].sser \/ fs[i].sde
     \/ \E i \in DOMAIN fs : i \notin cand /\ (fs[i].init \/ ~full(fs[i]))
DeclError(c) ==
  \/ C(c).transparent /\ BadTransparent(c)
  \/ \E i \in DOMAIN C(c).fs :
       LET f == C(c).fs[i] IN
       \/ f.sde /\ f.init /\ f.dk = "none" /\ ~f.skip
       \/ f.flat /\ f.child = "" /\ ~f.capture
=============================================================================
