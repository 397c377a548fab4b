--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* The bounded models.  Every session of a family is a behaviour of the    *)
(* specification: the calls get the outcomes the specification gives, and  *)
(* the properties, restated here without the operators that compute the    *)
(* outcomes, are invariants.  The same sessions are exported and replayed  *)
(* into the real code (harness/scen.py), whose outcomes Trace.tla judges.  *)
(***************************************************************************)
EXTENDS Props

VARIABLES idx, outs
vars == <<sid, idx, outs, regS, regD, snap>>

Events(s) == Sessions[s].events
Ev == Events(sid)[idx]

ASSUME Exported

\* ---------------------------------------------------------------- data of a call
RECURSIVE Concrete(_)
Concrete(v) ==   \* a set written as a list is one of its orders
  CASE v[1] = "listU" -> <<"list", [i \in DOMAIN v[2] |-> Concrete(v[2][i])]>>
    [] v[1] \in {"list", "tuple"} -> <<v[1], [i \in DOMAIN v[2] |-> Concrete(v[2][i])]>>
    [] v[1] = "dict" -> <<"dict", [i \in DOMAIN v[2] |-> <<v[2][i][1], Concrete(v[2][i][2])>>]>>
    [] OTHER -> v

Edit1(d, e) ==
  LET k == IF Len(e) > 1 /\ e[1] \in {"drop", "set", "ren", "add"} THEN Str(e[2]) ELSE NONE
      Not(p) == p[1] # k
  IN
  CASE e[1] = "whole" -> e[2]
    [] d[1] = "dict" /\ e[1] = "drop" -> <<"dict", SelectSeq(d[2], Not)>>
    [] d[1] = "dict" /\ e[1] \in {"set", "add"} ->
         <<"dict", MkDict(d[2] \o << <<k, e[3]>> >>)>>
    [] d[1] = "dict" /\ e[1] = "ren" ->
         IF HasKey(d[2], k) THEN <<"dict", MkDict(SelectSeq(d[2], Not) \o << <<Str(e[3]), Get(d[2], k)>> >>)>>
         ELSE d
    [] d[1] \in {"dict", "list", "tuple"} /\ e[1] = "rev" -> <<d[1], [i \in DOMAIN d[2] |-> d[2][Len(d[2]) + 1 - i]]>>
    [] d[1] \in {"list", "tuple"} /\ e[1] = "cut" ->
         IF d[2] = <<>> THEN d ELSE <<d[1], SubSeq(d[2], 1, Len(d[2]) - 1)>>
    [] d[1] \in {"list", "tuple"} /\ e[1] = "app" -> <<d[1], Append(d[2], e[2])>>
    [] d[1] \in {"list", "tuple"} /\ e[1] = "nth" ->
         IF e[2] \in DOMAIN d[2] THEN <<d[1], [d[2] EXCEPT ![e[2]] = e[3]]>> ELSE d
    [] OTHER -> d
RECURSIVE EditAll(_, _)
EditAll(d, es) == IF es = <<>> THEN d ELSE EditAll(Edit1(d, Head(es)), Tail(es))

NoData == <<"ANY">>
DataOf(ev) ==
  IF Has(ev, "d") THEN ev.d
  ELSE LET o == outs[ev.from + 1]
       IN IF Bad(o) \/ o = ANYX \/ Mentions(o, {"ANY", "opaque"}) THEN NoData
          ELSE IF Has(ev, "edit") THEN EditAll(Concrete(o), ev.edit) ELSE Concrete(o)

Outcome(ev) ==
  CASE ev.op = "decl" -> IF DeclError(ev.c) THEN ERR ELSE NONE
    [] ev.op \in {"addS", "addD", "nop"} -> NONE
    [] ev.op = "ser" -> TopSer(ev.v, ev.c, SerCtx(IF ev.fn = "dict" THEN "dict" ELSE "iter",
                                                  ev.reuse, ev.csets, ev.sn))
    [] ev.op = "de" -> LET d == DataOf(ev) IN
         IF d = NoData THEN ANY
         ELSE TopDe(ev.c, d, DeCtx(IF ev.fn = "dict" THEN "dict" ELSE "iter", ev.reuse, "off"))
    [] ev.op = "new" -> NewObj(ev.c, ev.kw)
    [] ev.op = "fser" -> FmtExpected(ev)
    [] ev.op = "fde" -> LET d == DataOf(ev) IN
         IF d = NoData THEN ANY ELSE FmtRead([fmt |-> ev.fmt, c |-> ev.c, cn |-> ev.cn,
                                              named |-> ev.named, d |-> d])

Rejected == \E i \in DOMAIN outs : outs[i] = ERR /\ Events(sid)[i].op = "decl"

Init ==
  /\ sid \in DOMAIN Sessions /\ idx = 1 /\ outs = <<>> /\ regS = <<>> /\ regD = <<>>
  /\ snap = [c \in {} |-> <<0, 0>>]
Next ==
  /\ idx <= Len(Events(sid)) /\ ~Rejected
  /\ outs' = Append(outs, Outcome(Ev))
  /\ idx' = idx + 1 /\ UNCHANGED sid
  /\ regS' = IF Ev.op = "addS" THEN Append(regS, <<Ev.t, Ev.name>>) ELSE regS
  /\ regD' = IF Ev.op = "addD" THEN Append(regD, <<Ev.t, Ev.name, Ev.const>>) ELSE regD
  /\ snap' = IF Ev.op = "decl" THEN (Ev.c :> <<Len(regS), Len(regD)>>) @@ snap ELSE snap
Spec == Init /\ [][Next]_vars
View == <<sid, idx>>

\* ---------------------------------------------------------------- the properties
\* They look at the last call, E, and its outcome, O.
E == Events(sid)[idx - 1]
O == outs[idx - 1]
After(ops) == idx > 1 /\ E.op \in ops
Good(o) == ~Bad(o) /\ o # ANYX

\* C01, C02: what was promised to come back comes back.
RoundTrips ==
  After({"de", "fde"}) /\ Has(E, "back") =>
    LET src == Events(sid)[E.back] o == outs[E.back] IN
    Promised(E.c, src.v, IF E.op = "fde" THEN E.fmt ELSE "") /\ Good(o) =>
      O = ANY \/ Eq(src.v, O, FALSE)

\* C12: a call gives a value, a SerdeError or the user's own exception.
Outcomes == idx > 1 => O[1] \in {"ERR", "UERR", "ANY", "ANYX"} \/ Len(O) >= 1
UserErrors ==   \* only of a hook that some declared class has
  idx > 1 /\ O[1] = "UERR" =>
    \E c \in DOMAIN Comp[sid] : C(c).post # <<>> /\ O = UERR(C(c).post[3], C(c).post[4])

\* C08, C20, C21: what comes out is of the declared kind (all of it: no sampling).
RECURSIVE Kind(_, _)
KindAll(t, s) == \A i \in DOMAIN s : Kind(t, s[i])
Kind(t, v) ==
  v = ANY \/
  CASE t[1] \in {"cls", "gen"} ->
         /\ v[1] = "obj" /\ v[2] = t[2]
         /\ C(t[2]).tc = "strict" =>
              \A i \in DOMAIN C(t[2]).fs :
                LET f == C(t[2]).fs[i] IN
                (f.r /\ f.fde = <<>> /\ f.init /\ C(t[2]).cdesers = <<>> /\ regD = <<>>) =>
                   LET x == FieldVal(v, f.n) IN
                   (f.dk # "none" /\ x = f.dv) \/ Kind(f.t, x)
    [] t[1] = "opt" -> v = NONE \/ Kind(t[2], v)
    [] t[1] = "union" -> \E i \in DOMAIN t[2] : Kind(t[2][i], v)
    [] t[1] \in {"list", "deque", "set", "frozenset"} -> v[1] = t[1] /\ KindAll(t[2], v[2])
    [] t[1] = "vtuple" -> v[1] = "tuple" /\ KindAll(t[2], v[2])
    [] t[1] = "tuple" -> v[1] = "tuple" /\ Len(v[2]) = Len(t[2])
                         /\ \A i \in DOMAIN v[2] : Kind(t[2][i], v[2][i])
    [] t[1] = "dict" -> v[1] = "dict" /\ \A p \in Range(v[2]) : Kind(t[2], p[1]) /\ Kind(t[3], p[2])
    [] t[1] = "ddict" -> v[1] = "defaultdict" /\ \A p \in Range(v[3]) : Kind(t[2], p[1]) /\ Kind(t[3], p[2])
    [] t[1] = "counter" -> v[1] = "counter" /\ \A p \in Range(v[2]) : Kind(t[2], p[1])
    [] t[1] \in {"int", "float", "str", "bool"} -> IsPrim(sid, v, t[1])
    [] t[1] = "newtype" -> IsPrim(sid, v, t[3])
    [] t[1] = "none" -> v = NONE
    [] t[1] = "sub" -> v[1] = "sub" /\ v[2] = t[2]
    [] t[1] \in {"strlike", "dt"} -> IsLib(v, t[2])
    [] t[1] = "enum" -> v[1] = "enum" /\ v[2] = t[2]
    [] t[1] = "lit" -> \E i \in DOMAIN t[2] : PyEq(sid, t[2][i], v)
    [] OTHER -> TRUE
Kinds ==
  /\ After({"de", "fde"}) /\ E.c[1] \in {"cls", "gen"} /\ Good(O) => Kind(E.c, O)
  /\ After({"new"}) /\ Good(O) =>
       (C(E.c).tc = "strict" => \A p \in Range(E.kw) :
           Conf(C(E.c).fs[FieldAt(E.c, p[1])].t, p[2]) # "n")

\* C10: with deny_unknown_fields no unknown key passes; without, they change nothing.
RECURSIVE OwnKeys(_)
OwnKeys(c) ==
  UNION {LET f == AllFields(sid, c)[i] IN
         IF FlatChild(f) # "" THEN OwnKeys(FlatChild(f))
         ELSE IF IsCapture(f) THEN {}
         ELSE {Wire(sid, c, f)} \cup Range(f.alias) : i \in DOMAIN AllFields(sid, c)}
RECURSIVE AnyCapture(_)
AnyCapture(c) == \E i \in DOMAIN AllFields(sid, c) :
                   LET f == AllFields(sid, c)[i] IN
                   IsCapture(f) \/ (FlatChild(f) # "" /\ AnyCapture(FlatChild(f)))
DirectCapture(c) == \E i \in DOMAIN AllFields(sid, c) : IsCapture(AllFields(sid, c)[i])
UnknownKeys ==
  After({"de"}) /\ E.fn = "dict" /\ E.c[1] = "cls" /\ regD = <<>> /\ ~C(E.c[2]).transparent =>
    LET d == DataOf(E) c == E.c[2]
        Ok(p) == p[1][1] = "str" /\ p[1][2] \in OwnKeys(c)
    IN d[1] = "dict" =>
         /\ Decl(sid, c).deny /\ ~DirectCapture(c) /\ (\E p \in Range(d[2]) : ~Ok(p)) => O \in {ERR, ANY}
         /\ ~Decl(sid, c).deny /\ ~AnyCapture(c)
            /\ (\A x \in DOMAIN Comp[sid] : x = c \/ ~Decl(sid, x).deny) =>
              TopDe(E.c, <<"dict", SelectSeq(d[2], Ok)>>,
                    DeCtx("dict", E.reuse, "off")) = O

\* C03, C04, C05: the keys of an object's dict, from its declaration alone.
Plain(c) == /\ ~C(c).transparent /\ \A i \in DOMAIN AllFields(sid, c) : ~AllFields(sid, c)[i].flat
            /\ C(c).csers = <<>> /\ C(c).lsers = <<>> /\ regS = <<>>
Skipped(c, f, x, o, sn) ==    \* x: the value; o: what it is serialized to
  LET d == Decl(sid, c) IN
  \/ f.skip \/ f.sser
  \/ sn /\ o = NONE
  \/ f.sif # <<>> /\ PyEq(sid, o, f.sif[1])
  \/ f.sif = <<>> /\ f.sfalse /\ ~Truthy(sid, o)
  \/ /\ f.sif = <<>> /\ ~f.sfalse /\ (f.sdef = "true" \/ (f.sdef = "unset" /\ d.skipdef))
     /\ f.dk # "none" /\ (PyEq(sid, x, f.dv) \/ PyEq(sid, o, f.dv))
  \/ /\ f.sif = <<>> /\ ~f.sfalse /\ ~(f.sdef = "true" \/ (f.sdef = "unset" /\ d.skipdef))
     /\ (f.snone = "true" \/ (f.snone = "unset" /\ d.skipnone)) /\ o = NONE
WireName(c, f) ==
  IF f.rename # "" THEN f.rename
  ELSE IF Decl(sid, c).case = "" THEN f.n ELSE Env(sid).case[Decl(sid, c).case][f.n]
Shape ==
  After({"ser"}) /\ E.fn = "dict" /\ E.v[1] = "obj" /\ E.c = <<>> /\ Plain(E.v[2]) /\ Good(O) =>
    LET c == E.v[2]
        fs == AllFields(sid, c)
        full == TopSer(E.v, <<>>, SerCtx("iter", E.reuse, E.csets, E.sn))
        W == SelectSeq(fs, LAMBDA f : ~f.skip /\ ~f.sser)
        pos(n) == CHOOSE i \in DOMAIN W : W[i].n = n
        \* what the field's value is serialized to, for the simple types the
        \* skip conditions are explored with
        Keeps(f) == ~Skipped(c, f, FieldVal(E.v, f.n), full[2][pos(f.n)], E.sn)
        S1 == SelectSeq(W, Keeps)
        Clash == \E i, j \in DOMAIN W : i # j /\ WireName(c, W[i]) = WireName(c, W[j])
    IN full[1] # "tuple" \/ Clash
       \/ (\E i \in DOMAIN W : LET t == IF W[i].t[1] = "opt" THEN W[i].t[2] ELSE W[i].t IN
             t[1] \in {"cls", "any", "tv", "gen", "alias", "union"}
             /\ (W[i].sif # <<>> \/ W[i].sdef # "false"))
       \/ /\ O[1] = "dict"
          /\ [i \in DOMAIN O[2] |-> O[2][i][1]] = [i \in DOMAIN S1 |-> Str(WireName(c, S1[i]))]

\* C13: repeating a call repeats its outcome.
SameCall(a, b) == a.op = b.op /\ a.op \in {"ser", "new", "fser"} /\ a = b
Repeats == After({"ser", "new", "fser"}) =>
             \A i \in 1..(idx - 2) : SameCall(Events(sid)[i], E) /\ regS = <<>> =>
               outs[i] = O

\* C17: a transparent class is its field.
InnerField(c) == CHOOSE i \in DOMAIN C(c).fs : C(c).fs[i].init /\ ~C(c).fs[i].skip
                                                /\ ~(C(c).fs[i].sser /\ C(c).fs[i].sde)
Invisible ==
  After({"ser"}) /\ E.v[1] = "obj" /\ C(E.v[2]).transparent /\ E.c = <<>> /\ Good(O) =>
    LET f == C(E.v[2]).fs[InnerField(E.v[2])]
        x == FieldVal(E.v, f.n)
    IN (f.t[1] \in {"int", "str", "bool", "float"} /\ f.fser = "" /\ C(E.v[2]).tc # "coerce"
        /\ C(E.v[2]).csers = <<>> /\ C(E.v[2]).lsers = <<>> /\ regS = <<>>) => O = x
=============================================================================
