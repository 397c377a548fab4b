-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded sessions: each session is a behaviour            *)
(*   declare / register / call ...                                         *)
(* of the specification, and every logged outcome must be the one the      *)
(* specification gives in the state reached so far.  Verdicts are total:   *)
(* a step always happens, and a clause that does not hold is reported as   *)
(* <<"BAD", session, event, clause, expected>>.                            *)
(***************************************************************************)
EXTENDS Props

VARIABLE idx
vars == <<sid, idx, regS, regD, snap>>

Events(s) == Sessions[s].events
Ev == Events(sid)[idx]

Report(clause, e) == PrintT(<<"BAD", sid, idx, clause, e>>)
Clause(name, ok, e) == IF ok THEN TRUE ELSE Report(name, e)

\* ---------------------------------------------------------------- actions
Advance == idx' = idx + 1 /\ UNCHANGED sid
Calls == Advance /\ UNCHANGED <<regS, regD, snap>>
Is(op) == idx <= Len(Events(sid)) /\ Ev.op = op

Declare ==
  /\ Is("decl")
  /\ snap' = (Ev.c :> <<Len(regS), Len(regD)>>) @@ snap
  /\ Clause("decl", IF DeclError(Ev.c) THEN Ev.out[1] = "ERR" ELSE Ev.out = NONE,
            IF DeclError(Ev.c) THEN ERR ELSE NONE)
  /\ Advance /\ UNCHANGED <<regS, regD>>

AddSerializer ==
  /\ Is("addS") /\ regS' = Append(regS, <<Ev.t, Ev.name>>)
  /\ Advance /\ UNCHANGED <<regD, snap>>

AddDeserializer ==
  /\ Is("addD") /\ regD' = Append(regD, <<Ev.t, Ev.name, Ev.const>>)
  /\ Advance /\ UNCHANGED <<regS, snap>>

CallSer ==
  /\ Is("ser")
  /\ LET e == TopSer(Ev.v, Ev.c, SerCtx(IF Ev.fn = "dict" THEN "dict" ELSE "iter",
                                        Ev.reuse, Ev.csets, Ev.sn))
     IN /\ Clause("ser", Match(e, Ev.out, TRUE), e)
        /\ Clause("unchanged", ~Ev.changed, <<>>)
  /\ Calls

\* The first field that is missing from the data decides what is reported.
MissingName(cid, d, y0) ==
  LET c == C(cid)
      y == [y0 EXCEPT !.reuse = IF y0.reuse = "unset" THEN c.dereuse ELSE @,
                      !.coerce = (c.tc = "coerce"), !.tag = c.tag,
                      !.desers = DesersOf(cid), !.ldesers = c.ldesers]
      R == {i \in DOMAIN c.fs : c.fs[i].r}
      Bads == {i \in R : Bad(DeNamed(c, c.fs[i], Pairs(d), y))}
      i == MinOf(Bads)
  IN IF c.transparent \/ c.deny \/ Bads = {} THEN ""
     ELSE IF c.fs[i].child = "" /\ ~c.fs[i].capture
             /\ \A k \in DOMAIN c.fs[i].names : ~HasKey(Pairs(d), Str(c.fs[i].names[k]))
             /\ DeNamed(c, c.fs[i], Pairs(d), y) = ERR
     THEN c.fs[i].wire ELSE ""

HasObjects(d) == Mentions(d, {"obj"})
Shares(ev) == ~MayShare(ev.c, {}) /\ ev.shin

CallDe ==
  /\ Is("de")
  /\ LET y == DeCtx(IF Ev.fn = "dict" THEN "dict" ELSE "iter", Ev.reuse, "off")
         e == TopDe(Ev.c, Ev.d, y)
         o == Ev.out
     IN /\ Clause("de", Match(e, o, TRUE), e)
        /\ Clause("unchanged", ~Ev.changed, <<>>)
        /\ Clause("shared-input", HasObjects(Ev.d) \/ Bad(e) \/ Bad(o) \/ o[1] = "EXC" \/ ~Shares(Ev), <<>>)
        /\ Clause("shared-default", ~Ev.shdef, <<>>)
        /\ (Has(Ev, "back") =>
              LET src == Events(sid)[Ev.back] IN
              Clause("roundtrip", Promised(Ev.c, src.v, "") /\ ~Bad(src.out) => Eq(src.v, o, FALSE),
                     src.v))
        /\ (e = ERR /\ o[1] = "ERR" /\ Ev.c[1] = "cls" /\ Ev.fn = "dict" /\ IsDict(Ev.d) =>
              LET n == MissingName(Ev.c[2], Ev.d, y) IN
              Clause("missing-name", n # "" => n \in Range(o[2]), <<n>>))
  /\ Calls

Construct ==
  /\ Is("new")
  /\ LET e == NewObj(Ev.c, Ev.kw)
     IN /\ Clause("new", Match(e, Ev.out, TRUE), e)
        /\ Clause("shared-default", ~Ev.shdef, <<>>)
  /\ Calls

Dump ==
  /\ Is("fser")
  /\ LET e == FmtExpected(Ev)
         o == Ev.tree
     IN /\ Clause("format-tree",
                  CASE e[1] \in {"ANYX", "ANY", "ERR", "UERR"} -> Match(e, o, TRUE)
                    [] o[1] \in {"ERR", "EXC", "UERR"} -> FALSE
                    [] OTHER -> EqF(e, o, Ordered(Ev.fmt, Ev)), e)
        /\ Clause("unchanged", ~Ev.changed, <<>>)
        /\ Clause("ext-code", Ev.ext /\ ~Bad(o) /\ o[1] # "EXC" => Ev.code = 5, <<>>)
        /\ Clause("codec-option", Ev.wantText # "" /\ e[1] = "dict" /\ e[2] # <<>>
                                  => Ev.text = Ev.wantText, <<>>)
  /\ Calls

Load ==
  /\ Is("fde")
  /\ LET e == FmtRead(Ev)
         o == Ev.out
     IN /\ Clause("format-read", Match(e, o, FALSE), e)
        /\ Clause("shared-default", ~Ev.shdef, <<>>)
        /\ (Has(Ev, "back") =>
              LET src == Events(sid)[Ev.back] IN
              Clause("format-roundtrip",
                     Promised(Ev.c, src.v, Ev.fmt) /\ ~Bad(src.tree) => Eq(src.v, o, FALSE), src.v))
  /\ Calls

Nop == Is("nop") /\ Calls

Init ==
  /\ sid \in DOMAIN Sessions /\ idx = 1 /\ regS = <<>> /\ regD = <<>>
  /\ snap = [c \in {} |-> <<0, 0>>]
Next == Declare \/ AddSerializer \/ AddDeserializer \/ CallSer \/ CallDe \/ Construct
        \/ Dump \/ Load \/ Nop
Spec == Init /\ [][Next]_vars

\* A finished session reports itself, so that none goes unchecked.
Done == idx = Len(Events(sid)) + 1 => PrintT(<<"DONE", sid, Len(Events(sid))>>)
=============================================================================
