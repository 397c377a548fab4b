----------------------------- MODULE Generation -----------------------------
(***************************************************************************)
(* Lazy preparation of classes by several threads.                         *)
(*                                                                         *)
(* A call on a class that has no (de)serializing functions prepares them   *)
(* first, together with those of the classes nested in it.  A call on a    *)
(* union prepares a wrapper class, which is stored in a cache once it is   *)
(* complete.  Preparation happens under one reentrant lock; a prepared     *)
(* class is used without the lock, except that a caller waits while some   *)
(* preparation is under way, because the class may be nested in a cycle    *)
(* that is only half prepared.                                             *)
(*                                                                         *)
(* The module says what each thread does step by step, and every schedule  *)
(* of the steps is explored.  Checked: no thread ever uses a class that is *)
(* not prepared (NoHalfPrepared), every call comes to an end (Finishes),   *)
(* the lock is free afterwards.  The schedules explored (up to a number of *)
(* preemptions) are printed and replayed into the real code, where threads *)
(* are advanced from one of these milestones to the next.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxPreempt,   \* preemptions in the schedules that are printed
          Locked,       \* FALSE: the lock is left out (to show what it is for)
          Gated         \* FALSE: prepared classes are used without waiting

\* nodes: class or union -> its static members; dyn: class -> classes of the values it
\* holds in fields of type Any; calls: thread -> direction and target
NodeNames == {"A", "B", "C", "U"}
G(a, b, c, u) == "A" :> a @@ "B" :> b @@ "C" :> c @@ "U" :> u
Graphs ==
  [single  |-> [kids |-> G(<<>>, <<>>, <<>>, <<"A">>), dyn |-> G(<<>>, <<>>, <<>>, <<>>)],
   chain   |-> [kids |-> G(<<"B">>, <<"C">>, <<>>, <<"A", "C">>), dyn |-> G(<<>>, <<>>, <<>>, <<>>)],
   cycle   |-> [kids |-> G(<<"B">>, <<"A">>, <<>>, <<"A", "B">>), dyn |-> G(<<>>, <<>>, <<>>, <<>>)],
   ring    |-> [kids |-> G(<<"B">>, <<"C">>, <<"A">>, <<"B", "C">>), dyn |-> G(<<>>, <<>>, <<>>, <<>>)],
   diamond |-> [kids |-> G(<<"B", "C">>, <<"C">>, <<>>, <<"B", "A">>), dyn |-> G(<<>>, <<>>, <<>>, <<>>)],
   dynamic |-> [kids |-> G(<<"B">>, <<>>, <<>>, <<"A", "B">>), dyn |-> G(<<"C">>, <<"C">>, <<>>, <<>>)]]
Targets(g) == IF g = "single" THEN {"A", "U"} ELSE {"A", "B", "U"}
Configs == UNION {[g : {g}, c1 : {"se", "de"} \X Targets(g), c2 : {"se", "de"} \X Targets(g)]
                  : g \in DOMAIN Graphs}
\* the two threads are alike
Rank(c) == (IF c[1] = "se" THEN 0 ELSE 10) + (CASE c[2] = "A" -> 1 [] c[2] = "B" -> 2 [] OTHER -> 3)
Cfgs == {c \in Configs : Rank(c.c1) <= Rank(c.c2)}

Thr == {1, 2}
VARIABLES cfg, owner, depth, gstack, ready, stored, th, out, cur, preempt, hist, last
vars == <<cfg, owner, depth, gstack, ready, stored, th, out, cur, preempt, hist, last>>

Kids(n) == Graphs[cfg.g].kids[n]
Dyn(d, n) == IF d = "se" THEN Graphs[cfg.g].dyn[n] ELSE <<>>
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Reach(_, _)
Reach(todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET n == CHOOSE n \in todo : TRUE
       IN Reach((todo \cup Range(Kids(n))) \ (seen \cup {n}), seen \cup {n})
SeqOf(S) == LET RECURSIVE F(_)
                F(R) == IF R = {} THEN <<>>
                        ELSE LET x == CHOOSE x \in R : TRUE IN <<x>> \o F(R \ {x})
            IN F(S)
\* what a call on n does once n is prepared: use the functions of the classes reached,
\* and start calls for values met in fields of type Any
Uses(d, n) ==
  LET rs == SeqOf(IF n = "U" THEN Reach(Range(Kids(n)), {}) ELSE Reach({n}, {}))
      ds == SeqOf(UNION {Range(Dyn(d, r)) : r \in Range(rs)})
  IN [i \in DOMAIN rs |-> <<"use", rs[i]>>] \o [i \in DOMAIN ds |-> <<"call", ds[i]>>]

Init ==
  /\ cfg \in Cfgs
  /\ owner = 0 /\ depth = 0 /\ gstack = [d \in {"se", "de"} |-> <<>>]
  /\ ready = {} /\ stored = {}
  /\ th = [t \in Thr |-> LET c == IF t = 1 THEN cfg.c1 ELSE cfg.c2
                         IN <<[k |-> "call", d |-> c[1], n |-> c[2], pc |-> "check", todo |-> <<>>]>>]
  /\ out = [t \in Thr |-> "run"]
  /\ cur = 0 /\ preempt = 0 /\ hist = <<>> /\ last = [t \in Thr |-> <<"start">>]

Top(t) == th[t][Len(th[t])]
Rest(t) == SubSeq(th[t], 1, Len(th[t]) - 1)
Fr(k, d, n, pc, todo) == [k |-> k, d |-> d, n |-> n, pc |-> pc, todo |-> todo]
CanLock(t) == ~Locked \/ owner \in {0, t}
Lock(t) == IF Locked THEN owner' = t /\ depth' = depth + 1 ELSE UNCHANGED <<owner, depth>>
Unlock(t) == IF Locked
             THEN depth' = depth - 1 /\ owner' = IF depth = 1 THEN 0 ELSE owner
             ELSE UNCHANGED <<owner, depth>>
Set(t, fs, label) == th' = [th EXCEPT ![t] = fs] /\ last' = [last EXCEPT ![t] = label]

IsReady(d, n) == <<d, n>> \in ready

\* one step of thread t; FALSE when it is blocked
Step(t) ==
  /\ th[t] # <<>> /\ out[t] = "run"
  /\ LET f == Top(t) IN
     CASE f.k = "call" /\ f.pc = "check" ->
            /\ IF f.n = "U"
               THEN IF "U" \in stored
                    THEN Set(t, Append(Rest(t), Fr("inv", f.d, f.n, "", Uses(f.d, f.n))), <<"checked">>)
                    ELSE Set(t, Append(Append(Rest(t), Fr("inv", f.d, f.n, "", Uses(f.d, f.n))),
                                       Fr("wrap", "se", f.n, "lock", <<>>)), <<"checked">>)
               ELSE Set(t, Append(Rest(t), [f EXCEPT !.pc = IF IsReady(f.d, f.n) THEN "gate" ELSE "lock"]),
                        <<"checked">>)
            /\ UNCHANGED <<owner, depth, gstack, ready, stored, out>>
       [] f.k = "call" /\ f.pc = "lock" ->
            /\ CanLock(t) /\ Lock(t)
            /\ gstack' = [gstack EXCEPT ![f.d] = Append(@, f.n)]
            /\ Set(t, Append(Append(Rest(t), [f EXCEPT !.pc = "gate"]),
                             Fr("gen", f.d, f.n, "", Kids(f.n))), <<"scope", f.n>>)
            /\ UNCHANGED <<ready, stored, out>>
       [] f.k = "wrap" /\ f.pc = "lock" ->    \* the wrapper itself is seen by this thread only
            /\ CanLock(t) /\ Lock(t)
            /\ gstack' = [gstack EXCEPT ![f.d] = Append(@, f.n)]
            /\ Set(t, Append(Append(Rest(t), [f EXCEPT !.pc = IF f.d = "se" THEN "next" ELSE "store"]),
                             Fr("gen", f.d, f.n, "", Kids(f.n))), <<"locked">>)
            /\ UNCHANGED <<ready, stored, out>>
       [] f.k = "wrap" /\ f.pc = "next" ->
            /\ Set(t, Append(Rest(t), Fr("wrap", "de", f.n, "lock", <<>>)), <<"wrapped">>)
            /\ UNCHANGED <<owner, depth, gstack, ready, stored, out>>
       [] f.k = "wrap" /\ f.pc = "store" ->
            /\ stored' = stored \cup {f.n}
            /\ Set(t, Rest(t), <<"stored">>)
            /\ UNCHANGED <<owner, depth, gstack, ready, out>>
       [] f.k = "gen" /\ f.todo # <<>> ->
            LET m == Head(f.todo)
                g == [f EXCEPT !.todo = Tail(f.todo)]
            IN IF IsReady(f.d, m) \/ m \in Range(gstack[f.d])
               THEN /\ Set(t, Append(Rest(t), g), <<"nested", m>>)
                    /\ UNCHANGED <<owner, depth, gstack, ready, stored, out>>
               ELSE /\ Lock(t)
                    /\ gstack' = [gstack EXCEPT ![f.d] = Append(@, m)]
                    /\ Set(t, Append(Append(Rest(t), g), Fr("gen", f.d, m, "", Kids(m))), <<"scope", m>>)
                    /\ UNCHANGED <<ready, stored, out>>
       [] f.k = "gen" /\ f.todo = <<>> ->
            /\ ready' = IF f.n = "U" THEN ready ELSE ready \cup {<<f.d, f.n>>}
            /\ gstack' = [gstack EXCEPT ![f.d] = SubSeq(@, 1, Len(@) - 1)]
            /\ Unlock(t)
            /\ Set(t, Rest(t), <<"ready", f.n, f.d>>)
            /\ UNCHANGED <<stored, out>>
       [] f.k = "call" /\ f.pc = "gate" ->
            /\ Set(t, Append(Rest(t), IF Gated /\ gstack[f.d] # <<>> THEN [f EXCEPT !.pc = "wait"]
                                      ELSE Fr("inv", f.d, f.n, "", Uses(f.d, f.n))), <<"gate">>)
            /\ UNCHANGED <<owner, depth, gstack, ready, stored, out>>
       [] f.k = "call" /\ f.pc = "wait" ->
            /\ CanLock(t)
            /\ Set(t, Append(Rest(t), Fr("inv", f.d, f.n, "", Uses(f.d, f.n))), <<"waited">>)
            /\ UNCHANGED <<owner, depth, gstack, ready, stored, out>>
       [] f.k = "inv" /\ f.todo # <<>> ->
            LET u == Head(f.todo)
                g == [f EXCEPT !.todo = Tail(f.todo)]
            IN /\ IF u[1] = "use"
                  THEN /\ Set(t, Append(Rest(t), g), u)
                       /\ out' = [out EXCEPT ![t] = IF IsReady(f.d, u[2]) THEN @ ELSE "half"]
                  ELSE /\ Set(t, Append(Append(Rest(t), g), Fr("call", f.d, u[2], "check", <<>>)), u)
                       /\ UNCHANGED out
               /\ UNCHANGED <<owner, depth, gstack, ready, stored>>
       [] OTHER ->   \* nothing left to do in this call
            /\ Set(t, Rest(t), <<"returned">>)
            /\ out' = [out EXCEPT ![t] = IF Len(th[t]) = 1 THEN "ok" ELSE @]
            /\ UNCHANGED <<owner, depth, gstack, ready, stored>>

\* bookkeeping of the schedule: hist holds the milestones at which threads were switched
Sched(t) ==
  IF cur \in {0, t} THEN UNCHANGED <<hist, preempt>>
  ELSE /\ hist' = Append(hist, <<cur, last[cur]>>)
       /\ preempt' = IF out[cur] # "run" THEN preempt ELSE preempt + 1

Next ==
  \E t \in Thr :
    /\ Step(t) /\ Sched(t) /\ cur' = t /\ UNCHANGED cfg
    /\ preempt' <= MaxPreempt
Done == \A t \in Thr : out[t] # "run"
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoHalfPrepared == \A t \in Thr : out[t] # "half"
LockFree == Done => owner = 0 /\ depth = 0 /\ gstack = [d \in {"se", "de"} |-> <<>>]
\* a thread that can not go on waits for the other one, which can
NoDeadlock == Done \/ \E t \in Thr : ENABLED Step(t)
OwnerHolds == owner # 0 => depth > 0
Inv == NoHalfPrepared /\ LockFree /\ NoDeadlock /\ OwnerHolds
Finishes == <>Done

View == <<cfg, owner, depth, gstack, ready, stored, th, out>>

\* printed once per complete schedule
Emit == Done => PrintT(<<"SCHED", cfg.g, cfg.c1, cfg.c2, hist>>)
\* printed for the schedules that go wrong when the lock or the wait is left out: the ones
\* which matter most for the real code
EmitHalf == Done /\ ~NoHalfPrepared => PrintT(<<"SCHED", cfg.g, cfg.c1, cfg.c2, hist>>)
=============================================================================
