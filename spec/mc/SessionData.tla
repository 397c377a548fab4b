----------------------------- MODULE SessionData -----------------------------
(***************************************************************************)
(* The sessions of the bounded models: the family named by FAMILY, or      *)
(* WANT of its members (the OFFSET-th slice of that size).  The            *)
(* conversions of the library are those of the alphabet (env.json, written *)
(* by harness/scen.py).                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
LOCAL INSTANCE Families

EnvTable == JsonDeserialize("mc/env.json")
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* Steps of about the golden ratio spread a slice evenly over the family,
\* whatever the order of its members.
Step(n) == CHOOSE p \in ((n * 618) \div 1000)..n + 1 :
             Gcd(p, n) = 1 /\ \A q \in ((n * 618) \div 1000)..(p - 1) : Gcd(q, n) # 1
Picked ==
  LET f == Family(IOEnv.FAMILY)
      n == Len(f)
      want == atoi(IOEnv.WANT)
      k == IF want = 0 \/ n <= want THEN n ELSE want
  IN IF k = n THEN f ELSE [i \in 1..k |-> f[(((atoi(IOEnv.OFFSET) * k + i) * Step(n)) % n) + 1]]
Sessions == TLCEval([i \in DOMAIN Picked |-> Picked[i] @@ [env |-> EnvTable]])
Exported == JsonSerialize(IOEnv.OUT, Picked)
=============================================================================
