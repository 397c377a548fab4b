-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* Properties of outcomes stated without reference to Ser and De: they are *)
(* checked on what the implementation did and, in the MC models, on what   *)
(* Ser and De say.                                                         *)
(***************************************************************************)
EXTENDS Formats

(***************************************************************************)
(* Exact(t, v): v is of the kind deserialization into t builds, and t is   *)
(* one of the types for which a round trip is promised.                    *)
(***************************************************************************)
PlainMember(t) == t[1] \in {"int", "float", "str", "bool", "none"}
TagClash(tag, c) == tag[1] = "internal" /\ (tag[2] \in C(c).known \/ C(c).transparent
                                            \/ C(c).captures)
DistinctNames(ms) ==
  \A i, j \in DOMAIN ms : i # j /\ ms[i][1] = "cls" /\ ms[j][1] = "cls"
                          => C(ms[i][2]).name # C(ms[j][2]).name
UnionRT(ms, tag) ==
  /\ \A i \in DOMAIN ms : PlainMember(ms[i]) \/ ms[i][1] = "cls"
  /\ tag[1] # "untagged" \/ \A i \in DOMAIN ms : PlainMember(ms[i])
  /\ DistinctNames(ms)
  /\ \A i \in DOMAIN ms : ms[i][1] = "cls" => ~TagClash(tag, ms[i][2])
  /\ \A i, j \in DOMAIN ms : i # j /\ ms[i][1] = "cls" /\ ms[j][1] = "cls"
                             => ~IsSubclass(sid, ms[i][2], ms[j][2])

\* Transparent objects that are nothing but None in the data.
RECURSIVE NullLike(_)
NullLike(v) == v = NONE \/ (v[1] = "obj" /\ C(v[2]).transparent
                            /\ \E i \in DOMAIN v[3] : NullLike(v[3][i][2]))
RECURSIVE Exact(_, _, _, _, _), ExactObj(_, _, _, _)
\* tv: type arguments; tag: tagging in force; fmt: "" or a format
Exact(t, v, tv, tag, fmt) ==
  LET all(T, s) == \A i \in DOMAIN s : Exact(T, s[i], tv, tag, fmt)
      KeyOK(T, k) ==
        /\ Exact(T, k, tv, tag, fmt)
        /\ fmt \in {"", "pickle"} \/ T[1] \in {"str", "int", "strlike", "dt", "newtype", "enum"}
        /\ fmt \in {"json", "toml", "yaml"} /\ T[1] = "enum" => \A m \in Range(Members(sid, T[2])) : m[2][1] = "str"
        /\ fmt = "toml" => T[1] \in {"str", "strlike", "dt", "enum"}
        /\ fmt \in {"json", "yaml"} /\ T[1] = "newtype" => T[3] # "float"
  IN
  CASE t[1] = "cls" -> v[1] = "obj" /\ v[2] = t[2] /\ ExactObj(v, NoTv, fmt, FALSE)
    [] t[1] = "gen" -> v[1] = "obj" /\ v[2] = t[2]
                       /\ ExactObj(v, Bind(t[2], t[3], tv), fmt, FALSE)
    [] t[1] = "opt" -> IF v = NONE THEN fmt # "toml"
                       ELSE ~NullLike(v) /\ Exact(t[2], v, tv, tag, fmt)
    [] t[1] = "union" -> /\ UnionRT(t[2], tag)
                         /\ v = NONE => fmt # "toml"
                         /\ v # NONE => ~NullLike(v)
                         /\ \E i \in DOMAIN t[2] : Exact(t[2][i], v, tv, tag, fmt)
    [] t[1] = "list" -> v[1] = "list" /\ all(t[2], v[2])
    [] t[1] = "deque" -> v[1] = "deque" /\ all(t[2], v[2])
    [] t[1] = "vtuple" -> v[1] = "tuple" /\ all(t[2], v[2])
    [] t[1] \in {"set", "frozenset"} ->
         v[1] = t[1] /\ all(t[2], v[2]) /\ t[2][1] \in {"int", "str", "strlike", "dt", "bool", "float", "enum"}
    [] t[1] = "tuple" -> v[1] = "tuple" /\ Len(v[2]) = Len(t[2])
                         /\ \A i \in DOMAIN v[2] : Exact(t[2][i], v[2][i], tv, tag, fmt)
    [] t[1] = "dict" -> v[1] = "dict" /\ \A p \in Range(v[2]) :
                            KeyOK(t[2], p[1]) /\ Exact(t[3], p[2], tv, tag, fmt)
    [] t[1] = "ddict" -> v[1] = "defaultdict" /\ v[2] = Factory(t[3]) /\ \A p \in Range(v[3]) :
                            KeyOK(t[2], p[1]) /\ Exact(t[3], p[2], tv, tag, fmt)
    [] t[1] = "counter" -> v[1] = "counter" /\ \A p \in Range(v[2]) : KeyOK(t[2], p[1])
    [] t[1] \in {"int", "float", "str", "bool"} -> v[1] = t[1]
    [] t[1] = "newtype" -> v[1] = t[3]
    [] t[1] = "sub" -> v[1] = "sub" /\ v[2] = t[2] /\ fmt \in {"", "pickle"}
    [] t[1] = "none" -> v = NONE /\ fmt # "toml"
    [] t[1] = "strlike" -> IsLib(v, t[2]) /\ (t[2] = "PurePath" => v[1] = "PurePosixPath")
                           /\ (t[2] \notin {"PurePath"} => v[1] = t[2])
    [] t[1] = "dt" -> v[1] = t[2]
    [] t[1] = "enum" -> v[1] = "enum" /\ v[2] = t[2]
         /\ (fmt \notin {"", "pickle"} => EnumVal(sid, v)[1] \in {"int", "str", "bool", "float"})
    [] t[1] = "lit" -> \E i \in DOMAIN t[2] : t[2][i] = v
    [] t[1] = "tv" -> Has(tv, t[2]) /\ tv[t[2]][1] \notin {"any", "union", "opt", "tv"}
                      /\ Exact(tv[t[2]], v, tv, <<"external">>, fmt)
    [] t[1] = "alias" -> Exact(t[2], v, tv, tag, fmt)
    [] OTHER -> FALSE

NoneLeft(s) == \E i \in DOMAIN s : s[i][2] # NONE
ExactObj(v, tv, fmt, flat) ==
  LET c == C(v[2])
      FieldOK(f) ==
        LET x == FieldVal(v, f.n) IN
        /\ f.init /\ ~f.skip /\ ~f.sser /\ ~f.sde
        /\ f.mode = "" \/ (f.mode = "none" /\ (f.t[1] = "opt" \/ NoneUnion(f.t))
                           /\ (f.dk = "none" \/ f.dv = NONE))
        /\ f.fser \in {"", "default"} /\ f.fde \in {<<>>, <<"default">>}
        /\ ~f.capture
        /\ c.cvars # <<>> => f.child = ""
        /\ IF f.child # ""
           THEN IF x = NONE THEN f.t[1] = "opt" /\ f.slotsR = f.slotsW /\ (f.dk = "none" \/ f.dv = NONE) /\ ~c.captures
                ELSE x[1] = "obj" /\ x[2] = f.child /\ ExactObj(x, NoTv, fmt, TRUE)
                     /\ (f.t[1] = "opt" \/ f.dk # "none" =>
                           x[3] # <<>> /\ \E i \in DOMAIN x[3] : x[3][i][2] # NONE)
                     /\ (f.dk # "none" => \E i \in DOMAIN C(f.child).fs :
                           LET g == C(f.child).fs[i] IN g.mode = "" /\ g.child = "" /\ g.w)
           ELSE IF x = NONE /\ fmt = "toml"
                THEN (f.t[1] = "opt" \/ NoneUnion(f.t)) /\ (f.dk = "none" \/ f.dv = NONE)
                ELSE (fmt = "toml" => x = NONE \/ ~NullLike(x)) /\ Exact(f.t, x, tv, c.tag, fmt)
  IN /\ v[1] = "obj" /\ v[2] \in DOMAIN Comp[sid]
     /\ c.csers = <<>> /\ c.cdesers = <<>> /\ c.lsers = <<>> /\ c.ldesers = <<>>
     /\ snap[v[2]] = <<0, 0>>
     /\ c.deny \/ fmt = "toml" => c.cvars = <<>>
     /\ c.post = <<>> \/ FieldVal(v, c.post[1]) # c.post[2]
     /\ \A i \in DOMAIN c.fs : FieldOK(c.fs[i]) \/ (c.transparent /\ c.fs[i].skip /\ ~c.fs[i].init)
     /\ \A i \in DOMAIN c.fs : c.transparent /\ c.fs[i].skip => c.fs[i].dk # "none" /\ FieldVal(v, c.fs[i].n) = c.fs[i].dv
     \* the names of the fields do not clash, nor with those of flattened classes
     /\ \A i, j \in DOMAIN c.fs :
          i # j /\ ~c.fs[i].flat /\ ~c.fs[j].flat =>
            Range(c.fs[i].names) \cap Range(c.fs[j].names) = {}
     /\ \A i, j \in DOMAIN c.fs :
          i # j /\ c.fs[i].child # "" =>
            IF c.fs[j].child # "" THEN c.fs[i].ckKnown \cap c.fs[j].ckKnown = {}
            ELSE Range(c.fs[j].names) \cap c.fs[i].ckKnown = {}

\* Types handed to the API for which to_obj finds its way by the value.
RECURSIVE TopRT(_)
TopRT(t) ==
  CASE t[1] \in {"list", "set", "frozenset", "deque", "vtuple", "counter", "opt"} -> TopRT(t[2])
    [] t[1] \in {"dict", "ddict"} -> TopRT(t[2]) /\ TopRT(t[3])
                                     /\ t[2][1] \in {"str", "int", "float", "bool"}
    [] t[1] = "tuple" -> \A i \in DOMAIN t[2] : TopRT(t[2][i])
    [] t[1] \in {"newtype", "any", "none", "tv"} -> FALSE
    [] t[1] = "union" -> FALSE
    [] OTHER -> TRUE
\* Without the argument, both directions go by the class's own defaults.
RECURSIVE SameReuse(_)
SameReuse(v) ==
  /\ v[1] \in {"list", "tuple", "deque", "set", "frozenset"} => \A i \in DOMAIN v[2] : SameReuse(v[2][i])
  /\ IsDict(v) => \A i \in DOMAIN Pairs(v) : SameReuse(Pairs(v)[i][2])
  /\ v[1] = "obj" => ~(C(v[2]).reuse = "true" /\ C(v[2]).dereuse = "false")
Promised(c, v, fmt) ==
  LET u == IF c[1] = "tagged" THEN <<"union", c[2]>> ELSE c
      tag == IF c[1] = "tagged" THEN c[3] ELSE <<"external">>
  IN /\ c # <<>> /\ v # NONE
     /\ u[1] = "union" \/ TopRT(u)
     /\ fmt = "toml" => u[1] \in {"cls", "gen"} /\ ~C(u[2]).transparent
     /\ regS = <<>> /\ regD = <<>>
     /\ fmt = "" => SameReuse(v)
     /\ Exact(u, v, NoTv, tag, fmt)

(***************************************************************************)
(* Sharing: containers built for a declared type are new objects.          *)
(***************************************************************************)
RECURSIVE MayShare(_, _)
MayShare(t, seen) ==
  CASE t[1] \in {"any", "bare", "tv", "newtype"} -> TRUE
    [] t[1] = "counter" -> TRUE   \* counts are kept as they are
    [] t[1] \in {"list", "set", "frozenset", "deque", "vtuple", "opt", "alias"} ->
         MayShare(t[2], seen)
    [] t[1] \in {"dict", "ddict"} -> MayShare(t[2], seen) \/ MayShare(t[3], seen)
    [] t[1] \in {"tuple", "union", "tagged"} -> \E i \in DOMAIN t[2] : MayShare(t[2][i], seen)
    [] t[1] \in {"cls", "gen"} ->
         IF t[2] \in seen THEN FALSE
         ELSE \E i \in DOMAIN C(t[2]).fs :
                LET f == C(t[2]).fs[i] IN
                f.capture \/ C(t[2]).tc # "strict" \/ MayShare(f.t, seen \cup {t[2]})
    [] OTHER -> FALSE

(***************************************************************************)
(* The constructor                                                         *)
(***************************************************************************)
NewObj(cid, kw) ==
  LET c == C(cid)
      val(f) == IF HasKey(kw, f.n) THEN Get(kw, f.n) ELSE f.dv
      checks == {Conf(c.fs[i].t, Get(kw, c.fs[i].n)) : i \in {j \in DOMAIN c.fs : HasKey(kw, c.fs[j].n)}}
      obj == <<"obj", cid, [i \in DOMAIN c.fs |-> <<c.fs[i].n, val(c.fs[i])>>]>>
      hooked == c.post # <<>> /\ FieldVal(obj, c.post[1]) = c.post[2]
  IN IF c.tc = "strict" /\ "n" \in checks THEN ERR
     ELSE IF c.tc = "strict" /\ "m" \in checks THEN ANY
     ELSE IF hooked THEN UERR(c.post[3], c.post[4])
     ELSE obj

\* Does the observed outcome o match the expected outcome e?
Match(e, o, ord) ==
  CASE e[1] = "ANYX" -> TRUE
    [] e[1] = "ANY" -> o[1] # "EXC"
    [] e[1] = "ERR" -> o[1] = "ERR"
    [] e[1] = "UERR" -> o = e
    [] o[1] \in {"ERR", "EXC", "UERR"} -> FALSE
    [] OTHER -> Eq(e, o, ord)
=============================================================================
