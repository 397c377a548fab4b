------------------------------ MODULE Families ------------------------------
(* The bounded families by name. *)
EXTENDS FamClasses

Family(n) ==
  CASE n = "types" -> TypeFamily(0)
    [] n = "top" -> TopFamily(0)
    [] n = "kinds" -> KindFamily(Tcs)
    [] n = "kinds-strict" -> KindFamily(<<"strict">>)
    [] n = "kinds-modes" -> KindFamily(<<"coerce", "disabled">>)
    [] n = "kinds-top" -> TopKindFamily(0)
    [] n = "mutated" -> MutatedFamily(0)
    [] n = "formats" -> FmtFamily(0)
    [] n = "formats-top" -> FmtTopFamily(0)
    [] n = "numbers" -> NumFamily(0)
    [] n = "skips" -> SkipFamily(0)
    [] n = "skips-nested" -> SkipNestFamily(0)
    [] n = "names" -> NameFamily(0)
    [] n = "cases" -> CaseNestFamily(0)
    [] n = "defaults" -> DefFamily(0)
    [] n = "decls" -> DeclFamily(0)
    [] n = "keys" -> KeyFamily(0)
    [] n = "unions" -> UnionFamily(0)
    [] n = "unions-top" -> UnionTopFamily(0)
    [] n = "history" -> HistoryFamily(0)
    [] n = "hooks" -> HookFamily(0)
    [] n = "generics" -> GenFamily(0)
    [] n = "inheritance" -> InhFamily(0)
    [] n = "diamonds" -> DiaFamily(0)
    [] n = "custom" -> RegFamily(0)
    [] n = "transparent" -> TrFamily(0)
=============================================================================
