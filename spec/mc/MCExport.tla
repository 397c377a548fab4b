------------------------------ MODULE MCExport ------------------------------
(* Only exports the sessions of a family. *)
EXTENDS Families, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, Family(IOEnv.FAMILY))
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
