----------------------------- MODULE SessionData -----------------------------
(***************************************************************************)
(* The sessions under consideration: here those recorded in the file named *)
(* by TRACE.  The bounded models (directory mc) have their own version of  *)
(* this module.  (A definition, because TLC evaluates it once; a constant  *)
(* replaced by the configuration would be read again at every use.)        *)
(***************************************************************************)
EXTENDS Json, IOUtils
Sessions == JsonDeserialize(IOEnv.TRACE)
=============================================================================
