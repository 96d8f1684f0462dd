------------------------------ MODULE Gen_Format ------------------------------
(* Test generation: every address over a few group values. *)
EXTENDS MC_Format, Json
GenInit == Init
GenNext == Next /\ (IF i' = 8 THEN PrintT("@@T " \o ToJson(b')) ELSE TRUE)
=============================================================================
