------------------------------ MODULE Gen_Unicode ------------------------------
(* Test generation: every text of units the design model MC_Unicode visits. *)
EXTENDS MC_Unicode, Json
GenInit == Init
GenNext == Next /\ PrintT("@@T " \o ToJson(s'))
=============================================================================
