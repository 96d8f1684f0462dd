------------------------------ MODULE Gen_NetText ------------------------------
(* Test generation: every text the design model MC_NetText visits. *)
EXTENDS MC_NetText, Json
GenInit == Init
GenNext == Next /\ PrintT("@@T " \o ToJson(t'))
=============================================================================
