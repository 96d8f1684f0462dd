------------------------------ MODULE Gen_Streams ------------------------------
(* Every transition of two streams' selections, printed for replay into the code: the   *)
(* selections before it, the stream and the operation.                                  *)
EXTENDS Integers, Sequences, TLC
VARIABLES f1, x1, u1, f2, x2, u2
vars == <<f1, x1, u1, f2, x2, u2>>
Init == f1 = 9 /\ f2 = 9 /\ x1 = TRUE /\ x2 = TRUE /\ u1 = FALSE /\ u2 = FALSE
Say(op) == PrintT("@@T " \o ToString(f1) \o " " \o ToString(x1) \o " " \o ToString(u1) \o " " \o ToString(f2) \o " " \o ToString(x2) \o " " \o ToString(u2) \o " " \o op)
Next ==
  \/ \E f \in 0..2 : f1' = f /\ UNCHANGED <<x1, u1, f2, x2, u2>> /\ Say("f" \o ToString(f))
  \/ \E x \in BOOLEAN : x1' = x /\ UNCHANGED <<f1, u1, f2, x2, u2>> /\ Say(IF x THEN "strict" ELSE "non_strict")
  \/ \E u \in BOOLEAN : u1' = u /\ UNCHANGED <<f1, x1, f2, x2, u2>> /\ Say(IF u THEN "uppercase" ELSE "nouppercase")
  \/ f1' = 9 /\ UNCHANGED <<x1, u1, f2, x2, u2>> /\ Say("value")
  \/ x1' = TRUE /\ UNCHANGED <<f1, u1, f2, x2, u2>> /\ Say("read")
  \/ UNCHANGED vars /\ (Say("other") /\ Say("readaddr") /\ Say("readbad"))
  \/ f1' = f2 /\ x1' = x2 /\ u1' = u2 /\ UNCHANGED <<f2, x2, u2>> /\ Say("copyfmt")
  \/ f1' = f2 /\ x1' = x2 /\ u1' = u2 /\ f2' = f1 /\ x2' = x1 /\ u2' = u1      \* the other stream
=============================================================================
