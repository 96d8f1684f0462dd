---------------------------- MODULE Gen_Containers ----------------------------
(* Every transition of two registers holding texts of all lengths up to the capacity, printed for replay. *)
EXTENDS Containers
CONSTANTS N, Alphabet
VARIABLES a, b
vars == <<a, b>>
Run(x, n) == TLCEval([i \in 1..n |-> x])
Texts == {Run(x, n) : x \in Alphabet, n \in 0..N} \cup {<<x, y>> : x, y \in Alphabet}
         \cup {[Run(x, N) EXCEPT ![i] = y] : x, y \in Alphabet, i \in 1..N}
Say(op) == PrintT("@@T " \o ToString(a) \o "|" \o ToString(b) \o "|" \o op)
Init == a = <<>> /\ b = <<>>
Next ==
  \/ \E t \in Texts : a' = t /\ b' = b
  \/ \E t \in Texts : b' = t /\ a' = a
  \/ a' = b /\ b' = a /\ Say("swap")
  \/ a' = b /\ b' = b /\ Say("copy")
  \/ UNCHANGED vars /\ Say("look")
=============================================================================
