------------------------------ MODULE Gen_Division ------------------------------
(* Pairs whose division corrects a guessed digit, printed for replay with 32-bit digits  *)
(* (0, 1, half, half less one and the largest stay what they are).                       *)
EXTENDS Division
VARIABLES a, b, path
vars == <<a, b, path>>
Left == {0, 3, 4, 7}
Right == {0, 1, 3, 4, 7}
Init == a = <<0, 0, 0, 0>> /\ b = <<0, 0, 0, 0>> /\ path = -1
Next ==
  \/ path = -1 /\ a' \in [1..4 -> Left] /\ b' = b /\ path' = -2
  \/ path = -2 /\ a' = a /\ b' \in [1..4 -> Right] /\ Value(b') # 0 /\ Value(b') < Value(a)
     /\ LET r == Divide(a, b')
        IN /\ path' = r.guesses + 10 * r.back
           /\ IF path' > 0 THEN PrintT("@@T " \o ToString(path') \o " " \o ToString(a) \o " " \o ToString(b')) ELSE TRUE
=============================================================================
