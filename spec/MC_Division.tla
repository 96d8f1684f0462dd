------------------------------ MODULE MC_Division ------------------------------
(* Every pair of numbers: the quotient digits are exact, at most two corrections of a    *)
(* guess are needed and the subtraction overshoots at most once per digit.               *)
EXTENDS Division
CONSTANT Digits
VARIABLES a, b, done
Few == {0, 1, 3, 4, 7}
Init == a \in [1..4 -> Digits] /\ b = <<0, 0, 0, 0>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ a' = a /\ b' \in [1..4 -> Digits]
Divides(x, y) == Value(y) # 0 /\ Value(x) > Value(y)
Exact == done /\ Divides(a, b) =>
  LET r == Divide(a, b)
  IN r.ok /\ Value(r.q) = Value(a) \div Value(b) /\ Value(r.left) = Value(a) % Value(b)
Bounded == done /\ Divides(a, b) => LET r == Divide(a, b) IN r.back <= Size(a, 4) - Size(b, 4) + 1 /\ r.guesses <= 2 * (Size(a, 4) - Size(b, 4) + 1)
=============================================================================
