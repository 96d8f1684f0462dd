------------------------------ MODULE Gen_NetRegs ------------------------------
(* Every transition of three registers over abstract networks (0 default, 1 a network, *)
(* 2 a subnetwork of it, 3 a single address with scope id, 4 an unrelated one, 5 the     *)
(* whole space), printed for replay into the code with concrete values.                 *)
EXTENDS Integers, Sequences, TLC
VARIABLES a, b, c
Values == 0..5
Init == a = 0 /\ b = 0 /\ c \in {0, 1, 4}
Do(op, x, y, z) == /\ a' = x /\ b' = y /\ c' = z
                   /\ PrintT("@@T " \o ToString(a) \o " " \o ToString(b) \o " " \o ToString(c) \o " " \o op)
Next ==
  \/ Do("copy", b, b, c) \/ Do("selfcopy", a, b, c)
  \/ Do("swap", b, a, c) \/ Do("selfswap", a, b, c)
  \/ Do("reverse", c, b, a) \/ Do("rotate", b, c, a) \/ Do("sort", a, b, c)
  \/ Do("super", a, b, c) \/ Do("sub", a, b, c) \/ Do("rest", a, b, c)
  \/ \E v \in Values : b # v /\ a' = a /\ b' = v /\ c' = c
=============================================================================
