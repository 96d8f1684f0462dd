------------------------------ MODULE Gen_IterRegs ------------------------------
(* Every operation on two registers of version-independent iterators, each of one of *)
(* two versions, forward or reverse, at one of four places, printed for replay into    *)
(* the code over concrete sequences.                                                    *)
EXTENDS Integers, Sequences, TLC
VARIABLES a, b
Its == {4, 6} \X {"f", "r"} \X (0..3)
Name(x) == ToString(x[1]) \o x[2] \o ToString(x[3])
Init == a = <<4, "f", 0>> /\ b = a
Do(op, x, y) == a' = x /\ b' = y /\ PrintT("@@T " \o Name(a) \o " " \o Name(b) \o " " \o op)
Turned(x) == <<x[1], IF x[2] = "f" THEN "r" ELSE "f", x[3]>>
Step(x, d) == LET k == x[3] + (IF x[2] = "f" THEN d ELSE -d) IN <<x[1], x[2], k>>
Ok(x) == x[3] \in 0..3
Next ==
  \/ Do("copy", a, a) \/ Do("swap", b, a) \/ Do("turn", a, Turned(a))
  \/ Ok(Step(a, 1)) /\ Do("inc", Step(a, 1), b)
  \/ Ok(Step(a, -1)) /\ Do("dec", Step(a, -1), b)
  \/ Ok(Step(a, 1)) /\ Do("pinc", Step(a, 1), a)
  \/ Ok(Step(a, -1)) /\ Do("pdec", Step(a, -1), a)
  \/ Ok(Step(a, 2)) /\ Do("add", a, Step(a, 2))
  \/ Ok(Step(a, -2)) /\ Do("sub", a, Step(a, -2))
  \/ a[2] = b[2] /\ Do("cmp", a, b)
  \/ \E x \in Its : a' = a /\ b' = x
=============================================================================
