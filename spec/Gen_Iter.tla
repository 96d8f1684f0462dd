------------------------------- MODULE Gen_Iter -------------------------------
(* Every transition of two iterators over four blocks, printed for replay into the code. *)
EXTENDS Integers, Sequences, TLC
VARIABLES ra, ka, rb, kb
In(rev, k) == IF rev THEN k \in 0..5 ELSE k \in -1..4
Init == ra = FALSE /\ ka = 0 /\ rb = FALSE /\ kb = 0
Move(d) == IF ra THEN ka - d ELSE ka + d
Say(op, d) == PrintT("@@T " \o ToString(ra) \o " " \o ToString(ka) \o " " \o ToString(rb) \o " " \o ToString(kb) \o " " \o op \o " " \o ToString(d))
A(op, d, keep) == /\ In(ra, Move(d)) /\ ka' = Move(d) /\ ra' = ra /\ UNCHANGED <<rb, kb>> /\ Say(op, d)
Elem(k) == (IF ra THEN k - 1 ELSE k) \in 0..3
Next ==
  \/ A("inc", 1, 0) \/ A("dec", -1, 0) \/ A("pinc", 1, 0) \/ A("pdec", -1, 0)
  \/ \E d \in -4..4 : A("jump", d, 0)
  \/ In(~ra, ka) /\ ra' = ~ra /\ UNCHANGED <<ka, rb, kb>> /\ Say("turn", 0)
  \/ \E d \in -4..4 : Elem(Move(d)) /\ UNCHANGED <<ra, ka, rb, kb>> /\ Say("at", d)
  \/ ra = rb /\ ka - kb \in -4..4 /\ UNCHANGED <<ra, ka, rb, kb>> /\ Say("cmp", 0)
  \/ \E k \in -1..5, v \in BOOLEAN : In(v, k) /\ rb' = v /\ kb' = k /\ UNCHANGED <<ra, ka>>
=============================================================================
