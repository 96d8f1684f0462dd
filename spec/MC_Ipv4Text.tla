------------------------------ MODULE MC_Ipv4Text ------------------------------
(* Every text over a small alphabet up to a length, read one character at a   *)
(* time: what the automaton accepts is exactly the canonical dotted decimal.  *)
EXTENDS Ipv4Text
CONSTANT MaxLen
Alphabet == {48, 49, 50, 53, Dot, 97}
VARIABLES s, t
vars == <<s, t>>
Init == s = V4Start /\ t = <<>>
Next == /\ Len(t) < MaxLen /\ s.err = ErrNone
        /\ \E c \in Alphabet : s' = V4Step(s, c) /\ t' = Append(t, c)
(* folding the automaton and stepping it are the same parser *)
Agrees == t # <<>> => ParseV4(t) = V4End(s)
(* accepted texts are exactly those that are the canonical text of their value *)
Canonical == ParseV4(t).code = ErrNone => FormatV4(ParseV4(t).bytes) = t
(* declarative reading of the grammar *)
Octets == {DecText(v) : v \in 0..255}
Dots == {i \in 1..Len(t) : t[i] = Dot}
Declared ==
  /\ Cardinality(Dots) = 3
  /\ LET d == SetToSortSeq(Dots, <)
     IN /\ SubSeq(t, 1, d[1] - 1) \in Octets /\ SubSeq(t, d[1] + 1, d[2] - 1) \in Octets
        /\ SubSeq(t, d[2] + 1, d[3] - 1) \in Octets /\ SubSeq(t, d[3] + 1, Len(t)) \in Octets
Complete == (ParseV4(t).code = ErrNone) <=> Declared
(* a verdict, once reached, is final: no continuation is accepted *)
Final == [][s.err # ErrNone => UNCHANGED s]_vars
(* a rejected text yields the default address *)
Default == ParseV4(t).code # ErrNone => ParseV4(t).bytes = Zero(4)
=============================================================================
