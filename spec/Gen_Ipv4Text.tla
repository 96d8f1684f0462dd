------------------------------ MODULE Gen_Ipv4Text ------------------------------
(* Test generation: one text for every transition of the automaton, states being *)
(* told apart by what decides their future (VIEW), and every such text continued *)
(* to an acceptable one.                                                         *)
EXTENDS Ipv4Text, Json
VARIABLES s, t
Alphabet == {48, 49, 50, 53, 54, 57, Dot, 47, 58, 97, 32, 0, 45, 43, 46, 255}
View == <<Len(s.octs), s.n, s.z, s.err,
          IF s.v < 25 THEN s.v ELSE IF s.v = 25 THEN 25 ELSE IF s.v < 100 THEN 26
          ELSE IF s.v < 250 THEN 100 ELSE IF s.v <= 255 THEN s.v ELSE IF s.v = 256 THEN 256 ELSE 257>>
Init == s = V4Start /\ t = <<>>
Next == /\ s.err = ErrNone /\ Len(t) < 24
        /\ \E c \in Alphabet :
             /\ s' = V4Step(s, c) /\ t' = Append(t, c)
             /\ PrintT("@@T " \o ToJson(t'))
=============================================================================
