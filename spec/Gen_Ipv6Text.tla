------------------------------ MODULE Gen_Ipv6Text ------------------------------
(* Test generation: one text for every transition of the automaton, states being *)
(* told apart by what decides their future: how many groups, which are empty,    *)
(* the shape of the current group and the verdict.                               *)
EXTENDS Ipv6Text, Json
VARIABLES s, t
Alphabet == {48, 57, 70, 97, 103, Colon, Dot, 47, 0, 64}
Empties == {i \in 2..Len(s.parts) : s.parts[i] = <<>>}
CurView == LET d == Cardinality({i \in 1..Len(s.cur) : s.cur[i] = Dot})
               bad == \E i \in 1..Len(s.cur) : s.cur[i] # Dot /\ ~IsHex(s.cur[i])
           IN <<IF d > 0 /\ Len(s.cur) < 15 THEN 5 ELSE Len(s.cur), IF d > 4 THEN 5 ELSE d, bad, d > 0 /\ s.prev = Dot>>
View == <<Len(s.parts), s.parts # <<>> /\ s.parts[1] = <<>>, IF Cardinality(Empties) > 2 THEN 2 ELSE Cardinality(Empties),
          \E i \in 1..Len(s.parts) : ~PartOk(s.parts[i]), CurView, s.err, s.dbl>>
Init == s = V6Start /\ t = <<>>
Next == /\ s.err = ErrNone /\ Len(t) < 50
        /\ \E c \in Alphabet :
             /\ s' = V6Step(s, c) /\ t' = Append(t, c)
             /\ PrintT("@@T " \o ToJson(t'))
=============================================================================
