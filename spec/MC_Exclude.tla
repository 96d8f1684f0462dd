------------------------------- MODULE MC_Exclude -------------------------------
(* Exclusion as the iterator does it: halve, yield the half without the excluded *)
(* network, go on in the other.  The machine yields exactly Exclude(n, o), in    *)
(* that order, and stops.                                                        *)
EXTENDS NetAlg
CONSTANT MinPlen
VARIABLES n, o, s1, s2, cur, out, done
vars == <<n, o, s1, s2, cur, out, done>>
Nets == {Block(<<a>>, p) : a \in 0..255, p \in MinPlen..8}
Halves(m) == <<SubnetAt(m, m.plen + 1, <<0>>), SubnetAt(m, m.plen + 1, <<1>>)>>
Init == /\ n \in Nets /\ o \in Nets /\ SubnetOf(o, n) /\ o # n
        /\ s1 = Halves(n)[1] /\ s2 = Halves(n)[2] /\ cur = n /\ out = <<>> /\ done = FALSE
Yield(m) == cur' = m /\ out' = Append(out, m)
Split(m) == s1' = Halves(m)[1] /\ s2' = Halves(m)[2]
Keep == UNCHANGED <<s1, s2>>
Stop == done' = TRUE /\ UNCHANGED <<cur, out, s1, s2>>
Step == /\ ~done /\ UNCHANGED <<n, o>>
        /\ IF s1 # o /\ s2 # o
           THEN IF SubnetOf(o, s1) THEN IF cur # s2 THEN Yield(s2) /\ Split(s1) /\ done' = done ELSE Stop
                ELSE IF cur # s1 THEN Yield(s1) /\ Split(s2) /\ done' = done ELSE Stop
           ELSE IF s1 = o THEN IF cur # s2 THEN Yield(s2) /\ Keep /\ done' = done ELSE Stop
                ELSE IF cur # s1 THEN Yield(s1) /\ Keep /\ done' = done ELSE Stop
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
PrefixOfResult == out = SubSeq(Exclude(n, o), 1, Len(out))
Complete == done => out = Exclude(n, o)
Terminates == <>done
=============================================================================
