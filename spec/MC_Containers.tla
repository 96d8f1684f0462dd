---------------------------- MODULE MC_Containers ----------------------------
(* Fixed strings kept as cells and a length, with the cell-wise exchange of the code:   *)
(* after any history they stand for the abstract texts; the comparison is a total order. *)
EXTENDS Containers
CONSTANTS N, Units
VARIABLES cells, len, text
vars == <<cells, len, text>>
Regs == {1, 2}
RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<<>>} ELSE SeqsUpTo(n - 1) \cup {Append(s, u) : s \in SeqsUpTo(n - 1), u \in Units}
Src == TLCEval(SeqsUpTo(N + 1))
Init == cells = [r \in Regs |-> Cells(<<>>, N)] /\ len = [r \in Regs |-> 0] /\ text = [r \in Regs |-> <<>>]
(* character by character, as the constructor does *)
RECURSIVE Fill(_, _)
Fill(u, i) == IF i > N \/ i > Len(u) THEN i - 1 ELSE IF u[i] = 0 THEN i - 1 ELSE Fill(u, i + 1)
New(r, u) ==
  LET k == Fill(u, 1)
  IN /\ len' = [len EXCEPT ![r] = k] /\ cells' = [cells EXCEPT ![r] = [i \in 1..N |-> IF i <= k THEN u[i] ELSE 0]]
     /\ text' = [text EXCEPT ![r] = FixedNew("c", u, N).text]
Swap == /\ LET m == IF len[1] < len[2] THEN len[2] ELSE len[1]
           IN cells' = [r \in Regs |-> [i \in 1..N |-> IF i <= m THEN cells[3 - r][i] ELSE cells[r][i]]]
        /\ len' = [r \in Regs |-> len[3 - r]]
        /\ text' = Exchange(text, 1, 2)
Copy(r) == /\ cells' = [cells EXCEPT ![r] = cells[3 - r]] /\ len' = [len EXCEPT ![r] = len[3 - r]]
           /\ text' = [text EXCEPT ![r] = text[3 - r]]
Next == Swap \/ (\E r \in Regs : Copy(r)) \/ (\E r \in Regs, u \in Src : New(r, u))
Represents == \A r \in Regs : /\ text[r] = SubSeq(cells[r], 1, len[r])
                              /\ cells[r] = Cells(text[r], N)
                              /\ \A i \in 1..Len(text[r]) : text[r][i] # 0
Ordered == /\ CmpText(text[1], text[2]) = 0 - CmpText(text[2], text[1])
           /\ (CmpText(text[1], text[2]) = 0) <=> (text[1] = text[2])
           /\ \A u \in Src : LET t == FixedNew("c", u, N).text
                             IN CmpText(text[1], text[2]) <= 0 /\ CmpText(text[2], t) <= 0 => CmpText(text[1], t) <= 0
=============================================================================
