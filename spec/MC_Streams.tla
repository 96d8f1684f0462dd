------------------------------ MODULE MC_Streams ------------------------------
(* Two streams under every short history; the registers must mean what the history says. *)
EXTENDS Streams
CONSTANT MaxLen
VARIABLES st, hist, seen
vars == <<st, hist, seen>>
Addr == [b |-> [i \in 1..16 |-> IF i = 2 THEN 171 ELSE IF i = 16 THEN 10 ELSE 0], s |-> <<97>>]      \* ab::a%a
HostBits == <<49, 46, 49, 46, 49, 46, 49, 47, 56>>                                     \* 1.1.1.1/8
Formats == {"full", "compact", "compressed"}
Stricts == {"strict", "non_strict"}
Cases == {"uppercase", "nouppercase"}
Ops == Formats \cup Stricts \cup Cases \cup {"value", "other", "read", "copy"}
Other(i) == 3 - i
Init == st = [i \in 1..2 |-> Fresh("c")] /\ hist = <<>> /\ seen = <<>>
Do(i, op) ==
  LET s == st[i]
      r == CASE op = "value" -> InsertAddr(s, Addr)
             [] op = "other" -> Put(s, <<88>>)
             [] op = "read" -> LET x == ExtractNet([s EXCEPT !.in = HostBits], "n4") IN [s |-> [x.s EXCEPT !.eof = FALSE, !.fail = FALSE], out |-> x.r]
             [] op = "copy" -> [s |-> CopyFmt(s, st[Other(i)]), out |-> <<>>]
             [] OTHER -> [s |-> Manip(s, op), out |-> <<>>]
  IN st' = [st EXCEPT ![i] = r.s] /\ seen' = r.out /\ hist' = Append(hist, <<i, op>>)
Next == Len(hist) < MaxLen /\ \E i \in 1..2, op \in Ops : Do(i, op)
Spec == Init /\ [][Next]_vars

(* what a history of n operations has selected on stream i: the last choice made there since it was used up *)
RECURSIVE Chosen(_, _, _, _, _)
Chosen(n, i, choices, user, none) ==
  IF n = 0 THEN none
  ELSE LET x == hist[n]
       IN IF x[1] # i THEN Chosen(n - 1, i, choices, user, none)
          ELSE IF x[2] = user THEN none
          ELSE IF x[2] = "copy" THEN Chosen(n - 1, Other(i), choices, user, none)
          ELSE IF x[2] \in choices THEN x[2] ELSE Chosen(n - 1, i, choices, user, none)
FmtOf(m) == CASE m = "full" -> FmtFull [] m = "compact" -> FmtCompact [] OTHER -> FmtCompressed
Latest == hist[Len(hist)]
Printed == Len(hist) > 0 /\ Latest[2] = "value" =>
  LET i == Latest[1]
      n == Len(hist) - 1
      t == FormatAddr(Addr.b, Addr.s, FmtOf(Chosen(n, i, Formats, "value", "compressed")))
  IN /\ Len(seen) = Len(t)
     /\ IF Chosen(n, i, Cases, "never", "nouppercase") = "nouppercase" THEN seen = t
        ELSE /\ \A k \in 1..Len(t) : seen[k] = t[k] \/ (t[k] \in 97..102 /\ seen[k] = t[k] - 32)
             /\ seen[Len(t)] = 97 /\ seen[1] # 97 /\ \A k \in 1..(Len(t) - 1) : seen[k] \notin 97..102
Read == Len(hist) > 0 /\ Latest[2] = "read" =>
  LET m == Chosen(Len(hist) - 1, Latest[1], Stricts, "read", "strict")
  IN (seen.code = ErrNone) = (m = "non_strict") /\ (seen.code # ErrNone => seen.net = DefNet(4))
(* an operation on one stream changes no other *)
Local == [][\A i \in 1..2 : hist'[Len(hist')][1] # i => st'[i] = st[i]]_vars
=============================================================================
