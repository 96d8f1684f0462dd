------------------------------ MODULE Containers ------------------------------
(***************************************************************************)
(* Fixed strings, byte arrays and optionals, as abstract values:           *)
(*   a fixed string of capacity N is a text of at most N characters        *)
(*   (its cells past the text are NUL), a byte array of size N is a        *)
(*   sequence of N bytes, and an optional is <<>> or <<value>>.            *)
(***************************************************************************)
EXTENDS Encoded

(* a fixed string from an array of N + 1 code units *)
FixedNew(K, u, N) ==
  LET d == Decoded(K, CutAtNul(K, SubSeq(u, 1, IF Len(u) > N THEN N ELSE Len(u))))
  IN [code |-> d.code, text |-> d.text]
Cells(t, N) == TLCEval([i \in 1..N |-> IF i <= Len(t) THEN t[i] ELSE 0])
SignedChar(c) == IF c > 127 THEN c - 256 ELSE c
Signed(t) == TLCEval([i \in 1..Len(t) |-> SignedChar(t[i])])
(* plain characters compare as the machine's (signed) characters *)
CmpText(a, b) == CmpLex(Signed(a), Signed(b))
First(t) == IF t = <<>> THEN 0 ELSE t[1]
Final(t) == IF t = <<>> THEN 0 ELSE t[Len(t)]
Backwards(t) == TLCEval([i \in 1..Len(t) |-> t[Len(t) + 1 - i]])
Put(b, i, v) == [b EXCEPT ![i + 1] = v]
Exchange(f, r, q) == [f EXCEPT ![r] = f[q], ![q] = f[r]]
=============================================================================
