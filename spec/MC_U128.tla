------------------------------- MODULE MC_U128 -------------------------------
(* The word operations against integer arithmetic, for all operands of one byte (and of two, deep). *)
EXTENDS U128
CONSTANT Width, Values
VARIABLES a, b, done
M == P2(8 * Width)                                   \* Width = 1
All == 0..255
Edges == {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 64, 100, 127, 128, 129, 200, 254, 255}
Init == a \in All /\ b = 0 /\ done = FALSE
Next == ~done /\ done' = TRUE /\ a' = a /\ b' \in Values
W(v) == NatW(v % M, Width)
RECURSIVE PowN(_, _)
PowN(x, k) == IF k = 0 THEN 1 ELSE x * PowN(x, k - 1)
Arith == done =>
  LET x == W(a)  y == W(b)
      d == DivMod(x, y)
  IN /\ AddW(x, y) = W(a + b) /\ SubW(x, y) = W(a - b + M) /\ MulW(x, y) = W(a * b)
     /\ NegW(x) = W(M - a) /\ IncW(x) = W(a + 1) /\ DecW(x) = W(a + M - 1)
     /\ CmpW(x, y) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
     /\ Divided(x, y, d.q, d.r)
     /\ b # 0 => d.q = W(a \div b) /\ d.r = W(a % b)
     /\ \A q, r \in {0, 1, a, b, a \div 2, 255} : b # 0 => (Divided(x, y, W(q), W(r)) <=> q * b + r = a /\ r < b)
Shifts == done /\ b <= 10 => ShiftLeft(W(a), b) = W(a * PowN(2, b)) /\ ShiftRight(W(a), b) = W(a \div PowN(2, b)) /\ ShiftLeft(W(a), -b - 1) = Zero(Width)
(* every value prints in every base to a text that reads back, with no leading zero *)
Texts == done /\ b = 0 => \A base \in {8, 10, 16}, up \in BOOLEAN :
  LET t == Text(W(a), base, up)
  IN /\ Parse(t, base, Width) = [ok |-> TRUE, v |-> W(a)]
     /\ a # 0 => t[1] # 48
     /\ ~Parse(Append(t, 103), base, Width).ok /\ ~Parse(<<32>> \o t, base, Width).ok /\ ~Parse(Append(t, -1), base, Width).ok
     /\ Parse(t \o <<0, 103>>, base, Width) = Parse(t, base, Width)
(* rounding to p bits is nearest, ties to even; a number of few bits is exact; truncation inverts it *)
ToN(x) == IF x.e >= 0 THEN ToNat(x.m) * PowN(2, x.e) ELSE ToNat(x.m) \div PowN(2, -x.e)
Floats == done /\ b \in 2..6 =>
  LET p == b
      x == Nearest(W(a), p)
      v == ToN(x)
      gap(z) == IF z < a THEN a - z ELSE z - a
  IN /\ a # 0 => BitLen(x.m) = p
     /\ a < PowN(2, p) => v = a
     /\ \A m \in PowN(2, p - 1)..(PowN(2, p) - 1), k \in 0..8 :
          LET z == m * PowN(2, k) IN a # 0 /\ a >= PowN(2, p) => gap(v) <= gap(z) /\ (gap(v) = gap(z) /\ v # z => ToNat(x.m) % 2 = 0)
     /\ v < M => Truncated(x.m, x.e, Width) = W(v)
     /\ v >= M => Truncated(x.m, x.e, Width) = Ones(Width)
Truncates == done => \A f \in {0, 1, 3, 7} : Truncated(NatW(a * 8 + f, 8), -3, Width) = W(a)
Extends == done /\ b = 0 => Extend(NatW(a, 1), TRUE, 2) = NatW(IF a < 128 THEN a ELSE 65536 - 256 + a, 2) /\ Extend(NatW(a, 1), FALSE, 2) = NatW(a, 2)
=============================================================================
