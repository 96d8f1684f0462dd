---------------------------------- MODULE U128 ----------------------------------
(***************************************************************************)
(* The 128-bit unsigned integer: words of 16 bytes (of any width, for the  *)
(* exhaustive check at small ones).                                        *)
(***************************************************************************)
EXTENDS Words
(* a built-in integer, given as its two's complement in 8 bytes, as a word of n bytes *)
Extend(k, signed, n) == IF signed /\ k[1] >= 128 THEN Ones(n - Len(k)) \o k ELSE ResizeW(k, n)
(* q and r are what division of a by b gives: by zero the quotient is zero *)
Divided(a, b, q, r) == IF IsZero(b) THEN IsZero(q) /\ r = a ELSE IsDivMod(a, b, q, r)
(* quotient and remainder by shift and subtract *)
DivMod(a, b) ==
  IF IsZero(b) THEN [q |-> Zero(Len(a)), r |-> a]
  ELSE FoldLeft(LAMBDA acc, i :
           LET bit == (a[(i + 7) \div 8] \div P2(7 - ((i - 1) % 8))) % 2
               over == acc.r[1] >= 128                    \* the bit shifted out
               r == OrW(ShlW(acc.r, 1), NatW(bit, Len(a)))
               fits == over \/ LeW(b, r)
           IN [q |-> OrW(ShlW(acc.q, 1), NatW(IF fits THEN 1 ELSE 0, Len(a))), r |-> IF fits THEN SubW(r, b) ELSE r],
         [q |-> Zero(Len(a)), r |-> Zero(Len(a))], TLCEval([i \in 1..(8 * Len(a)) |-> i]))
(* shift counts below zero or of the width and more give zero *)
ShiftLeft(a, n) == IF n < 0 THEN Zero(Len(a)) ELSE ShlW(a, n)
ShiftRight(a, n) == IF n < 0 THEN Zero(Len(a)) ELSE ShrW(a, n)

(* ---- floating point: m * 2^e, m a word of 8 bytes ---- *)
RECURSIVE TopBit(_, _)
TopBit(a, i) == IF i = 0 THEN 0 ELSE IF (a[Len(a) - (i - 1) \div 8] \div P2((i - 1) % 8)) % 2 = 1 THEN i ELSE TopBit(a, i - 1)
BitLen(a) == TopBit(a, 8 * Len(a))                        \* 0 for zero
(* a rounded to the nearest number of p significant bits, ties to even: m * 2^e with m of p bits *)
Nearest(a, p) ==
  LET L == BitLen(a)
  IN IF L = 0 THEN [m |-> Zero(8), e |-> 0]
     ELSE IF L <= p THEN [m |-> ResizeW(ShlW(a, p - L), 8), e |-> L - p]
     ELSE LET k == L - p
              m == ResizeW(ShrW(a, k), 8)
              low == SubW(a, ShlW(ShrW(a, k), k))
              half == BitW(k - 1, Len(a))
              up == LtW(half, low) \/ (low = half /\ m[8] % 2 = 1)
              m1 == IF up THEN IncW(m) ELSE m
          IN IF BitLen(m1) > p THEN [m |-> ShrW(m1, 1), e |-> k + 1] ELSE [m |-> m1, e |-> k]
(* the same of a number given as m * 2^e *)
NearestOf(x, p) == LET r == Nearest(x.m, p) IN IF IsZero(x.m) THEN r ELSE [m |-> r.m, e |-> r.e + x.e]
(* m * 2^e truncated to an integer below 2^width, or the largest one *)
Truncated(m, e, n) ==
  IF IsZero(m) THEN Zero(n)
  ELSE IF BitLen(m) + e > 8 * n THEN Ones(n)
  ELSE IF e >= 0 THEN ShlW(ResizeW(m, n), e) ELSE ResizeW(ShrW(ResizeW(m, IF n > 8 THEN n ELSE 8), -e), n)

(* ---- text ---- *)
DigitChar(d, up) == IF d < 10 THEN 48 + d ELSE (IF up THEN 55 ELSE 87) + d
Text(a, base, up) == LET d == DigitsW(a, base) IN [i \in 1..Len(d) |-> DigitChar(d[i], up)]
DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
(* text: characters up to a NUL, as numbers (-1: cannot be decoded).  ok is FALSE when some character is no digit *)
Parse(t, base, n) ==
  LET r == FoldLeft(LAMBDA acc, c :
             IF acc.done \/ ~acc.ok THEN acc
             ELSE IF c = 0 THEN [acc EXCEPT !.done = TRUE]
             ELSE IF c < 0 \/ DigitVal(c) >= base THEN [acc EXCEPT !.ok = FALSE]
             ELSE [acc EXCEPT !.v = MulSmall(acc.v, base, DigitVal(c))],
           [ok |-> TRUE, done |-> FALSE, v |-> Zero(n)], t)
  IN [ok |-> r.ok, v |-> IF r.ok THEN r.v ELSE Zero(n)]
=============================================================================
