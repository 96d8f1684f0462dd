-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Fixed-width unsigned machine words as big-endian byte sequences.        *)
(* TLC integers are 32-bit, so every wide quantity of the library (IPv4    *)
(* and IPv6 addresses, netmasks, the 128-bit integer) is a sequence of     *)
(* numbers in 0..255, most significant byte first.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, SequencesExt, TLC

Bit == 0..1
Byte == 0..255

Pow2 == <<2, 4, 8, 16, 32, 64, 128, 256>>
P2(k) == IF k = 0 THEN 1 ELSE Pow2[k]              \* 2^k for k in 0..8

Zero(n) == TLCEval([i \in 1..n |-> 0])
Ones(n) == TLCEval([i \in 1..n |-> 255])
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
IsOnes(a) == \A i \in 1..Len(a) : a[i] = 255

(* -1, 0 or 1 as a is below, equal to or above b (equal lengths) *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) THEN 0
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE CmpFrom(a, b, i + 1)
CmpW(a, b) == IF a = b THEN 0 ELSE CmpFrom(a, b, 1)
LtW(a, b) == CmpW(a, b) < 0
LeW(a, b) == CmpW(a, b) <= 0

(* lexicographic comparison of sequences of any lengths, a shorter prefix first *)
RECURSIVE CmpLexFrom(_, _, _)
CmpLexFrom(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE CmpLexFrom(a, b, i + 1)
CmpLex(a, b) == IF a = b THEN 0 ELSE CmpLexFrom(a, b, 1)

AndW(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
OrW(a, b)  == TLCEval([i \in 1..Len(a) |-> a[i] | b[i]])
XorW(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
NotW(a)    == TLCEval([i \in 1..Len(a) |-> 255 - a[i]])

(* Addition and subtraction with carry; .c is the carry / borrow out. *)
AddC(a, b, c0) ==
  FoldRight(LAMBDA i, acc :
              LET s == a[i] + b[i] + acc.c
              IN [c |-> s \div 256, w |-> <<s % 256>> \o acc.w],
            TLCEval([i \in 1..Len(a) |-> i]), [c |-> c0, w |-> <<>>])
SubC(a, b, c0) ==
  FoldRight(LAMBDA i, acc :
              LET s == a[i] - b[i] - acc.c
              IN [c |-> IF s < 0 THEN 1 ELSE 0, w |-> <<(s + 256) % 256>> \o acc.w],
            TLCEval([i \in 1..Len(a) |-> i]), [c |-> c0, w |-> <<>>])
AddW(a, b) == AddC(a, b, 0).w
SubW(a, b) == SubC(a, b, 0).w
OneW(n) == TLCEval([i \in 1..n |-> IF i = n THEN 1 ELSE 0])
IncW(a) == AddC(a, Zero(Len(a)), 1).w
DecW(a) == SubC(a, Zero(Len(a)), 1).w
NegW(a) == IncW(NotW(a))

(* zero-extend / truncate to n bytes *)
ResizeW(a, n) ==
  IF Len(a) >= n THEN SubSeq(a, Len(a) - n + 1, Len(a))
  ELSE Zero(n - Len(a)) \o a

(* a small natural (below 2^31) as an n-byte word *)
RECURSIVE NatDigits(_, _)
NatDigits(v, n) == IF n = 0 THEN <<>> ELSE NatDigits(v \div 256, n - 1) \o <<v % 256>>
NatW(v, n) == NatDigits(v, n)
(* the value of a word known to be below 2^31 *)
ToNat(a) == FoldLeft(LAMBDA acc, d : acc * 256 + d, 0, a)
FitsNat(a) == LET s == ResizeW(a, 4) IN
  (\A i \in 1..(Len(a) - 4) : a[i] = 0) /\ s[1] < 128

(* logical shifts by k bits; k >= width gives zero *)
ShlW(a, k) ==
  LET n == Len(a)
      q == k \div 8
      r == k % 8
      at(i) == IF i >= 1 /\ i <= n THEN a[i] ELSE 0
  IN IF k >= 8 * n THEN Zero(n)
     ELSE TLCEval([i \in 1..n |-> ((at(i + q) * P2(r)) % 256) + (at(i + q + 1) * P2(r)) \div 256])
ShrW(a, k) ==
  LET n == Len(a)
      q == k \div 8
      r == k % 8
      at(i) == IF i >= 1 /\ i <= n THEN a[i] ELSE 0
  IN IF k >= 8 * n THEN Zero(n)
     ELSE TLCEval([i \in 1..n |-> (at(i - q) \div P2(r)) + ((at(i - q - 1) * P2(8 - r)) % 256)])
BitW(k, n) == ShlW(OneW(n), k)       \* 2^k as an n-byte word (0 when k >= 8n)

(* n bytes whose first p bits are ones *)
MaskW(n, p) ==
  TLCEval([i \in 1..n |->
     LET b == p - 8 * (i - 1)
     IN IF b >= 8 THEN 255 ELSE IF b <= 0 THEN 0 ELSE 256 - P2(8 - b)])

(* product modulo 256^n (schoolbook, column by column) *)
MulW(a, b) ==
  LET n == Len(a)
      col(k) == FoldLeft(LAMBDA s, i : s + a[i] * b[k + n - i], 0,
                         TLCEval([j \in 1..(n - k + 1) |-> k + j - 1]))
      step(k, acc) ==
         LET s == col(k) + acc.c
         IN [c |-> s \div 256, w |-> <<s % 256>> \o acc.w]
  IN FoldRight(step, TLCEval([i \in 1..n |-> i]), [c |-> 0, w |-> <<>>]).w

(* full product, 2n bytes *)
MulFull(a, b) == LET n == Len(a) IN MulW(ResizeW(a, 2 * n), ResizeW(b, 2 * n))

(* divide by a small number d in 1..2^22; result [q, r] *)
DivSmall(a, d) ==
  FoldLeft(LAMBDA acc, x :
             LET t == acc.r * 256 + x
             IN [q |-> Append(acc.q, t \div d), r |-> t % d],
           [q |-> <<>>, r |-> 0], a)
(* a * m + c for small m, c; drops the carry out of the top byte *)
MulSmallC(a, m, c) ==
  FoldRight(LAMBDA x, acc :
              LET t == x * m + acc.c
              IN [c |-> t \div 256, w |-> <<t % 256>> \o acc.w],
            a, [c |-> c, w |-> <<>>])
MulSmall(a, m, c) == MulSmallC(a, m, c).w

(* q and r are the quotient and remainder of a by b (b # 0) *)
IsDivMod(a, b, q, r) ==
  /\ LtW(r, b)
  /\ LET n == Len(a)
         p == AddW(MulFull(q, b), ResizeW(r, 2 * n))
     IN p = ResizeW(a, 2 * n)

(* Digits of a word in a small base, most significant first; <<0>> for zero *)
RECURSIVE DigitsRec(_, _)
DigitsRec(a, base) ==
  IF IsZero(a) THEN <<>>
  ELSE LET d == DivSmall(a, base) IN Append(DigitsRec(d.q, base), d.r)
DigitsW(a, base) == IF IsZero(a) THEN <<0>> ELSE DigitsRec(a, base)
=============================================================================
