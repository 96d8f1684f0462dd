-------------------------------- MODULE MC_Iter --------------------------------
(***************************************************************************)
(* How the library represents a position: an offset of a fixed number of   *)
(* bits and a carry counting wrap-arounds, with a step between blocks.     *)
(* The invariant is that this representation stays in step with an         *)
(* unbounded integer position, and that equality, order and differences   *)
(* computed from it are those of the positions.  Two iterators, Bits wide, *)
(* every step size, every jump that stays between before-first and         *)
(* past-last.                                                              *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANT Bits
VARIABLES sh, a, b           \* step = 2^sh; iterators [rev, pos, off, car]
M == 2 ^ Bits
Step == (2 ^ sh) % M         \* 0 when a block is the whole space
Count == 2 ^ (Bits - sh)     \* number of blocks
InRange(rev, pos) == IF rev THEN pos \in 0..(Count + 1) ELSE pos \in -1..Count
(* a reverse iterator holds the iterator one block before its base *)
Held(it) == IF it.rev THEN it.pos - 1 ELSE it.pos

(* the library's add and sub, and the conversions to and from reverse *)
Add(it, n) ==
  LET o == (Step * n) % M
      off2 == (it.off + o) % M
      c1 == IF o = 0 /\ n # 0 THEN 1 ELSE 0
      c2 == IF o # 0 /\ off2 < it.off THEN 1 ELSE 0
  IN [it EXCEPT !.off = off2, !.car = @ + c1 + c2]
Sub(it, n) ==
  LET o == (Step * n) % M
      off2 == (it.off - o) % M
      c1 == IF o = 0 /\ n # 0 THEN 1 ELSE 0
      c2 == IF o # 0 /\ off2 > it.off THEN 1 ELSE 0
  IN [it EXCEPT !.off = off2, !.car = @ - c1 - c2]
Jump(it, d) == IF it.rev THEN (IF d < 0 THEN Add(it, -d) ELSE Sub(it, d))
               ELSE (IF d < 0 THEN Sub(it, -d) ELSE Add(it, d))
ToReverse(it) == LET o == (it.off - Step) % M IN [it EXCEPT !.rev = TRUE, !.off = o, !.car = IF o >= it.off THEN @ - 1 ELSE @]
ToBase(it) == LET o == (it.off + Step) % M IN [it EXCEPT !.rev = FALSE, !.off = o, !.car = IF o <= it.off THEN @ + 1 ELSE @]
Turn(it) == IF it.rev THEN ToBase(it) ELSE ToReverse(it)

Moves(it, d) == [Jump(it, d) EXCEPT !.pos = IF it.rev THEN @ - d ELSE @ + d]
Range == {d \in -Count..Count : d < M /\ -d < M}
Init == sh \in 0..Bits /\ a = [rev |-> FALSE, pos |-> 0, off |-> 0, car |-> 0] /\ b = a
Change(it, it2) ==
  \/ \E d \in Range : InRange(it.rev, IF it.rev THEN it.pos - d ELSE it.pos + d) /\ it2 = Moves(it, d)
  \/ InRange(~it.rev, it.pos) /\ it2 = Turn(it)
Next == sh' = sh /\ ((Change(a, a') /\ b' = b) \/ (Change(b, b') /\ a' = a))

(* blocks are 2^sh apart; a block spanning the space wraps at every step *)
Refines(it) == LET x == Held(it) * 2 ^ sh IN it.off = x % M /\ it.car = x \div M
RepresentationInStep == Refines(a) /\ Refines(b)
LexLess(x, y) == x.car < y.car \/ (x.car = y.car /\ x.off < y.off)
Less(x, y) == IF x.rev THEN LexLess(y, x) ELSE LexLess(x, y)
PosLess(x, y) == IF x.rev THEN y.pos < x.pos ELSE x.pos < y.pos
OrderIsOfPositions ==
  a.rev = b.rev => /\ (Less(a, b) <=> PosLess(a, b))
                   /\ ((a.off = b.off /\ a.car = b.car) <=> a.pos = b.pos)
(* the library's unsigned and signed differences *)
UDiff0(x, y) ==
  LET d == (x.off - y.off) % M
  IN IF d = 0 /\ x.car # y.car THEN IF Step # 0 THEN ((M - Step) \div Step + 1) % M ELSE 1
     ELSE IF Step # 0 THEN d \div Step ELSE 0
UDiff(x, y) == IF x.rev THEN UDiff0(y, x) ELSE UDiff0(x, y)
Diff0(x, y) == IF LexLess(x, y) THEN -UDiff0(y, x) ELSE UDiff0(x, y)
Diff(x, y) == IF x.rev THEN Diff0(y, x) ELSE Diff0(x, y)
PosDiff(x, y) == IF x.rev THEN y.pos - x.pos ELSE x.pos - y.pos
Abs(n) == IF n < 0 THEN -n ELSE n
DifferenceIsOfPositions ==
  a.rev = b.rev /\ Abs(PosDiff(a, b)) <= Count =>
    /\ Diff(a, b) = IF Abs(PosDiff(a, b)) = M THEN 0 ELSE PosDiff(a, b)
    /\ PosDiff(a, b) >= 0 => UDiff(a, b) = PosDiff(a, b) % M
=============================================================================
