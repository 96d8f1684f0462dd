-------------------------------- MODULE MC_Embed --------------------------------
(* Addresses around every embedding prefix: each byte of the prefix as it is, one *)
(* more, one less, or one bit away; extraction is the inverse of embedding.       *)
EXTENDS Classify
CONSTANT Bodies
BodySet == {<<>>, <<1, 2, 3, 4>>, <<255, 255, 255, 255>>, <<0, 0, 0, 0>>, <<192, 168, 0, 1>>, <<127, 0, 0, 1>>}
SmallBodySet == {<<1, 2, 3, 4>>, <<255, 255, 255, 255>>, <<192, 168, 0, 1>>}
VARIABLES pre, v4, w4, flip
EmbedPrefixes == {Zero(10) \o <<255, 255>>, <<32, 2>>, <<32, 1, 0, 0>>}
(* the address with prefix pre, carrying v4 at once after it and w4 at its end *)
Place(p, x, y) == LET body == Zero(16 - Len(p)) IN
  LET b == p \o body
      after(i) == IF Len(p) < 12 /\ i \in (Len(p) + 1)..(Len(p) + 4) THEN x[i - Len(p)] ELSE b[i]
  IN TLCEval([i \in 1..16 |-> IF i >= 13 /\ Len(p) # 2 THEN y[i - 12] ELSE after(i)])
Init == pre \in EmbedPrefixes /\ v4 \in Bodies /\ w4 \in Bodies /\ flip = <<0, 0>>
Next == flip = <<0, 0>> /\ flip' \in (1..Len(pre)) \X {1, 2, 128, 255} /\ UNCHANGED <<pre, v4, w4>>
A == LET b == Place(pre, v4, w4) IN IF flip[1] = 0 THEN b ELSE [b EXCEPT ![flip[1]] = @ ^^ flip[2]]
Extracts == flip[1] = 0 =>
  /\ (Len(pre) = 12 => Mapped4(A) = w4 /\ SixToFour(A) = <<>> /\ TeredoServer(A) = <<>>)
  /\ (Len(pre) = 2 => SixToFour(A) = v4 /\ Mapped4(A) = <<>> /\ TeredoServer(A) = <<>>)
  /\ (Len(pre) = 4 => TeredoServer(A) = v4 /\ NotW(TeredoClient(A)) = w4 /\ Mapped4(A) = <<>> /\ SixToFour(A) = <<>>)
(* a different prefix never yields what the prefix itself would *)
OnlyThere == flip[1] # 0 =>
  /\ (Len(pre) = 12 => Mapped4(A) = <<>>)
  /\ (Len(pre) = 2 => SixToFour(A) = <<>>)
  /\ (Len(pre) = 4 => TeredoServer(A) = <<>> /\ TeredoClient(A) = <<>>)
=============================================================================
