------------------------------- MODULE Gen_AnyIp -------------------------------
(* Every transition of two registers over five abstract values of either version    *)
(* (0 default, 1 IPv4, 2 IPv6, 3 IPv6 with scope id, 4 another IPv4), printed for     *)
(* replay into the code with concrete values.                                        *)
EXTENDS Integers, Sequences, TLC
VARIABLES a, b, kind
Values == 0..4
Scoped(x) == IF x = 2 THEN 3 ELSE x
Plain(x) == IF x = 3 THEN 2 ELSE x
Init == a = 0 /\ b = 0 /\ kind \in {"a", "n"}
Do(op, arg, x, y) == /\ a' = x /\ b' = y /\ kind' = kind
                     /\ PrintT("@@T " \o kind \o " " \o ToString(a) \o " " \o ToString(b) \o " " \o op \o " " \o ToString(arg))
Next ==
  \/ \E v \in Values : Do("put", v, v, b) \/ Do("parse", v, v, b)
  \/ Do("bad", 0, 0, b)                                \* a text that is no address
  \/ Do("copy", 0, b, b) \/ Do("swap", 0, b, a)
  \/ Do("selfcopy", 0, a, b) \/ Do("selfswap", 0, a, b)
  \/ kind = "a" /\ (Do("scope", 1, Scoped(a), b) \/ Do("scope", 0, Plain(a), b) \/ Do("scope", 2, a, b))
  \/ \E v \in Values : b # v /\ a' = a /\ b' = v /\ kind' = kind
=============================================================================
