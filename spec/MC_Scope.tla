-------------------------------- MODULE MC_Scope --------------------------------
(* Two registers under every sequence of scope changes, copies and swaps.       *)
EXTENDS Scope
CONSTANTS Alphabet, MaxText
VARIABLES r, last
SmallAlphabet == {32, 49, 37, 97}
FullAlphabet == {0, 32, 48, 49, 57, 37, 97}
RECURSIVE TextsUpTo(_)
TextsUpTo(k) == IF k = 0 THEN {<<>>} ELSE LET p == TextsUpTo(k - 1) IN p \cup {Append(t, c) : t \in p, c \in Alphabet}
Texts == TextsUpTo(MaxText)
V6 == [b |-> OneW(16), s |-> <<>>]
V4 == [b |-> <<1, 2, 3, 4>>, s |-> <<>>]
Init == r = <<V6, V4>> /\ last = [op |-> "init", code |-> ErrNone, text |-> <<>>, before |-> <<V6, V4>>, at |-> 1]
Set(i, t) == /\ r' = [r EXCEPT ![i] = SetScope(r[i], t)]
             /\ last' = [op |-> "set", code |-> SetScopeCode(r[i], t), text |-> t, before |-> r, at |-> i]
Copy(i) == r' = [r EXCEPT ![i] = r[3 - i]] /\ last' = [op |-> "copy", code |-> ErrNone, text |-> <<>>, before |-> r, at |-> i]
Swap == r' = <<r[2], r[1]>> /\ last' = [op |-> "swap", code |-> ErrNone, text |-> <<>>, before |-> r, at |-> 1]
Next == \/ \E i \in 1..2 : (\E t \in Texts : Set(i, t)) \/ Copy(i)
        \/ Swap
View == <<r, last>>
ValidScope(t) == Len(t) <= ScopeMax /\ \A i \in 1..Len(t) : t[i] \notin {NUL, Percent, Slash} /\ (ScopeSpaces \/ t[i] \notin {32, 9, 10, 11, 12, 13})
AlwaysValid == \A i \in 1..2 : ValidScope(r[i].s) /\ (IsV4(r[i]) => r[i].s = <<>>)
Decided == last.op = "set" /\ ~IsV4(last.before[last.at]) /\ ScopeMax > 0 => ((last.code = ErrNone) <=> ValidScope(last.text))
Stored == last.op = "set" /\ ~IsV4(last.before[last.at]) /\ ScopeMax > 0 /\ last.code = ErrNone => r[last.at].s = last.text
FailureChangesNothing == last.code # ErrNone => r = last.before
BitsAreSafe == last.op = "set" => \A i \in 1..2 : r[i].b = last.before[i].b
(* the number of a scope id, by counting *)
RECURSIVE Number(_)
Number(t) == IF t = <<>> THEN 0 ELSE 10 * Number(SubSeq(t, 1, Len(t) - 1)) + (t[Len(t)] - 48)
Numeric == \A i \in 1..2 :
  LET v == ScopeView(r[i]) IN (v.has_num <=> (r[i].s # <<>> /\ \A k \in 1..Len(r[i].s) : IsDigit(r[i].s[k]))) /\ (v.has_num => ToNat(v.num) = Number(r[i].s))
(* what parsing accepts after '%' is what setting accepts, except the empty text *)
ParseAgrees == last.op = "set" /\ ScopeMax > 0 =>
  LET t == last.text IN IndexOf(t, Percent) = 0 =>
    (ParseV6(<<58, 58, 49, Percent>> \o t).code = ErrNone <=> (t # <<>> /\ SetScopeVerdict(t) = ErrNone))
=============================================================================
