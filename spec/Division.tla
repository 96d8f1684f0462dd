------------------------------- MODULE Division -------------------------------
(***************************************************************************)
(* Long division of four-digit numbers in base Base (Knuth's algorithm D)  *)
(* as the 128-bit integer divides, with what happens on the way: how often *)
(* a guessed digit was corrected before and after the subtraction.         *)
(* Numbers are sequences of four digits, least significant first.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Base, Bits                                \* Base = 2^Bits
Digit == 0..(Base - 1)
Value(d) == d[1] + Base * (d[2] + Base * (d[3] + Base * d[4]))
Num(v) == <<v % Base, (v \div Base) % Base, (v \div (Base * Base)) % Base, (v \div (Base * Base * Base)) % Base>>
At(d, i) == IF i \in 1..4 THEN d[i] ELSE 0
RECURSIVE Size(_, _)
Size(d, n) == IF n = 0 \/ d[n] # 0 THEN n ELSE Size(d, n - 1)
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
Shift(hi) == CHOOSE s \in 0..Bits : hi * Pow(s) \in (Base \div 2)..(Base - 1)
(* a window of two digits and the next one, shifted left by s bits *)
Window(hi, mid, lo, s) == ((hi * Base * Base + mid * Base + lo) * Pow(s)) \div Base
RECURSIVE Guess(_, _, _, _, _)
(* lowers the guess while it is too big for the two leading digits of the divisor *)
Guess(q, val, vlo, dhi, dlo) == IF q * (dhi * Base + dlo) > val * Base + vlo THEN Guess(q - 1, val, vlo, dhi, dlo) ELSE q
RECURSIVE Steps(_, _, _, _, _)
(* st: the remaining left digits as a number, quotient so far, paths taken *)
Steps(i, n, left, right, st) ==
  IF i < n THEN st
  ELSE
    LET d == st.left
        dhi0 == At(right, n)  dlo0 == At(right, n - 1)  dnx == At(right, n - 2)
        s == Shift(dhi0)
        dhi == ((dhi0 * Base + dlo0) * Pow(s)) \div Base
        dlo == (((dlo0 * Base + dnx) * Pow(s)) \div Base) % Base
        top == IF i < Size(left, 4) THEN At(d, i + 1) ELSE 0
        a == At(d, i)  b == At(d, i - 1)  c == At(d, i - 2)
        vhi == (((top * Base + a) * Base + b) * Pow(s)) \div Base
        vlo == (((b * Base + c) * Pow(s)) \div Base) % Base
        g0 == LET x == vhi \div dhi IN IF x > Base - 1 THEN Base - 1 ELSE x
        g == Guess(g0, vhi, vlo, dhi, dlo)
        part == Value(d) \div Pow(Bits * (i - n))               \* what is left, from the digit of this step up
        whole == Value(right)
        q == IF part - g * whole < 0 THEN g - 1 ELSE g
        rest == Value(d) - q * whole * Pow(Bits * (i - n))
    IN Steps(i - 1, n, left, right,
             [left |-> Num(rest), q |-> [st.q EXCEPT ![i - n + 1] = q], guesses |-> st.guesses + (g0 - g), back |-> st.back + (g - q), ok |-> st.ok /\ rest >= 0 /\ q \in Digit])
Divide(a, b) ==
  LET n == Size(b, 4)  m == Size(a, 4)
  IN Steps(m, n, a, b, [left |-> a, q |-> <<0, 0, 0, 0>>, guesses |-> 0, back |-> 0, ok |-> TRUE])
=============================================================================
