-------------------------------- MODULE Streams --------------------------------
(***************************************************************************)
(* One character stream as a record of registers, and what manipulators,   *)
(* insertions and extractions do to it.                                    *)
(*   k      "c" or "w": the kind of its units                              *)
(*   in     units not read yet                                             *)
(*   fmt    the format selected for the next value, or None                *)
(*   strict whether the next network must have no host bits                *)
(*   up, skip, left, base, w, fill   the stream's own flags, width and fill *)
(*   eof, fail                 its state                                   *)
(* Every operation gives [s |-> the stream after it, out |-> units put].   *)
(***************************************************************************)
EXTENDS Encoded, U128
None == 9
Fresh(k) == [k |-> k, in |-> <<>>, fmt |-> None, strict |-> TRUE, up |-> FALSE, skip |-> TRUE, left |-> FALSE, base |-> 10, w |-> 0, fill |-> Space,
             eof |-> FALSE, fail |-> FALSE]
Good(s) == ~s.eof /\ ~s.fail
Unit(k, c) == IF k = "w" THEN <<0, c>> ELSE c
Units(k, t) == [i \in 1..Len(t) |-> Unit(k, t[i])]

(* what text is put: padded to the width, which is then used up *)
Put(s, text) ==
  IF ~Good(s) THEN [s |-> s, out |-> <<>>]
  ELSE LET pad == [i \in 1..(s.w - Len(text)) |-> s.fill]
       IN [s |-> [s EXCEPT !.w = 0], out |-> Units(s.k, IF s.left THEN text \o pad ELSE pad \o text)]

Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
(* upper-case, except for the scope id *)
UpperText(t) == LET p == IndexOf(t, Percent) IN [i \in 1..Len(t) |-> IF p = 0 \/ i < p THEN Upper(t[i]) ELSE t[i]]
Shape(s) == IF s.fmt = None THEN FmtCompressed ELSE s.fmt
Cased(s, t) == IF s.up THEN UpperText(t) ELSE t
(* a value takes the selected format with it *)
InsertAddr(s, a) == Put([s EXCEPT !.fmt = None], Cased(s, FormatAddr(a.b, a.s, Shape(s))))
InsertNet(s, n) == Put([s EXCEPT !.fmt = None], Cased(s, FormatNet(n, Shape(s))))

Blank(x) == x \in {9, 10, 11, 12, 13, 32} \cup {<<0, c>> : c \in {9, 10, 11, 12, 13, 32}}
IsBlank(k, x) == IF k = "w" THEN x[1] = 0 /\ x[2] \in {9, 10, 11, 12, 13, 32} ELSE x \in {9, 10, 11, 12, 13, 32}
First(n, P(_)) == IF \E i \in 1..n : P(i) THEN CHOOSE i \in 1..n : P(i) /\ \A j \in 1..(i - 1) : ~P(j) ELSE n + 1
(* one token, read as the standard library reads a string *)
Token(s) ==
  IF ~Good(s) THEN [s |-> [s EXCEPT !.fail = TRUE], t |-> <<>>]
  ELSE LET n == Len(s.in)
           from == IF s.skip THEN First(n, LAMBDA i : ~IsBlank(s.k, s.in[i])) ELSE 1
           rest == SubSeq(s.in, from, n)
           m == Len(rest)
           stop == First(m, LAMBDA i : IsBlank(s.k, rest[i])) - 1
           len == IF s.w > 0 /\ s.w < stop THEN s.w ELSE stop
           ended == stop = m /\ (s.w = 0 \/ stop < s.w)
       IN IF s.skip /\ m = 0 THEN [s |-> [s EXCEPT !.in = <<>>, !.eof = TRUE, !.fail = TRUE], t |-> <<>>]
          ELSE [s |-> [s EXCEPT !.in = SubSeq(rest, len + 1, m), !.w = 0, !.eof = ended, !.fail = len = 0], t |-> SubSeq(rest, 1, len)]
Result(tk, r) == [s |-> [tk.s EXCEPT !.fail = @ \/ r.code # ErrNone], r |-> r]
ExtractAddr(s, kind) ==
  LET tk == Token(s)
      r == CASE kind = "v4" -> EncV4(s.k, tk.t, FALSE) [] kind = "v6" -> EncV6(s.k, tk.t, FALSE) [] OTHER -> EncAny(s.k, tk.t, FALSE)
  IN Result(tk, r)
(* a network uses up the selected strictness *)
ExtractNet(s, kind) ==
  LET tk == Token([s EXCEPT !.strict = TRUE])
      r == CASE kind = "n4" -> EncNet(s.k, 4, tk.t, s.strict, FALSE) [] kind = "n6" -> EncNet(s.k, 16, tk.t, s.strict, FALSE)
             [] OTHER -> EncNetAny(s.k, tk.t, s.strict, FALSE)
  IN Result(tk, r)

(* a 128-bit integer is put in the stream's base and case; read in that base it is left alone when it is no number *)
InsertInt(s, v) == Put(s, Text(v, s.base, s.up))
Numbers(k, u) == LET d == Decoded(k, u) IN IF d.code = ErrNone THEN d.text ELSE Append(d.text, -1)
ExtractInt(s, old) ==
  LET tk == Token(s)
      r == Parse(Numbers(s.k, tk.t), s.base, 16)
  IN [s |-> [tk.s EXCEPT !.fail = @ \/ ~r.ok], v |-> IF r.ok THEN r.v ELSE old]

Manip(s, m) ==
  CASE m = "full" -> [s EXCEPT !.fmt = FmtFull]
    [] m = "compact" -> [s EXCEPT !.fmt = FmtCompact]
    [] m = "compressed" -> [s EXCEPT !.fmt = FmtCompressed]
    [] m = "strict" -> [s EXCEPT !.strict = TRUE]
    [] m = "non_strict" -> [s EXCEPT !.strict = FALSE]
    [] m = "uppercase" -> [s EXCEPT !.up = TRUE]
    [] m = "nouppercase" -> [s EXCEPT !.up = FALSE]
    [] m = "left" -> [s EXCEPT !.left = TRUE]
    [] m \in {"right", "internal"} -> [s EXCEPT !.left = FALSE]
    [] m = "skipws" -> [s EXCEPT !.skip = TRUE]
    [] m = "noskipws" -> [s EXCEPT !.skip = FALSE]
    [] m = "hex" -> [s EXCEPT !.base = 16]
    [] m = "dec" -> [s EXCEPT !.base = 10]
    [] m = "oct" -> [s EXCEPT !.base = 8]
    [] OTHER -> s                                   \* flags that concern other values
(* the standard library copies everything but the state and the characters; streams of one kind only *)
CopyFmt(s, from) == [from EXCEPT !.in = s.in, !.eof = s.eof, !.fail = s.fail]
=============================================================================
