----------------------------- MODULE NameFormat -----------------------------
(* Making file names from templates.  Text is sequences of character codes; the values of placeholders are a
   sequence of pairs <<placeholder character, text>> with distinct characters. *)
EXTENDS Integers, Sequences

Percent == 37
Unsafe == {47, 58, 32}                       (* / : and space *)
UnsafeOnWindows == Unsafe \union {63, 46}    (* also ? and . *)
Safe(c, windows) ==
  IF c \in {47, 58} THEN 45 ELSE IF c = 32 THEN 95 ELSE IF windows /\ c \in {63, 46} THEN 95 ELSE c
SafeText(s, windows) == [i \in 1..Len(s) |-> Safe(s[i], windows)]

Has(values, key) == \E i \in 1..Len(values) : values[i][1] = key
Value(values, key) == values[CHOOSE i \in 1..Len(values) : values[i][1] = key][2]
Among(c, s) == \E i \in 1..Len(s) : s[i] = c

(* is there a placeholder to fill in at the start of spec? *)
Fillable(spec, values, ignore) ==
  Len(spec) >= 2 /\ spec[1] = Percent /\ Has(values, spec[2]) /\ ~Among(spec[2], ignore)

RECURSIVE Fill(_, _, _, _)
Fill(spec, values, ignore, windows) ==
  IF spec = <<>> THEN <<>>
  ELSE IF Fillable(spec, values, ignore)
       THEN SafeText(Value(values, spec[2]), windows) \o Fill(SubSeq(spec, 3, Len(spec)), values, ignore, windows)
       ELSE <<Safe(spec[1], windows)>> \o Fill(Tail(spec), values, ignore, windows)

Name(spec, values, suffix, ignore, windows) == Fill(spec, values, ignore, windows) \o suffix
=============================================================================
