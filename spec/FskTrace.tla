------------------------------ MODULE FskTrace ------------------------------
(* Judges what dcp::FSK was seen to do *)
EXTENDS Fsk, Common

(* the samples of n calls from s, and the state after them *)
RECURSIVE Run(_, _, _)
Run(s, n, acc) == IF n = 0 THEN <<s, acc>> ELSE Run(Advance(s), n - 1, Append(acc, Sample(s)))

Abs(x) == IF x < 0 THEN -x ELSE x
SameMagnitudes(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i]) = Abs(b[i])

JudgeFsk(s, ev) ==
  CASE ev.op = "set" -> [st |-> SetData(s, ev.data), f |-> {}]
    [] ev.op = "get" ->
         LET r == Run(s, ev.n, <<>>)
         IN  [st |-> r[1], f |-> Clause("magnitudes", SameMagnitudes(ev.out, r[2])) \union Clause("signs", ev.out = r[2])]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- Fresh, Judge <- JudgeFsk
=============================================================================
