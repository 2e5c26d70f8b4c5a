----------------------------- MODULE TablesTrace -----------------------------
(* Judges every table handed out, by whom and whenever looked at: its size, that it has the same contents as every
   other table ever got for the same request, and for the probe - whose tables say what was asked - its contents.

   The state is a set of [key, hash].  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Common

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Abs(x) == IF x < 0 THEN -x ELSE x

KeyOf(ev) == [curve |-> ev.curve, integer |-> ev.integer, a |-> ev.a, b |-> ev.b, den |-> ev.den, bits |-> ev.bits, inverse |-> ev.inverse, scale |-> ev.scale]
(* what the probe's real table has, in eighths; den is a power of two up to 2048 *)
ProbeEntry(ev, k) == ev.a * (32768 \div ev.den) + ev.b * (2048 \div ev.den) + ev.bits * 32 + (IF ev.inverse = 1 THEN 16 ELSE 0) + k
ProbeRight(ev) ==
  /\ Len(ev.values) = Pow2(ev.bits)
  /\ \A k \in 1..Len(ev.values) :
       IF ev.integer = 1 THEN Abs(8 * ev.values[k] - ev.scale * ProbeEntry(ev, k - 1)) <= 4 ELSE ev.values[k] = ProbeEntry(ev, k - 1)

JudgeTables(s, ev) ==
  IF ev.op # "got" THEN [st |-> s, f |-> {}]
  ELSE LET k == KeyOf(ev)
           before == { x.hash : x \in { y \in s : y.key = k } }
       IN  [st |-> s \union {[key |-> k, hash |-> ev.hash]},
            f |-> Clause("size", ev.size = Pow2(ev.bits)) \union
                  Clause("same-request-same-table", before \subseteq {ev.hash}) \union
                  (IF ev.curve.kind = "probe" THEN Clause("table-is-of-the-request", ProbeRight(ev)) ELSE {})]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- {}, Judge <- JudgeTables
=============================================================================
