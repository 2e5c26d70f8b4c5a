---------------------------- MODULE SettingsTrace ----------------------------
(* Judges comparisons: both ways round, of each with itself, and of the parts.  "in" and "out" are 2 if there was
   nothing to compare.  *)
EXTENDS Settings, Common

JudgeEqual(s, ev) ==
  LET want == AboutEqual(ev.x, ev.y, ev.eps)
      Part(k1, p1, k2, p2, got) == got = 2 \/ ((got = 1) <=> SameCurve(k1, p1, k2, p2, ev.eps))
      Point(k) == Dist(ev.x.chroma[k], ev.y.chroma[k]) < ev.eps /\ Dist(ev.x.chroma[k + 1], ev.y.chroma[k + 1]) < ev.eps
  IN  [st |-> s,
       f |-> Clause("compare", (ev.xy = 1) <=> want) \union Clause("symmetric", ev.xy = ev.yx) \union Clause("reflexive", ev.xx = 1 /\ ev.yy = 1) \union
             Clause("curve-in", Part(ev.x.in, ev.x.pin, ev.y.in, ev.y.pin, ev.in)) \union Clause("curve-out", Part(ev.x.out, ev.x.pout, ev.y.out, ev.y.pout, ev.out)) \union
             Clause("chromaticity", ((ev.white = 1) <=> Point(7)) /\ ((ev.red = 1) <=> Point(1)))]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- 0, Judge <- JudgeEqual
=============================================================================
