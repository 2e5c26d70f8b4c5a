-------------------------- MODULE CodestreamTrace --------------------------
(* What was said about codestreams *)
EXTENDS Codestream, Common

Notes(ev) == {[c |-> ev.notes[i].c, v |-> ev.notes[i].v, f |-> ev.notes[i].f, z |-> <<ev.notes[i].hi, ev.notes[i].lo>>] : i \in DOMAIN ev.notes}
Fits(found, wanted) == found.c = wanted.c /\ (wanted.v = Any \/ found.v = wanted.v) /\ (wanted.f = Any \/ found.f = wanted.f) /\ found.z = wanted.z
JudgeCodestream(st, ev) ==
  LET V == Verdict(ev.b, ev.start, ev.frame, ev.rate)
      found == Notes(ev)
  IN  [st |-> st,
       f |-> IF ev.thrown # "" THEN {"thrown"}
             ELSE (IF V.open THEN {}
                   ELSE {"missing " \o w.c : w \in {w \in V.must : \A x \in found : ~Fits(x, w)}}
                        \union {"unwarranted " \o x.c : x \in {x \in found : \A w \in V.may : ~Fits(x, w)}}
                        \union Clause("once", Cardinality({i \in DOMAIN ev.notes : ev.notes[i].c = "INVALID_JPEG2000_CODESTREAM"}) <= 1))
                  \union Clause("own", ev.op = "made" => ev.notes = <<>>)]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- 0, Judge <- JudgeCodestream
=============================================================================
