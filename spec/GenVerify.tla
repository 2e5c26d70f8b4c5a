----------------------------- MODULE GenVerify -----------------------------
(* Every package that is as it should be but for one thing, and but for two that do not concern one another *)
EXTENDS Deviations, Json, IOUtils, TLC, SequencesExt

Wholes == {"rate30", "rate32", "twelve3d", "fourk25", "rate48", "rate25", "short", "allenc"}
Concerns == <<"pic", "enc", "kind", "ann", "pklann", "meta", "cver", "dup", "bad", "stale", "pichash", "sndhash", "det", "snd", "dur", "marks", "markx", "more", "sub", "cc">>
Place(c) == CHOOSE i \in DOMAIN Concerns : Concerns[i] = c
More(n, Q) == Anywhere(Q) \union (IF n = "plain" THEN InPlain(Q) ELSE InTexts(Q))
None == {[name |-> n, n |-> 0, pkg |-> Of(n)] : n \in {"plain", "texts"}}
One == UNION {{[name |-> n \o " " \o d[1], n |-> 1, pkg |-> d[4]] : d \in More(n, Of(n))} : n \in {"plain", "texts"}}
TwoOf(n) == UNION {{[name |-> n \o " " \o d[1] \o " " \o e[1], n |-> 2, pkg |-> e[4]] : e \in {e \in More(n, d[4]) : Place(e[2]) > Place(d[2]) /\ e[1] \notin Wholes}}
                   : d \in {d \in More(n, Of(n)) : d[1] \notin {"rate30", "rate32", "twelve3d", "fourk25", "rate48"}}}
Cases == SetToSeq(None) \o SetToSeq(One) \o SetToSeq(TwoOf("plain")) \o SetToSeq(TwoOf("texts"))
ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
