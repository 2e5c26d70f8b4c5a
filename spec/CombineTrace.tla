---------------------------- MODULE CombineTrace ----------------------------
(* What was in the package that several were made into *)
EXTENDS Combine, Common

Kind(ev, k) == {i \in DOMAIN ev.listed : ev.listed[i].kind = k}
Once(ev, k, S) == {ev.listed[i].who : i \in Kind(ev, k)} = S /\ Cardinality(Kind(ev, k)) = Cardinality(S)
(* the order of the assets in a reel says nothing *)
Told(c) == <<c.key, [r \in DOMAIN c.reels |-> Elements(c.reels[r])]>>
Same(ev) == {Told(c) : c \in Compositions(ev)} = {Told(c) : c \in Elements(ev.found)}

Whole(ev) ==
  Clause("compositions", Once(ev, "cpl", {c.key : c \in Compositions(ev)}))
  \union Clause("references", Same(ev))
  \union Clause("assets", Once(ev, "part", Wanted(ev)))
  \union Clause("fonts", Cardinality(Kind(ev, "font")) = Fonts(ev))
  \union Clause("unknown", Kind(ev, "?") = {})
  \union Clause("exists", \A i \in DOMAIN ev.listed : ev.listed[i].exists = 1)
  \union Clause("distinct", \A i \in DOMAIN ev.listed : ev.listed[i].again = 0)
  \union Clause("content", \A i \in DOMAIN ev.listed : ev.listed[i].same = 1)
  \union Clause("packed", ev.unmapped = 0 /\ \A i \in DOMAIN ev.listed : ev.listed[i].pkl = 1)
  \union Clause("hash", \A i \in DOMAIN ev.listed : ev.listed[i].hash = 1 /\ ev.listed[i].size = 1)
  \union Clause("lists", ev.maps = 1 /\ ev.packing = 1)
  \union Clause("metadata", ev.said = 1)
  \union Clause("signatures", ev.signed = Signatures(ev))
  \union Clause("strays", ev.strays = <<>>)
  \union Clause("readable", ev.again = "" /\ ev.unresolved = 0)

(* left open: what becomes of compositions that refer to something that is in none of the packages *)
JudgeCombine(st, ev) ==
  [st |-> st,
   f |-> Clause("inputs", ev.untouched = 1) \union
         (IF Mixed(ev) THEN Clause("mixed", ev.thrown = "combine" /\ ev.listed = <<>> /\ ev.strays = <<>>)
          ELSE IF ~Complete(ev) THEN {}
          ELSE IF ev.thrown # "" THEN {"thrown"}
          ELSE Whole(ev))]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- 0, Judge <- JudgeCombine
=============================================================================
