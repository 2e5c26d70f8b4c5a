--------------------------- MODULE AtomicReplace ----------------------------
(* What replacing a file means to everybody else: one step, or none at all.

   dest    what the destination holds: "old" (or "absent") to begin with, then possibly "new"
   answer  "none" while it is going on, then "ok" or "threw"; "crash" if the process died  *)
VARIABLES dest, answer

Init == dest \in {"old", "absent"} /\ answer = "none"
Replace == answer = "none" /\ dest # "new" /\ dest' = "new" /\ UNCHANGED answer
Succeed == answer = "none" /\ dest = "new" /\ answer' = "ok" /\ UNCHANGED dest
Fail == answer = "none" /\ answer' \in {"threw", "crash"} /\ UNCHANGED dest
Next == Replace \/ Succeed \/ Fail
Spec == Init /\ [][Next]_<<dest, answer>>

(* The same as a test of two successive observations *)
Observable == {"old", "absent", "new"}
MayBecome(before, after) == after = before \/ (after = "new" /\ before \in Observable)
=============================================================================
