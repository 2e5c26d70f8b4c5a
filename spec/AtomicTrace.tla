---------------------------- MODULE AtomicTrace -----------------------------
(* Judges writing and loading of data as observed from outside, at every operating-system call it makes.

   begin   how: "temp", "plain" or "load"; dest: what the destination is
   call    one call on our files, with the fault injected into it if any, and what the destination is after it
   result  ok and what is there at the end, or crash
   The destination is seen as "absent", "old", "new" or "other".  *)
EXTENDS Common

Abs == INSTANCE AtomicReplace WITH dest <- "old", answer <- "none"

Idle == [how |-> "none", first |-> "", dest |-> "", faults |-> {}]

(* A fault after which the operation may yet succeed *)
Mild == {"short", "close"}

JudgeAtomic(s, ev) ==
  CASE ev.op = "begin" -> [st |-> [how |-> ev.how, first |-> ev.dest, dest |-> ev.dest, faults |-> {}], f |-> {}]
    [] ev.op = "call" ->
         [st |-> [s EXCEPT !.dest = ev.dest, !.faults = IF ev.fault = "none" THEN @ ELSE @ \union {ev.fault}],
          f |-> IF s.how = "temp" THEN Clause("destination-old-or-new", Abs!MayBecome(s.dest, ev.dest)) ELSE {}]
    [] ev.op = "result" ->
         [st |-> Idle,
          f |-> (IF s.how = "temp" THEN Clause("destination-old-or-new", ev.dest \in {s.first, "new"} /\ Abs!MayBecome(s.dest, ev.dest)) ELSE {}) \union
                (IF s.how = "load" THEN Clause("loaded-all", ev.ok = 1 => ev.same = 1) ELSE Clause("ok-means-written", ev.ok = 1 => ev.dest = "new")) \union
                Clause("fails-without-reason", ev.ok = 0 => s.faults # {} \/ ev.expect = "fail") \union
                Clause("must-fail", ev.expect = "fail" => ev.ok = 0) \union
                Clause("short-write-is-not-a-failure", ev.ok = 0 => s.faults # {"short"})]
    [] ev.op = "crash" ->
         [st |-> Idle, f |-> IF s.how = "temp" THEN Clause("destination-old-or-new", ev.dest \in {s.first, "new"}) ELSE {}]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- Idle, Judge <- JudgeAtomic
=============================================================================
