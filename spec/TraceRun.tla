------------------------------ MODULE TraceRun ------------------------------
(* The machine that reads a log.  It is instantiated with an initial state S0 and an operator
   Judge(st, ev) giving [st |-> the state after the event, f |-> the clauses the event contradicts].  *)
EXTENDS Common

CONSTANTS S0, Judge(_, _)

VARIABLES l, dead, st

RunInit == l = 1 /\ dead = FALSE /\ st = S0

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l]
     IN  IF ev.op = "reset" THEN dead' = FALSE /\ st' = S0
         ELSE IF dead THEN UNCHANGED <<dead, st>>
         ELSE LET r == Judge(st, ev)
              IN  /\ IF r.f = {} THEN TRUE ELSE Report(l, r.f)
                  /\ dead' = (r.f # {})
                  /\ st' = IF r.f = {} THEN r.st ELSE st

RunSpec == RunInit /\ [][Consume]_<<l, dead, st>>
=============================================================================
