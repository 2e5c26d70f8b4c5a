-------------------------- MODULE ScopeGuardTrace ---------------------------
(* Judges what dcp::ScopeGuard was seen to do: after each step, the list of all actions run so far *)
EXTENDS ScopeGuard, Common

After(s, ev) ==
  CASE ev.op = "make" -> Make(s, ev.act)
    [] ev.op = "move" -> Move(s, ev.i)
    [] ev.op = "cancel" -> Cancel(s, ev.i)
    [] ev.op = "enter" -> Enter(s)
    [] ev.op = "leave" -> Leave(s)
    [] ev.op = "end" -> Unwind(s)

JudgeGuard(s, ev) ==
  LET n == After(s, ev) IN [st |-> n, f |-> Clause(ev.op, ev.ran = n.ran)]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- Fresh, Judge <- JudgeGuard
=============================================================================
