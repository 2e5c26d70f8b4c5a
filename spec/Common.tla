------------------------------- MODULE Common -------------------------------
(* Things every trace specification uses.

   A trace file holds many independent traces; each begins with an event {"op":"reset"}.  A trace
   specification gives an operator Step(st, ev) returning a record [st |-> next state, fails |-> set of
   names of the clauses of the specification that the observed event contradicts].  An event with
   fails # {} is reported and the rest of its trace is skipped; the following traces are still judged.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(l, f) == PrintT("REJECT " \o ToString(l) \o " " \o ToString(f))

(* clause(name, holds): {} if it holds, otherwise the name *)
Clause(name, holds) == IF holds THEN {} ELSE {name}

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
