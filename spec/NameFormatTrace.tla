-------------------------- MODULE NameFormatTrace ---------------------------
(* Judges what dcp::NameFormat was seen to do.  The state is the template's specification. *)
EXTENDS NameFormat, Common

JudgeName(s, ev) ==
  CASE ev.op = "make" -> [st |-> ev.spec, f |-> Clause("specification", ev.shows = ev.spec)]
    [] ev.op = "set" -> [st |-> ev.spec, f |-> Clause("specification", ev.shows = ev.spec)]
    [] ev.op = "get" ->
         [st |-> s, f |-> Clause("name", ev.name = Name(s, ev.values, ev.suffix, ev.ignore, ev.windows = 1)) \union
                          Clause("unsafe-character", \A i \in 1..(Len(ev.name) - Len(ev.suffix)) : ev.name[i] \notin Unsafe) \union
                          Clause("template-unchanged", ev.shows = s)]
    [] ev.op = "eq" -> [st |-> s, f |-> Clause("equality", (ev.r = 1) <=> (ev.a = ev.b))]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- <<>>, Judge <- JudgeName
=============================================================================
