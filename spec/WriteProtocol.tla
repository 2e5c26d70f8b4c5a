--------------------------- MODULE WriteProtocol ----------------------------
(* How data gets to disk: open the temporary file, hand the data to a buffered stream, flush and close it,
   rename.  Any call may fail, a write may be short, and the process may die between any two calls.

   A file is <<which, n>>: the first n of Size units of the old or the new data; "absent" is <<"none", 0>>. *)
EXTENDS Integers, Sequences

CONSTANTS Size, Buffer

VARIABLES temp, dst, pc, given, buffered, outcome, faults
vars == <<temp, dst, pc, given, buffered, outcome, faults>>

Full == <<"new", Size>>
Init == /\ temp \in {<<"none", 0>>, <<"old", Size>>}
        /\ dst \in {<<"none", 0>>, <<"old", Size>>}
        /\ pc = "open" /\ given = 0 /\ buffered = 0 /\ outcome = "none" /\ faults = {}

Running == outcome = "none"
Throw(what) == outcome' = "threw" /\ faults' = faults \union {what}

Open == /\ Running /\ pc = "open"
        /\ \/ temp' = <<"new", 0>> /\ pc' = "write" /\ UNCHANGED <<outcome, faults>>
           \/ Throw("open") /\ UNCHANGED <<temp, pc>>
        /\ UNCHANGED <<dst, given, buffered>>

(* the stream takes everything; whole buffers go to the system at once, the rest stays *)
Give == /\ Running /\ pc = "write" /\ given < Size
        /\ given' = given + 1 /\ buffered' = buffered + 1
        /\ UNCHANGED <<temp, dst, pc, outcome, faults>>
(* the system takes some or all of what is buffered, or fails *)
System == \E k \in 1..buffered : temp' = <<"new", temp[2] + k>> /\ buffered' = buffered - k
Drain == /\ Running /\ pc = "write" /\ buffered >= Buffer
         /\ \/ System /\ UNCHANGED <<outcome, faults>>
            \/ Throw("write") /\ UNCHANGED <<temp, buffered>>
         /\ UNCHANGED <<dst, pc, given>>
EndWrite == /\ Running /\ pc = "write" /\ given = Size /\ pc' = "close"
            /\ UNCHANGED <<temp, dst, given, buffered, outcome, faults>>
(* closing first writes what is still buffered *)
Flush == /\ Running /\ pc = "close" /\ buffered > 0
         /\ \/ System /\ UNCHANGED <<outcome, faults>>
            \/ Throw("flush") /\ UNCHANGED <<temp, buffered>>
         /\ UNCHANGED <<dst, pc, given>>
Close == /\ Running /\ pc = "close" /\ buffered = 0
         /\ pc' = "rename" /\ UNCHANGED <<temp, dst, given, buffered, outcome, faults>>
Rename == /\ Running /\ pc = "rename"
          /\ \/ dst' = temp /\ temp' = <<"none", 0>> /\ pc' = "done" /\ UNCHANGED <<outcome, faults>>
             \/ Throw("rename") /\ UNCHANGED <<temp, dst, pc>>
          /\ UNCHANGED <<given, buffered>>
Return == /\ Running /\ pc = "done" /\ outcome' = "ok" /\ UNCHANGED <<temp, dst, pc, given, buffered, faults>>
Crash == /\ Running /\ outcome' = "crash" /\ UNCHANGED <<temp, dst, pc, given, buffered, faults>>

Next == Open \/ Give \/ Drain \/ EndWrite \/ Flush \/ Close \/ Rename \/ Return \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Shows(f) == IF f = <<"none", 0>> THEN "absent" ELSE IF f = <<"old", Size>> THEN "old" ELSE IF f = Full THEN "new" ELSE "other"

(* What everybody else sees is an atomic replacement *)
Atomic == INSTANCE AtomicReplace WITH dest <- Shows(dst), answer <- outcome
Refines == Atomic!Spec
NeverPartial == Shows(dst) # "other"
OkMeansNew == outcome = "ok" => dst = Full /\ faults = {}
FaultsAreReported == faults # {} => outcome \in {"threw"}
Ends == <>(outcome # "none")
=============================================================================
