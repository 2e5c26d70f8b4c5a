--------------------------- MODULE GenScopeGuard ----------------------------
(* Every program of up to Depth steps, ended by returning or by an exception: recorded along the model's
   behaviours *)
EXTENDS MCScopeGuard, TLC, Json, IOUtils, SequencesExt
CONSTANT Depth
VARIABLE hist

GInit == Init /\ hist = <<>>
Tok(o, i) == hist' = Append(hist, <<o, i>>)
GNext ==
  /\ Len(hist) < Depth
  /\ \/ New /\ Tok("make", made + 1)
     \/ ~over /\ Room /\ \E i \in 1..Len(s.guards) : s' = Move(s, i) /\ UNCHANGED <<made, cancelled, over>> /\ Tok("move", i)
     \/ ~over /\ \E i \in 1..Len(s.guards) : s' = Cancel(s, i) /\ UNCHANGED <<made, cancelled, over>> /\ Tok("cancel", i)
     \/ In /\ Tok("enter", 0)
     \/ Out /\ Tok("leave", 0)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
(* written as they are found; -workers 1 *)
Emit == hist # <<>> => TLCSet(42, Append(TLCGet(42), [ops |-> hist]))
ASSUME TLCSet(42, <<>>)
Done == ndJsonSerialize(IOEnv.OUT, TLCGet(42))
=============================================================================
