------------------------------- MODULE GenFile ------------------------------
(* Every history of Depth ownership operations on the objects, as scripts for the driver *)
EXTENDS MCFile, Json, IOUtils, SequencesExt
CONSTANT Depth
VARIABLE hist

GInit == Init /\ hist = <<>>
Op(t, n) == Step(n) /\ hist' = Append(hist, t)
GNext ==
  /\ Len(hist) < Depth
  /\ \/ \E k \in Slots, n \in {"a", "b", "x"}, m \in Modes :
          /\ ~Alive(k) /\ Len(s.handles) < MaxHandles /\ Alone(n, m) /\ (n = "x" => m = "w")
          /\ Op(<<"open", k, n, m>>, Open(s, k, n, m))
     \/ \E a, b \in Slots : Alive(a) /\ ~Alive(b) /\ Op(<<"move", a, b>>, MoveTo(s, a, b))
     \/ \E a, b \in Slots : Alive(a) /\ Alive(b) /\ Op(<<"assign", a, b>>, Assign(s, a, b))
     \/ \E k \in Slots : Alive(k) /\ (Op(<<"close", k>>, Close(s, k)) \/ Op(<<"destroy", k>>, Destroy(s, k)) \/ Op(<<"take", k>>, Take(s, k)))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Depth => TLCSet(42, Append(TLCGet(42), [ops |-> hist]))
ASSUME TLCSet(42, <<>>)
Done == ndJsonSerialize(IOEnv.OUT, TLCGet(42))
=============================================================================
