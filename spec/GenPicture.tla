----------------------------- MODULE GenPicture -----------------------------
(* Writing n frames with up to two interruptions: each is [at, keep], the number of frames in the file when it comes and
   how many of them are passed over when writing is taken up (the first is always written again).  And the places at
   which storing something can fail.  *)
EXTENDS Picture, Json, IOUtils, TLC, SequencesExt

Kinds == {"mono", "stereo"}
Stops(n) == {[at |-> a, keep |-> k] : a \in 1..n, k \in 1..n}
Sound(s) == \A i \in DOMAIN s : s[i].keep <= s[i].at
Cases1 == {[case |-> "resume", kind |-> k, frames |-> n, stops |-> s, enc |-> e] :
             k \in Kinds, n \in 2..5, s \in UNION {[1..m -> Stops(5)] : m \in 0..2}, e \in {0, 1}}
Sensible(c) == Sound(c.stops) /\ \A i \in DOMAIN c.stops : c.stops[i].at <= c.frames /\ (i > 1 => c.stops[i].at >= c.stops[i - 1].keep)
Faults == {[case |-> "fault", kind |-> k, what |-> w, nth |-> n, enc |-> e] :
             k \in Kinds \union {"mpeg2", "atmos"}, w \in {"open", "frame", "finalize"}, n \in 1..3, e \in {0, 1}}
Cases == {c \in Cases1 : Sensible(c)} \union Faults
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
