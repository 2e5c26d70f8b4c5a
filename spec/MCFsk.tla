------------------------------- MODULE MCFsk --------------------------------
(* Every history: set data (also part-way through), take samples *)
EXTENDS Fsk

CONSTANTS MaxData, MaxSamples

VARIABLES s, out, cut
(* out: <<sample, index in its bit, bit>> of every sample; cut: positions in out where new data was set part-way *)
vars == <<s, out, cut>>

Data == UNION { [1..n -> {0, 1}] : n \in 1..MaxData }

Init == s = Fresh /\ out = <<>> /\ cut = {}
Set == /\ Len(out) < MaxSamples
       /\ \E d \in Data : s' = SetData(s, d)
       /\ cut' = IF s.k # 0 THEN cut \union {Len(out)} ELSE cut
       /\ UNCHANGED out
Take == /\ HasMore(s)
        /\ Len(out) < MaxSamples
        /\ out' = Append(out, <<Sample(s), s.k, Bit(s)>>)
        /\ s' = Advance(s)
        /\ UNCHANGED cut
Next == Set \/ Take
Spec == Init /\ [][Next]_vars

Positive(x) == x > 0
(* the sign changes half-way exactly in a 1 *)
Decodable == \A i \in 1..Len(out) : out[i][2] = 2 => ((Positive(out[i][1]) # Positive(out[i - 1][1])) <=> out[i][3] = 1)
(* and not at the quarters *)
Steady == \A i \in 1..Len(out) : out[i][2] \in {1, 3} => Positive(out[i][1]) = Positive(out[i - 1][1])
(* the sign changes where one bit ends and another begins *)
Boundary == \A i \in 2..Len(out) : out[i][2] = 0 /\ (i - 1) \notin cut => Positive(out[i][1]) # Positive(out[i - 1][1])
(* magnitudes depend on the bit alone, and the total over a 1 is nothing *)
Magnitudes == \A i \in 1..Len(out) : out[i][1] \in {Magnitude(out[i][3], out[i][2]), -Magnitude(out[i][3], out[i][2])}
Balanced == \A i \in 4..Len(out) : out[i][2] = 3 /\ out[i][3] = 1 => out[i][1] + out[i - 1][1] + out[i - 2][1] + out[i - 3][1] = 0
=============================================================================
