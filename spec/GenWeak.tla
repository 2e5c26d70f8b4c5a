------------------------------- MODULE GenWeak -------------------------------
(* Every path of up to four components over the tree the check prepares, not leaving it by '..' *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Comps == {".", "..", "a", "b", "c", "d", "h", "k", "n", "q", "x"}
RECURSIVE Depth(_, _)
Depth(c, n) == IF n < 0 THEN -1 ELSE IF c = <<>> THEN n ELSE Depth(Tail(c), IF Head(c) = ".." THEN n - 1 ELSE IF Head(c) = "." THEN n ELSE n + 1)
RECURSIVE Text(_)
Text(c) == IF c = <<>> THEN "" ELSE "/" \o Head(c) \o Text(Tail(c))
Of(n) == { c \in [1..n -> Comps] : Depth(c, 0) >= 0 }
Group(a) == [paths |-> SetToSeq({ "@" \o Text(c) : c \in { c \in Of(1) \union Of(2) \union Of(3) \union Of(4) : Head(c) = a } })]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ Group(a) : a \in Comps }))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
