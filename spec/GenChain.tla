------------------------------ MODULE GenChain ------------------------------
(* Lists of certificates: 1, 2 and 3 are a chain, 4 a stranger, 5 a forgery that claims 2 vouches for it, 6 an impostor
   with the name of 1, 7 another certificate for the name and key of 1, and 8 is given out by 3, which may not do so.  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt

Without == {s \in UNION {[1..n -> 1..8] : n \in 0..4} : Cardinality({s[i] : i \in DOMAIN s}) = Len(s)}
Repeated == {s \in UNION {[1..n -> 1..3] : n \in 2..4} : Cardinality({s[i] : i \in DOMAIN s}) < Len(s)}
Cases == {[list |-> s, key |-> k, how |-> h] : s \in Without \union Repeated, k \in {"none", "leaf", "other"}, h \in {"add", "text"}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
