------------------------------ MODULE GenSound ------------------------------
(* Every way of giving up to a few edit units' rows in up to three calls, for several lengths of edit unit; every set of
   labelled channels with every number of channels; every rate that a synchronisation track can have, with every way in
   which a last edit unit can be cut short by one or by half.  *)
EXTENDS Sound, Json, IOUtils, TLC, SequencesExt

Lengths == {1, 2, 3, 5}
Calls(n) == UNION {[1..k -> 1..(2 * n + 1)] : k \in 0..3}
Split == UNION {{[case |-> "split", length |-> n, calls |-> c] : c \in Calls(n)} : n \in Lengths}
Labelling == {[case |-> "labels", channels |-> n, extra |-> SetToSeq(e), mca |-> m, std |-> d] :
                n \in 1..16, e \in SUBSET Labelled, m \in {0, 1}, d \in {"smpte", "interop"}}
Refused == {[case |-> "refused", channels |-> n, extra |-> <<e>>, sync |-> y, std |-> d] :
                n \in {6, 13, 14, 16}, e \in {0, 1, 2, 3, 4, 5, 6, 12, 13, 14, 16}, y \in {0, 1}, d \in {"smpte", "interop"}}
Synchronised == {[case |-> "sync", rate |-> r, rows |-> rows] : r \in SyncRates, rows \in {<<5, 0, 1>>, <<4, 1, 1>>, <<4, 1, 2>>}}
Cases == Split \union Labelling \union Refused \union Synchronised
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
