------------------------------- MODULE GenFsk -------------------------------
(* Every pair of blocks of up to four bits, the first taken whole or in part; every single block of up to 8 *)
EXTENDS Fsk, FiniteSets, TLC, Json, IOUtils, SequencesExt

VARIABLE x
Blocks(n) == UNION { [1..k -> {0, 1}] : k \in 1..n }
Singles == { [steps |-> << <<d, 4 * Len(d)>> >>] : d \in Blocks(8) }
Doubles == { [steps |-> << <<d, n>>, <<e, 4 * Len(e)>> >>] : d \in Blocks(3), e \in Blocks(3), n \in 1..12 }
Legal == { c \in Singles \union Doubles : \A i \in 1..Len(c.steps) : c.steps[i][2] <= 4 * Len(c.steps[i][1]) }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Legal))
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
