--------------------------- MODULE GenNameFormat ----------------------------
(* Every template of up to five characters over an alphabet with placeholders, unsafe characters and plain
   ones, with several maps of values *)
EXTENDS NameFormat, FiniteSets, TLC, Json, IOUtils, SequencesExt

VARIABLE x
Alphabet == {37, 99, 47, 32}
Specs == UNION { [1..n -> Alphabet] : n \in 0..5 }
Maps == { <<>>, << <<99, <<37, 99>>>> >>, << <<99, <<47, 58, 32, 46, 63, 92>>>>, <<37, <<120>>>> >>, << <<99, <<>>>>, <<32, <<37>>>>, <<47, <<195, 169>>>> >> }
Ignores == { <<>>, <<99>>, <<37, 47>> }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [spec |-> s, values |-> v, ignore |-> i] : s \in Specs, v \in Maps, i \in Ignores }))
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
