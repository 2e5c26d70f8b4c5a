---------------------------- MODULE GenBitstream ----------------------------
(* Every script of three steps over a small alphabet of operations, checksums started and written in any
   legal order, then finished off *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

VARIABLE x

Ops == { <<"bit", 0>>, <<"bit", 1>>, <<"byte", 165, 8>>, <<"byte", 165, 3>>, <<"byte", 92, 5>>, <<"byte", 255, 0>>, <<"byte", 129, 7>>,
         <<"word", 4660, 22136, 32>>, <<"word", 32769, 16384, 17>>, <<"word", 65535, 1, 1>>, <<"word", 0, 43981, 16>>, <<"word", 61440, 0, 32>> }
Sums == { <<"start", 4129>>, <<"start", 32773>>, <<"start", 1>>, <<"start", 65535>>, <<"crc">> }
Scripts == { <<a, b, c>> : a \in Ops \union Sums, b \in Ops \union Sums, c \in Ops \union Sums }

(* number of checksums running after a script: -1 if it is not a legal order *)
RECURSIVE Running(_)
Running(s) == IF s = <<>> THEN 0
              ELSE LET r == Running(SubSeq(s, 1, Len(s) - 1))
                       o == s[Len(s)][1]
                   IN  IF r = -1 THEN -1 ELSE IF o = "start" THEN (IF r = 0 THEN 1 ELSE -1) ELSE IF o = "crc" THEN (IF r = 1 THEN 0 ELSE -1) ELSE r
Legal == { s \in Scripts : Running(s) # -1 }
Finish(s) == IF Running(s) = 1 THEN s \o << <<"byte", 199, 8>>, <<"crc">> >> ELSE s \o << <<"start", 4129>>, <<"byte", 1, 1>>, <<"crc">> >>

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [ops |-> Finish(s)] : s \in Legal }))

Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
