--------------------------- MODULE GenNamedValues ---------------------------
(* Names to look up: every name, all its single-letter respellings, damage by one character, other tables' names *)
EXTENDS MCNamedValues, Json, IOUtils, SequencesExt

All == { Names(t)[k] : t \in {"kind"}, k \in DOMAIN Kinds } \union { HNames[k] : k \in 1..3 } \union { VNames[k] : k \in 1..3 }
Caps(s) == { [s EXCEPT ![k] = Upper(@)] : k \in DOMAIN s } \union { UpperText(s) }
Damage(s) == { SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)) : k \in DOMAIN s } \union
             { [s EXCEPT ![k] = 120] : k \in DOMAIN s } \union { s \o <<c>> : c \in {32, 115, 9} } \union { <<32>> \o s } \union { s \o s }
Lookups == UNION { {s} \union Caps(s) \union Damage(s) : s \in All } \union { <<>>, <<195, 169>>, Codes("public service announcement"), Codes("centre"), Codes("middle") }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [s |-> s] : s \in Lookups }))
GInit == table = "h" /\ which = 1 /\ spelled = HNames[1]
GNext == FALSE /\ UNCHANGED vars
=============================================================================
