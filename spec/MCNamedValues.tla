--------------------------- MODULE MCNamedValues ----------------------------
(* Every value is named, looked up in every mixture of letter cases, and found again *)
EXTENDS NamedValues

VARIABLES table, which, spelled
vars == <<table, which, spelled>>

NameTable == TLCEval([t \in {"kind", "h", "v"} |-> CASE t = "kind" -> [k \in DOMAIN Kinds |-> Kinds[k][1]] [] t = "h" -> HNames [] t = "v" -> VNames])
Names(t) == NameTable[t]

Init == table \in {"kind", "h", "v"} /\ which \in DOMAIN Names(table) /\ spelled = Names(table)[which]
(* respell one letter *)
Next == \E k \in DOMAIN spelled : spelled' = [spelled EXCEPT ![k] = Upper(@)] /\ UNCHANGED <<table, which>>
Spec == Init /\ [][Next]_vars

FoundAgain == Find(Names(table), spelled) = {which}
Distinct == \A a, b \in DOMAIN Names(table) : a # b => Names(table)[a] # Names(table)[b]
OneKind == table = "kind" => FindKind(spelled) = {Kinds[which]}
OneMeasure == \A s \in 1..4 : Baseline(s) # BoundingBox(s)
=============================================================================
