---------------------------- MODULE MCScopeGuard ----------------------------
EXTENDS ScopeGuard, FiniteSets

CONSTANTS MaxGuards, MaxActions

VARIABLES s, made, cancelled, over
vars == <<s, made, cancelled, over>>

Init == s = Fresh /\ made = 0 /\ cancelled = {} /\ over = FALSE
Room == Len(s.guards) < MaxGuards
Holder(a) == { i \in 1..Len(s.guards) : s.guards[i].act = a }

New == ~over /\ Room /\ made < MaxActions /\ s' = Make(s, made + 1) /\ made' = made + 1 /\ UNCHANGED <<cancelled, over>>
Hand == ~over /\ Room /\ \E i \in 1..Len(s.guards) : s' = Move(s, i) /\ UNCHANGED <<made, cancelled, over>>
Stop == ~over /\ \E i \in 1..Len(s.guards) :
          /\ s' = Cancel(s, i)
          /\ cancelled' = IF s.guards[i].act = 0 THEN cancelled ELSE cancelled \union {s.guards[i].act}
          /\ UNCHANGED <<made, over>>
In == ~over /\ Len(s.scopes) < 2 /\ s' = Enter(s) /\ UNCHANGED <<made, cancelled, over>>
Out == ~over /\ s.scopes # <<>> /\ s' = Leave(s) /\ UNCHANGED <<made, cancelled, over>>
End == ~over /\ s' = Unwind(s) /\ over' = TRUE /\ UNCHANGED <<made, cancelled>>

Next == New \/ Hand \/ Stop \/ In \/ Out \/ End
Spec == Init /\ [][Next]_vars

Count(a) == Cardinality({ i \in 1..Len(s.ran) : s.ran[i] = a })
AtMostOnce == \A a \in 1..made : Count(a) <= 1
NeverIfCancelled == \A a \in cancelled : Count(a) = 0
OneHolder == \A a \in 1..made : Cardinality(Holder(a)) <= 1 /\ (Holder(a) # {} => Count(a) = 0)
RunAtEnd == over => \A a \in 1..made : Count(a) = IF a \in cancelled THEN 0 ELSE 1
=============================================================================
