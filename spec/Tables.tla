------------------------------- MODULE Tables -------------------------------
(* Tables made on demand and kept.  A key says what was asked for; Make(key) is the only table it can have.

   Several askers share one store under one lock: an asker takes the lock, looks the key up, makes the table if it
   is not there, keeps it, and is handed a reference to the kept table; it reads through the reference later,
   without the lock.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Askers, Keys, MaxAsks, Locked

VARIABLES
  store,      \* key -> table, or none
  holder,     \* who has the lock
  pc,         \* what each asker is doing
  want,       \* the key each asker wants
  handed,     \* set of [who, key]: references handed out
  asks        \* how many requests so far
vars == <<store, holder, pc, want, handed, asks>>

None == "none"
NoTable == <<>>
Make(k) == <<"table of", k>>
Half(k) == <<"half of", k>>      \* a table while it is written

Init == store = [k \in Keys |-> NoTable] /\ holder = None /\ pc = [a \in Askers |-> "idle"] /\ want = [a \in Askers |-> CHOOSE k \in Keys : TRUE] /\ handed = {} /\ asks = 0

Begin(a, k) == /\ pc[a] = "idle" /\ asks < MaxAsks
               /\ Locked => holder = None
               /\ holder' = IF Locked THEN a ELSE holder
               /\ pc' = [pc EXCEPT ![a] = "look"] /\ want' = [want EXCEPT ![a] = k] /\ asks' = asks + 1
               /\ UNCHANGED <<store, handed>>
Look(a) == /\ pc[a] = "look"
           /\ pc' = [pc EXCEPT ![a] = IF store[want[a]] = NoTable THEN "write" ELSE "hand"]
           /\ UNCHANGED <<store, holder, want, handed, asks>>
Write(a) == /\ pc[a] = "write" /\ store' = [store EXCEPT ![want[a]] = Half(want[a])] /\ pc' = [pc EXCEPT ![a] = "finish"] /\ UNCHANGED <<holder, want, handed, asks>>
Finish(a) == /\ pc[a] = "finish" /\ store' = [store EXCEPT ![want[a]] = Make(want[a])] /\ pc' = [pc EXCEPT ![a] = "hand"] /\ UNCHANGED <<holder, want, handed, asks>>
Hand(a) == /\ pc[a] = "hand" /\ handed' = handed \union {<<a, want[a]>>} /\ pc' = [pc EXCEPT ![a] = "idle"]
           /\ holder' = IF Locked THEN None ELSE holder
           /\ UNCHANGED <<store, want, asks>>
Next == \E a \in Askers : (\E k \in Keys : Begin(a, k)) \/ Look(a) \/ Write(a) \/ Finish(a) \/ Hand(a)
Spec == Init /\ [][Next]_vars /\ \A a \in Askers : WF_vars(Look(a) \/ Write(a) \/ Finish(a) \/ Hand(a))

(* every reference leads to the right, whole table, now and always *)
HandedIsRight == \A h \in handed : store[h[2]] = Make(h[2])
(* never twice into the critical part *)
OneInside == Locked => Cardinality({ a \in Askers : pc[a] # "idle" }) <= 1
Kept == [][\A k \in Keys : store[k] = Make(k) => store'[k] = Make(k)]_vars
Answered == \A a \in Askers : (pc[a] = "look") ~> (pc[a] = "idle")
=============================================================================
