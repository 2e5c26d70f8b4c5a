------------------------------- MODULE MCFile -------------------------------
(* Every history of a few objects on two files: ownership in full, input and output with short texts *)
EXTENDS File, TLC

CONSTANTS Slots, MaxHandles, Modes, IO

VARIABLE s, closed
(* closed: how many times each handle has been closed *)
vars == <<s, closed>>

Disk0 == [n \in {"a", "b"} |-> IF n = "a" THEN <<1, 10, 2>> ELSE Absent]

Init == s = Start(Slots, Disk0) /\ closed = [h \in 1..MaxHandles |-> 0]

(* writers have a file to themselves: what two of them would make of it is up to the buffering *)
Alone(name, mode) == \A h \in Live(s) : s.handles[h].name = name => (mode = "r" /\ s.handles[h].mode = "r")

Step(n) == s' = n /\ closed' = [h \in 1..MaxHandles |-> closed[h] + (IF h \in Live(s) /\ h \notin Live(n) THEN 1 ELSE 0)]

Alive(k) == s.slots[k].alive

Ownership ==
  \/ \E k \in Slots, n \in {"a", "b", "x"}, m \in Modes :
       ~Alive(k) /\ Len(s.handles) < MaxHandles /\ Alone(n, m) /\ Step(Open(s, k, n, m))
  \/ \E a, b \in Slots : Alive(a) /\ ~Alive(b) /\ Step(MoveTo(s, a, b))
  \/ \E a, b \in Slots : Alive(a) /\ Alive(b) /\ Step(Assign(s, a, b))
  \/ \E k \in Slots : Alive(k) /\ (Step(Close(s, k)) \/ Step(Destroy(s, k)) \/ Step(Take(s, k)))
  \/ \E h \in s.taken : Step(CloseTaken(s, h))

Transfer ==
  IO /\ \E k \in Slots : IsOpen(s, k) /\
    \/ \E n \in {1, 5} : Step(Read(s, k, n).s)
    \/ Step(Gets(s, k, 3).s)
    \/ Len(Content(s, k)) < 5 /\ \E b \in {<<7>>, <<8, 9>>} : Step(Write(s, k, b).s)
    \/ \E w \in {0, 2}, o \in {-1, 0, 1} : Target(s, k, o, w) < 5 /\ Step(Seek(s, k, o, w).s)

Next == Ownership \/ Transfer
Spec == Init /\ [][Next]_vars

One == OneOwner(s)
Leak == NoLeak(s)
Path == SamePath(s)
DeadSlots == DeadOwnNothing(s)
ClosedOnce == \A h \in 1..MaxHandles : closed[h] = IF h <= Len(s.handles) /\ h \notin Live(s) THEN 1 ELSE 0
(* a moved-from or closed object is not open; only the file of a handle that is written to changes *)
OthersUntouched == [][\A n \in {"a", "b"} : s.disk[n] # s'.disk[n] => \E h \in Live(s') : s'.handles[h].name = n /\ Writable(s'.handles[h].mode)]_vars
Bounded == \A n \in {"a", "b"} : Len(s.disk[n]) <= 7
=============================================================================
