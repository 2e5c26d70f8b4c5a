------------------------------ MODULE MCPicture ------------------------------
(* Writing that is interrupted and taken up again.  The disk is a sequence of cells; frame i takes Sizes[i] of them.  A
   crash may come between any two cells.  Whoever writes keeps a list of where frames are, to which a frame is added when
   it has been written completely (with Hasty, when it has been begun).  To take up, the first frame is written again, up
   to all those on the list are passed over, and the rest is written.  *)
EXTENDS Picture, TLC

CONSTANTS Sizes, MaxCrashes, Hasty

VARIABLES disk, list, writer, doing, done, crashes

vars == <<disk, list, writer, doing, done, crashes>>

N == Len(Sizes)
RECURSIVE Sum(_)
Sum(n) == IF n = 0 THEN 0 ELSE Sizes[n] + Sum(n - 1)
Max == Sum(N)
None == [pos |-> -1, index |-> <<>>]

Init == /\ disk = [i \in 1..Max |-> 0] /\ list = <<>> /\ writer = None /\ doing = <<>> /\ done = FALSE /\ crashes = 0

Open == writer.pos = -1 /\ ~done /\ writer' = [pos |-> 0, index |-> <<>>] /\ UNCHANGED <<disk, list, doing, done, crashes>>

Next1 == Len(writer.index) + 1
Put(s, i, v) == IF i <= Len(s) THEN [s EXCEPT ![i] = v] ELSE Append(s, v)

Begin ==
  /\ writer.pos >= 0 /\ doing = <<>> /\ Next1 <= N
  /\ doing' = <<Next1, 0>>
  /\ list' = IF Hasty THEN Put(list, Next1, [off |-> writer.pos, size |-> Sizes[Next1]]) ELSE list
  /\ UNCHANGED <<disk, writer, done, crashes>>
Cell ==
  /\ doing # <<>> /\ doing[2] < Sizes[doing[1]]
  /\ disk' = [disk EXCEPT ![writer.pos + doing[2] + 1] = doing[1]]
  /\ doing' = <<doing[1], doing[2] + 1>>
  /\ UNCHANGED <<list, writer, done, crashes>>
End ==
  /\ doing # <<>> /\ doing[2] = Sizes[doing[1]]
  /\ list' = Put(list, doing[1], [off |-> writer.pos, size |-> Sizes[doing[1]]])
  /\ writer' = [pos |-> writer.pos + Sizes[doing[1]], index |-> Append(writer.index, writer.pos)]
  /\ doing' = <<>>
  /\ UNCHANGED <<disk, done, crashes>>
Skip ==
  /\ writer.pos >= 0 /\ doing = <<>> /\ Len(writer.index) > 0 /\ Next1 <= Len(list)
  /\ writer' = [pos |-> writer.pos + list[Next1].size, index |-> Append(writer.index, writer.pos)]
  /\ UNCHANGED <<disk, list, doing, done, crashes>>
Crash ==
  /\ writer.pos >= 0 /\ crashes < MaxCrashes
  /\ crashes' = crashes + 1 /\ writer' = None /\ doing' = <<>>
  /\ UNCHANGED <<disk, list, done>>
Finish ==
  /\ writer.pos >= 0 /\ doing = <<>> /\ Len(writer.index) = N
  /\ done' = TRUE
  /\ UNCHANGED <<disk, list, writer, doing, crashes>>

Next == ~done /\ (Open \/ Begin \/ Cell \/ End \/ Skip \/ Crash \/ Finish)

Spec == Init /\ [][Next]_vars

(* what is said to be in the file is there *)
Listed == \A i \in DOMAIN list : list[i].off = Sum(i - 1) /\ list[i].size = Sizes[i]
Contiguous == \A i \in 1..(Len(list) - 1) : list[i + 1].off = After(list[i])
Right == done => \A i \in 1..N : \A c \in 1..Sizes[i] : disk[writer.index[i] + c] = i
SizesMC == <<2, 1, 3, 1, 2>>
=============================================================================
