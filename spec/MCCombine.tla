----------------------------- MODULE MCCombine -----------------------------
(* Putting the files of packages together in one directory.

   Files are names for places on the disk, and what is in the output is for the most part another name for the place that an
   input has, so that to write to it is to write to the input. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ids, Texts, Names, Dirs
Places == ((Dirs \union {0}) \X Ids)
None == "none"
(* a name in the output: in which folder, the name, and the number put after it, or -1 *)
Folders == Ids \union {0}
Out == (Folders \X Names) \X (-1 .. 4)

VARIABLES in, out, data, done
vars == <<in, out, data, done>>
Init ==
  /\ in \in [Dirs -> [Ids -> Names \union {None}]]
  /\ out = <<>>
  /\ data = [p \in Places |-> IF p[1] = 0 THEN 0 ELSE p[2]]
  /\ done = <<>>

Added(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
(* the first name like this one that is not in use *)
Free(n) == LET k == CHOOSE k \in -1 .. 4 : <<n, k>> \notin DOMAIN out /\ \A j \in -1 .. (k - 1) : <<n, j>> \in DOMAIN out IN <<n, k>>
Known(i) == i \in DOMAIN done
Folder(i) == i

Link(d, i) ==
  LET n == Free(<<0, in[d][i]>>)
  IN  /\ i \notin Texts
      /\ out' = (IF n \in DOMAIN out THEN out ELSE Added(out, n, <<d, i>>))
      /\ done' = Added(done, i, n)
      /\ UNCHANGED <<in, data>>
(* texts are written again, since their fonts may now have other names *)
Write(d, i) ==
  LET n == Free(<<Folder(i), in[d][i]>>)
  IN  /\ i \in Texts
      /\ out' = (IF n \in DOMAIN out THEN out ELSE Added(out, n, <<0, i>>))
      /\ data' = [data EXCEPT ![out'[n]] = i]
      /\ done' = Added(done, i, n)
      /\ UNCHANGED in
Next == \E d \in Dirs, i \in Ids : in[d][i] # None /\ ~Known(i) /\ (Link(d, i) \/ Write(d, i))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Untouched == \A d \in Dirs, i \in Ids : data[<<d, i>>] = i
Kept == \A i \in DOMAIN done : data[out[done[i]]] = i
Distinct == \A i, j \in DOMAIN done : done[i] = done[j] => i = j
NothingElse == Cardinality(DOMAIN out) = Cardinality(DOMAIN done)
All == <>(\A i \in Ids : (\E d \in Dirs : in[d][i] # None) => i \in DOMAIN done)

(* what must not be *)
AsItIs(n) == <<n, -1>>
Never(i) == FALSE
Top(i) == 0
=============================================================================
