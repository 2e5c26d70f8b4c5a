---------------------------- MODULE MCFileSystem -----------------------------
(* Every history of operations on a few names: trees stay trees, failures change nothing, operations touch
   what they name and nothing else.  And for every tree reached, every short path: its canonical form. *)
EXTENDS FileSystem

CONSTANTS Names, MaxNodes
VARIABLE s

Short == { <<n>> : n \in Names } \union { <<n, m>> : n, m \in Names }
Paths == { [abs |-> TRUE, c |-> c] : c \in Short }
Targets == { [abs |-> FALSE, c |-> <<n>>] : n \in Names } \union { [abs |-> TRUE, c |-> <<n, n>>] : n \in Names } \union { [abs |-> FALSE, c |-> <<"..", n>>] : n \in Names }

(* every call there is in state x, with its paths and outcome *)
Calls(x) ==
  UNION { {[call |-> "mkdir", p |-> p, q |-> p, o |-> CreateDirectory(x, p)],
           [call |-> "mkdirs", p |-> p, q |-> p, o |-> CreateDirectories(x, p)],
           [call |-> "remove", p |-> p, q |-> p, o |-> Remove(x, p)],
           [call |-> "remove_all", p |-> p, q |-> p, o |-> RemoveAll(x, p)]} : p \in Paths } \union
  { [call |-> "put", p |-> p, q |-> p, o |-> Ok(WriteFile(x, p, <<1>>), 0)] : p \in { p \in Paths : NoFollow(x, p).e # 0 /\ NoFollow(x, p).dir # 0 } } \union
  UNION { {[call |-> "rename", p |-> pq[1], q |-> pq[2], o |-> Rename(x, pq[1], pq[2])],
           [call |-> "link", p |-> pq[1], q |-> pq[2], o |-> HardLink(x, pq[1], pq[2])],
           [call |-> "copy", p |-> pq[1], q |-> pq[2], o |-> CopyFile(x, pq[1], pq[2], FALSE)],
           [call |-> "over", p |-> pq[1], q |-> pq[2], o |-> CopyFile(x, pq[1], pq[2], TRUE)]} : pq \in Paths \X Paths } \union
  { [call |-> "symlink", p |-> tq[1], q |-> tq[2], o |-> SymLink(x, tq[1], tq[2])] : tq \in Targets \X Paths }

Init == s = Empty
Next == s' \in { c.o.fs : c \in { c \in Calls(s) : Len(c.o.fs.nodes) <= MaxNodes } }
Spec == Init /\ [][Next]_s

(* ---- what holds in every state *)
Dirs(fs) == { x \in Tree(fs) : IsDir(fs, x[2]) }
ItIsATree ==
  /\ \A x, y \in Dirs(s) : x[2] = y[2] => x = y
  /\ \A x \in Dirs(s) : x[2] # 1 /\ \A n \in DOMAIN s.nodes[x[2]].e : LET c == s.nodes[x[2]].e[n] IN IsDir(s, c) => s.nodes[c].up = x[2]
  /\ \A x \in Dirs(s) : PathOf(s, x[2]) = x[1]

(* ---- what holds of every call in every state *)
Of(fs) == { <<x[1], fs.nodes[x[2]].k, IF fs.nodes[x[2]].k = "f" THEN fs.nodes[x[2]].c ELSE <<>>>> : x \in Tree(fs) }
IsBelow(c, top) == Len(c) >= Len(top) /\ SubSeq(c, 1, Len(top)) = top
Failed(o) == 0 \notin o.e
(* where in the tree the path p leads, not followed at the end *)
Spot(p) == LET r == NoFollow(s, p) IN IF r.dir = 0 THEN <<>> ELSE Append(PathOf(s, r.dir), r.name)
EveryCall ==
  LET before == Of(s)
      tree == Tree(s)
  IN  \A c \in Calls(s) :
        LET after == Of(c.o.fs)
            then == Tree(c.o.fs)
        IN  /\ Failed(c.o) /\ c.call # "mkdirs" => after = before
            /\ c.call \in {"remove", "remove_all"} => after \subseteq before /\ \A x \in before \ after : IsBelow(x[1], Spot(c.p))
            /\ c.call = "remove_all" /\ ~Failed(c.o) => c.o.v = Cardinality(before \ after)
            /\ c.call \in {"mkdir", "link", "symlink", "copy", "over", "put", "mkdirs"} => tree \subseteq then
            /\ c.call \in {"mkdir", "link", "symlink", "copy", "mkdirs"} => before \subseteq after
            /\ c.call \in {"mkdir", "link", "symlink", "copy", "put"} => Cardinality(after \ before) <= 1
            /\ c.call = "rename" /\ ~Failed(c.o) => \A x \in tree : ~IsBelow(x[1], Spot(c.p)) /\ ~IsBelow(x[1], Spot(c.q)) => x \in then
            /\ c.call \in {"copy", "over"} /\ ~Failed(c.o) =>
                 LET a == Follow(c.o.fs, c.p)
                     b == Follow(c.o.fs, c.q)
                 IN  a.e = 0 /\ b.e = 0 /\ a.id # b.id /\ c.o.fs.nodes[a.id].c = c.o.fs.nodes[b.id].c /\ c.o.fs.nodes[a.id] = s.nodes[a.id]

(* ---- canonical form *)
Comps == Names \union {".", "..", "none"}
Long == { <<a, b>> : a, b \in Comps } \union { <<a, b, c>> : a, b, c \in Comps } \union { <<a, b, c, d>> : a, b, c, d \in Comps \ {"."} }
Canonicalised ==
  \A c \in Long :
    LET p == [abs |-> TRUE, c |-> c]
        w == [abs |-> TRUE, c |-> WeaklyCanonical(s, p)]
    IN  Location(s, p) # <<>> => /\ Location(s, w) = Location(s, p)
                                 /\ NormalForm(s, w.c)
                                 /\ WeaklyCanonical(s, w) = w.c
(* and it is the canonical path wherever no link is in the way *)
Plain == \A p \in Paths : (Canonical(s, p).e = {0} /\ \A x \in Tree(s) : s.nodes[x[2]].k # "l") => WeaklyCanonical(s, p) = Canonical(s, p).v
=============================================================================
