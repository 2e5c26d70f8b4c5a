----------------------------- MODULE FileSystem -----------------------------
(* A file system: a tree of directories, files and symbolic links, with hard links, a current directory and
   the rules by which paths are followed.

   nodes   id -> [k |-> "d", e |-> name -> id, up |-> id]            directory
                 [k |-> "f", c |-> contents, t |-> time or -1]       file; t is -1 when not known
                 [k |-> "l", abs |-> BOOLEAN, to |-> names]          symbolic link
   cwd     id of the current directory; the root is node 1

   A path is [abs, c]: absolute or not, and its components, which may be "." and "..".
   Every operation gives [fs, e, v]: the state after it, the set of error numbers it may report ({0} for
   success) and the value it returns.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ENOENT == 2
EEXIST == 17
ENOTDIR == 20
EISDIR == 21
EINVAL == 22
ENOTEMPTY == 39
ELOOP == 40
EPERM == 1

NoEntries == [n \in {} |-> 0]
Dir(up) == [k |-> "d", e |-> NoEntries, up |-> up]
Empty == [nodes |-> << Dir(1) >>, cwd |-> 1]

IsDir(fs, id) == fs.nodes[id].k = "d"
Has(fs, id, n) == n \in DOMAIN fs.nodes[id].e
Child(fs, id, n) == fs.nodes[id].e[n]

(* ---- following a path.  Gives [e, id, dir, name]: e = 0 and the node found, or an error; for ENOENT with
   dir # 0 only the last component is missing and could be made as `name' in `dir'.  *)
Found(id, dir, name) == [e |-> 0, id |-> id, dir |-> dir, name |-> name]
Missing(dir, name) == [e |-> ENOENT, id |-> 0, dir |-> dir, name |-> name]
Error(n) == [e |-> n, id |-> 0, dir |-> 0, name |-> ""]

RECURSIVE Walk(_, _, _, _, _)
Walk(fs, at, c, follow, fuel) ==
  IF c = <<>> THEN Found(at, 0, ".")
  ELSE IF ~IsDir(fs, at) THEN Error(ENOTDIR)
  ELSE LET n == Head(c)
           rest == Tail(c)
       IN  IF n = "." THEN Walk(fs, at, rest, follow, fuel)
           ELSE IF n = ".." THEN Walk(fs, fs.nodes[at].up, rest, follow, fuel)
           ELSE IF ~Has(fs, at, n) THEN (IF rest = <<>> THEN Missing(at, n) ELSE Error(ENOENT))
           ELSE LET id == Child(fs, at, n)
                    x == fs.nodes[id]
                IN  IF x.k = "l" /\ (rest # <<>> \/ follow)
                    THEN IF fuel = 0 THEN Error(ELOOP) ELSE Walk(fs, IF x.abs THEN 1 ELSE at, x.to \o rest, follow, fuel - 1)
                    ELSE IF rest = <<>> THEN Found(id, at, n)
                    ELSE Walk(fs, id, rest, follow, fuel)

Start(fs, p) == IF p.abs THEN 1 ELSE fs.cwd
Fuel == 40
Follow(fs, p) == Walk(fs, Start(fs, p), p.c, TRUE, Fuel)
NoFollow(fs, p) == Walk(fs, Start(fs, p), p.c, FALSE, Fuel)

(* ---- the whole tree: pairs <<names from the root, id>> *)
RECURSIVE Below(_, _, _)
Below(fs, id, prefix) ==
  UNION { LET c == Child(fs, id, n)
              p == Append(prefix, n)
          IN  {<<p, c>>} \union (IF IsDir(fs, c) THEN Below(fs, c, p) ELSE {}) : n \in DOMAIN fs.nodes[id].e }
Tree(fs) == Below(fs, 1, <<>>)
Links(fs, id) == Cardinality({ x \in Tree(fs) : x[2] = id })
(* names from the root of a directory *)
RECURSIVE PathOf(_, _)
PathOf(fs, id) == IF id = 1 THEN <<>>
                  ELSE LET up == fs.nodes[id].up
                       IN  Append(PathOf(fs, up), CHOOSE n \in DOMAIN fs.nodes[up].e : fs.nodes[up].e[n] = id)
RECURSIVE Within(_, _, _)
Within(fs, id, above) == id = above \/ (id # 1 /\ Within(fs, fs.nodes[id].up, above))

(* ---- changes *)
AddEntry(fs, dir, n, id) == [fs EXCEPT !.nodes[dir].e = (n :> id) @@ @]
DropEntry(fs, dir, n) == [fs EXCEPT !.nodes[dir].e = [m \in DOMAIN @ \ {n} |-> @[m]]]
NewNode(fs, node, dir, n) ==
  LET id == Len(fs.nodes) + 1
  IN  AddEntry([fs EXCEPT !.nodes = Append(@, node)], dir, n, id)

Ok(fs, v) == [fs |-> fs, e |-> {0}, v |-> v]
Bad(fs, n) == [fs |-> fs, e |-> {n}, v |-> 0]
BadAny(fs) == [fs |-> fs, e |-> {-1}, v |-> 0]        (* some error, which one is not said *)

NotThere(e) == e \in {ENOENT, ENOTDIR}

Bool(b) == IF b THEN 1 ELSE 0

Exists(fs, p) == LET r == Follow(fs, p) IN IF r.e = 0 THEN Ok(fs, 1) ELSE IF NotThere(r.e) THEN [Ok(fs, 0) EXCEPT !.e = {0, r.e}] ELSE Bad(fs, r.e)
IsKind(fs, p, kind) == LET r == Follow(fs, p) IN IF r.e = 0 THEN Ok(fs, Bool(fs.nodes[r.id].k = kind)) ELSE IF NotThere(r.e) THEN Ok(fs, 0) ELSE Bad(fs, r.e)
IsEmpty(fs, p) ==
  LET r == Follow(fs, p)
  IN  IF r.e # 0 THEN Bad(fs, r.e)
      ELSE Ok(fs, Bool(IF IsDir(fs, r.id) THEN DOMAIN fs.nodes[r.id].e = {} ELSE fs.nodes[r.id].c = <<>>))
FileSize(fs, p) == LET r == Follow(fs, p) IN IF r.e # 0 THEN Bad(fs, r.e) ELSE IF IsDir(fs, r.id) THEN BadAny(fs) ELSE Ok(fs, Len(fs.nodes[r.id].c))
(* -1: any value will do *)
HardLinks(fs, p) == LET r == Follow(fs, p) IN IF r.e # 0 THEN Bad(fs, r.e) ELSE IF IsDir(fs, r.id) THEN Ok(fs, -1) ELSE Ok(fs, Links(fs, r.id))
WriteTime(fs, p) == LET r == Follow(fs, p) IN IF r.e # 0 THEN Bad(fs, r.e) ELSE IF IsDir(fs, r.id) THEN Ok(fs, -1) ELSE Ok(fs, fs.nodes[r.id].t)
Space(fs, p) == LET r == Follow(fs, p) IN IF r.e # 0 THEN Bad(fs, r.e) ELSE Ok(fs, 1)

MakeDir(fs, r) == NewNode(fs, Dir(r.dir), r.dir, r.name)
CreateDirectory(fs, p) ==
  LET r == NoFollow(fs, p)
  IN  IF r.e = ENOENT /\ r.dir # 0 THEN Ok(MakeDir(fs, r), 1)
      ELSE LET q == Follow(fs, p)
           IN  IF q.e = 0 /\ IsDir(fs, q.id) THEN Ok(fs, 0)
               ELSE Bad(fs, IF r.e = 0 THEN EEXIST ELSE r.e)

Prefix(p, n) == [p EXCEPT !.c = SubSeq(@, 1, n)]
RECURSIVE CreateFrom(_, _, _, _)
CreateFrom(fs, p, n, made) ==
  IF n > Len(p.c) THEN Ok(fs, made)
  ELSE IF p.c[n] \in {".", ".."} THEN CreateFrom(fs, p, n + 1, made)
  ELSE LET r == CreateDirectory(fs, Prefix(p, n))
       IN  IF r.e # {0} THEN [r EXCEPT !.e = {-1}] ELSE CreateFrom(r.fs, p, n + 1, r.v)
CreateDirectories(fs, p) == CreateFrom(fs, p, 1, 0)

(* what becomes unreachable stays in nodes; nothing refers to it *)
Remove(fs, p) ==
  LET r == NoFollow(fs, p)
  IN  IF NotThere(r.e) THEN Ok(fs, 0)
      ELSE IF r.e # 0 THEN Bad(fs, r.e)
      ELSE IF IsDir(fs, r.id) /\ DOMAIN fs.nodes[r.id].e # {} THEN Bad(fs, ENOTEMPTY)
      ELSE Ok(DropEntry(fs, r.dir, r.name), 1)
RemoveAll(fs, p) ==
  LET r == NoFollow(fs, p)
  IN  IF NotThere(r.e) THEN Ok(fs, 0)
      ELSE IF r.e # 0 THEN Bad(fs, r.e)
      ELSE Ok(DropEntry(fs, r.dir, r.name), 1 + (IF IsDir(fs, r.id) THEN Cardinality(Below(fs, r.id, <<>>)) ELSE 0))

Rename(fs, p, q) ==
  LET r == NoFollow(fs, p)
      t == NoFollow(fs, q)
      errs == ({r.e} \union (IF t.e = ENOENT /\ t.dir # 0 THEN {} ELSE {t.e})) \ {0}
      target == IF t.e = 0 THEN t.id ELSE 0
  IN  IF errs # {} THEN [fs |-> fs, e |-> errs, v |-> 0]
      ELSE IF target = r.id THEN Ok(fs, 0)
      ELSE IF IsDir(fs, r.id) /\ Within(fs, t.dir, r.id) THEN Bad(fs, EINVAL)
      ELSE IF target # 0 /\ Within(fs, r.dir, target) THEN Bad(fs, ENOTEMPTY)
      ELSE IF target # 0 /\ IsDir(fs, r.id) /\ ~IsDir(fs, target) THEN Bad(fs, ENOTDIR)
      ELSE IF target # 0 /\ ~IsDir(fs, r.id) /\ IsDir(fs, target) THEN Bad(fs, EISDIR)
      ELSE IF target # 0 /\ IsDir(fs, target) /\ DOMAIN fs.nodes[target].e # {} THEN Bad(fs, ENOTEMPTY)
      ELSE LET m == AddEntry(DropEntry(fs, r.dir, r.name), t.dir, t.name, r.id)
           IN  Ok(IF IsDir(fs, r.id) THEN [m EXCEPT !.nodes[r.id].up = t.dir] ELSE m, 0)

HardLink(fs, p, q) ==
  LET r == NoFollow(fs, p)
      t == NoFollow(fs, q)
      errs == ({r.e} \union (IF t.e = ENOENT /\ t.dir # 0 THEN {} ELSE IF t.e = 0 THEN {EEXIST} ELSE {t.e})
               \union (IF r.e = 0 /\ IsDir(fs, r.id) THEN {EPERM} ELSE {})) \ {0}
  IN  IF errs # {} THEN [fs |-> fs, e |-> errs, v |-> 0]
      ELSE Ok(AddEntry(fs, t.dir, t.name, r.id), 0)

SymLink(fs, p, q) ==
  LET t == NoFollow(fs, q)
  IN  IF t.e = 0 THEN Bad(fs, EEXIST)
      ELSE IF t.dir = 0 THEN Bad(fs, t.e)
      ELSE Ok(NewNode(fs, [k |-> "l", abs |-> p.abs, to |-> p.c], t.dir, t.name), 0)

NewFile(c) == [k |-> "f", c |-> c, t |-> -1]
(* contents of the file at r = Follow(q) become c: it is made if missing *)
Put(fs, r, c) == IF r.e = 0 THEN [fs EXCEPT !.nodes[r.id] = NewFile(c)] ELSE NewNode(fs, NewFile(c), r.dir, r.name)

CopyFile(fs, p, q, over) ==
  LET r == Follow(fs, p)
      t == IF over THEN Follow(fs, q) ELSE NoFollow(fs, q)
      can == t.e = ENOENT /\ t.dir # 0
  IN  IF r.e # 0 THEN [fs |-> fs, e |-> {r.e}, v |-> 0]
      ELSE IF IsDir(fs, r.id) THEN BadAny(fs)
      ELSE IF ~over /\ t.e = 0 THEN Bad(fs, EEXIST)
      ELSE IF t.e # 0 /\ ~can THEN Bad(fs, t.e)
      ELSE IF t.e = 0 /\ IsDir(fs, t.id) THEN BadAny(fs)
      ELSE IF t.e = 0 /\ t.id = r.id THEN BadAny(fs)      (* onto itself *)
      ELSE Ok(Put(fs, t, fs.nodes[r.id].c), 0)

ChangeDir(fs, p) ==
  LET r == Follow(fs, p)
  IN  IF r.e # 0 THEN Bad(fs, r.e) ELSE IF ~IsDir(fs, r.id) THEN Bad(fs, ENOTDIR) ELSE Ok([fs EXCEPT !.cwd = r.id], 0)

(* driver's own preparation: write a file, set a file's time *)
WriteFile(fs, p, c) == LET r == Follow(fs, p) IN IF r.e = 0 \/ r.dir # 0 THEN Put(fs, r, c) ELSE fs
Touch(fs, p, t) == LET r == Follow(fs, p) IN [fs EXCEPT !.nodes[r.id].t = t]

(* ---- values that are paths *)
Canonical(fs, p) == LET r == Follow(fs, p)
                    IN  IF r.e # 0 THEN [fs |-> fs, e |-> {-1}, v |-> 0]
                        ELSE Ok(fs, IF IsDir(fs, r.id) THEN PathOf(fs, r.id) ELSE Append(PathOf(fs, r.dir), r.name))
Absolute(fs, p) == IF p.abs THEN p.c ELSE PathOf(fs, fs.cwd) \o p.c

(* ---- iteration: paths (relative to the one given) of the entries visited *)
Listed(fs, p) == LET r == Follow(fs, p)
                 IN  IF r.e # 0 THEN Bad(fs, r.e) ELSE IF ~IsDir(fs, r.id) THEN Bad(fs, ENOTDIR) ELSE Ok(fs, { <<n>> : n \in DOMAIN fs.nodes[r.id].e })
ListedAll(fs, p) == LET r == Follow(fs, p)
                    IN  IF r.e # 0 THEN Bad(fs, r.e) ELSE IF ~IsDir(fs, r.id) THEN Bad(fs, ENOTDIR) ELSE Ok(fs, { x[1] : x \in Below(fs, r.id, <<>>) })

(* ---- where a path leads that need not exist: <<node of what exists, names of what does not>>; what does
   not exist is taken to be directories yet to be made; links that lead nowhere or into a file give <<>> *)
RECURSIVE Denote(_, _, _, _)
Denote(fs, at, c, fuel) ==
  IF c = <<>> THEN <<at, <<>>>>
  ELSE LET n == Head(c)
           rest == Tail(c)
       IN  IF n = "." THEN Denote(fs, at, rest, fuel)
           ELSE IF ~IsDir(fs, at) THEN <<>>
           ELSE IF n = ".." THEN Denote(fs, fs.nodes[at].up, rest, fuel)
           ELSE IF Has(fs, at, n)
           THEN LET id == Child(fs, at, n)
                    x == fs.nodes[id]
                IN  IF x.k = "l" THEN (IF fuel = 0 THEN <<>> ELSE LET t == Denote(fs, IF x.abs THEN 1 ELSE at, x.to, fuel - 1)
                                                                  IN  IF t = <<>> \/ t[2] # <<>> THEN <<>> ELSE Denote(fs, t[1], rest, fuel - 1))
                    ELSE Denote(fs, id, rest, fuel)
           ELSE (* n is missing: it and what follows is handled by name *)
                LET RECURSIVE Names(_, _)
                    Names(acc, todo) ==
                      IF todo = <<>> THEN <<at, acc>>
                      ELSE IF Head(todo) = "." THEN Names(acc, Tail(todo))
                      ELSE IF Head(todo) = ".." THEN (IF Len(acc) = 1 THEN Denote(fs, at, Tail(todo), fuel) ELSE Names(SubSeq(acc, 1, Len(acc) - 1), Tail(todo)))
                      ELSE Names(Append(acc, Head(todo)), Tail(todo))
                IN  Names(<<n>>, rest)
Location(fs, p) == Denote(fs, Start(fs, p), p.c, Fuel)

(* '..' may stay only where removing it would lead elsewhere: after a link, or after such a '..' *)
Necessary(fs, c, n) ==
  c[n] = ".." /\ n > 1 /\
  (c[n - 1] = ".." \/ LET r == Walk(fs, 1, SubSeq(c, 1, n - 1), FALSE, Fuel) IN r.e = 0 /\ fs.nodes[r.id].k = "l")
NormalForm(fs, c) == \A n \in 1..Len(c) : c[n] # "." /\ c[n] # "" /\ (c[n] = ".." => Necessary(fs, c, n))

(* one way of getting there: drop '.', and '..' with the component before it unless that is a link or a '..' *)
RECURSIVE Weak(_, _, _)
Weak(fs, done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET n == Head(todo)
           last == done[Len(done)]
           r == Walk(fs, 1, done, FALSE, Fuel)
       IN  Weak(fs,
                IF n = "." THEN done
                ELSE IF n # ".." THEN Append(done, n)
                ELSE IF done = <<>> THEN done
                ELSE IF last = ".." \/ (r.e = 0 /\ fs.nodes[r.id].k = "l") THEN Append(done, n)
                ELSE SubSeq(done, 1, Len(done) - 1),
                Tail(todo))
WeaklyCanonical(fs, p) == Weak(fs, <<>>, Absolute(fs, p))
=============================================================================
