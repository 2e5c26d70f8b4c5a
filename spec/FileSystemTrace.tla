--------------------------- MODULE FileSystemTrace ---------------------------
(* Judges what the file system wrappers were seen to do.  After every call the driver shows the whole tree
   below the root of its world and the current directory, found with plain system calls.  *)
EXTENDS FileSystem, Common, Text

S0FS == [fs |-> Empty, skip |-> FALSE]

P(j) == [abs |-> j.abs = 1, c |-> j.c]

(* ---- the tree as shown: sequence of [p names, k kind, c contents, i inode label, abs/to for links] *)
Content(x) == IF x.k = "f" THEN x.c ELSE IF x.k = "l" THEN <<x.abs, x.to>> ELSE <<>>
NodeContent(x) == IF x.k = "f" THEN x.c ELSE IF x.k = "l" THEN <<Bool(x.abs), x.to>> ELSE <<>>
SameTree(fs, snap) ==
  LET tree == Tree(fs)
      shown == { <<snap[n].p, snap[n].k, Content(snap[n])>> : n \in 1..Len(snap) }
      model == { <<x[1], fs.nodes[x[2]].k, NodeContent(fs.nodes[x[2]])>> : x \in tree }
  IN  /\ shown = model
      /\ \A a, b \in 1..Len(snap) : a < b =>
           ((snap[a].i = snap[b].i) <=> ((CHOOSE x \in tree : x[1] = snap[a].p)[2] = (CHOOSE x \in tree : x[1] = snap[b].p)[2]))

(* ---- copy: files into a directory or onto a new name; of a directory, the files in it and empty directories for those in it.  u: what it does from
   there on is not said (some of the entries cannot be copied) *)
Name(p) == p.c[Len(p.c)]
Copy(fs, p, q) ==
  LET r == Follow(fs, p)
      t == Follow(fs, q)
  IN  IF r.e # 0 THEN [fs |-> fs, e |-> {-1}, v |-> 0, u |-> FALSE]
      ELSE IF ~IsDir(fs, r.id)
      THEN LET o == IF t.e = 0 /\ IsDir(fs, t.id) THEN CopyFile(fs, p, [q EXCEPT !.c = Append(@, Name(p))], FALSE) ELSE CopyFile(fs, p, q, FALSE)
           IN  [fs |-> o.fs, e |-> IF o.e = {0} THEN {0} ELSE {-1}, v |-> 0, u |-> FALSE]
      ELSE IF t.e = 0 \/ NoFollow(fs, q).e = 0 \/ ~(t.e = ENOENT /\ t.dir # 0) THEN [fs |-> fs, e |-> {-1, 0}, v |-> 0, u |-> TRUE]
      ELSE IF Within(fs, t.dir, r.id) THEN [fs |-> fs, e |-> {-1, 0}, v |-> 0, u |-> TRUE]
      ELSE LET made == MakeDir(fs, t)
               where(n) == Walk(fs, r.id, <<n>>, TRUE, Fuel)
               names == DOMAIN fs.nodes[r.id].e
               dir == Len(fs.nodes) + 1
               RECURSIVE All(_, _)
               All(x, ns) == IF ns = {} THEN x ELSE LET n == CHOOSE n \in ns : TRUE IN All(NewNode(x, IF IsDir(fs, where(n).id) THEN Dir(dir) ELSE NewFile(fs.nodes[where(n).id].c), dir, n), ns \ {n})
           IN  IF \E n \in names : where(n).e # 0 THEN [fs |-> fs, e |-> {-1, 0}, v |-> 0, u |-> TRUE]
               ELSE [fs |-> All(made, names), e |-> {0}, v |-> 0, u |-> FALSE]

(* a file overwritten by itself: Boost empties it *)
Onto(fs, p, q) == LET r == Follow(fs, p)
                      t == Follow(fs, q)
                  IN  r.e = 0 /\ t.e = 0 /\ r.id = t.id

Sure(o) == [fs |-> o.fs, e |-> o.e, v |-> o.v, u |-> FALSE]

Outcome(fs, ev) ==
  LET a == P(ev.a)
      b == P(ev.b)
      c == ev.call
  IN  CASE c = "exists" -> Sure(Exists(fs, a))
        [] c = "is_directory" -> Sure(IsKind(fs, a, "d"))
        [] c = "is_regular_file" -> Sure(IsKind(fs, a, "f"))
        [] c = "is_empty" -> Sure(IsEmpty(fs, a))
        [] c = "file_size" -> Sure(FileSize(fs, a))
        [] c = "hard_link_count" -> Sure(HardLinks(fs, a))
        [] c = "last_write_time" -> Sure(WriteTime(fs, a))
        [] c = "space" -> Sure(Space(fs, a))
        [] c = "create_directory" -> Sure(CreateDirectory(fs, a))
        [] c = "create_directories" -> Sure(CreateDirectories(fs, a))
        [] c = "remove" -> Sure(Remove(fs, a))
        [] c = "remove_all" -> Sure(RemoveAll(fs, a))
        [] c = "rename" -> Sure(Rename(fs, a, b))
        [] c = "create_hard_link" -> Sure(HardLink(fs, a, b))
        [] c = "create_symlink" -> Sure(SymLink(fs, a, b))
        [] c = "copy_file" -> IF ev.over = 1 /\ Onto(fs, a, b) THEN [fs |-> fs, e |-> {-1, 0}, v |-> 0, u |-> TRUE] ELSE Sure(CopyFile(fs, a, b, ev.over = 1))
        [] c = "copy" -> Copy(fs, a, b)
        [] c = "chdir" -> Sure(ChangeDir(fs, a))
        [] c = "cwd" -> Sure(Ok(fs, PathOf(fs, fs.cwd)))
        [] c = "canonical" -> Sure(Canonical(fs, a))
        [] c = "absolute" -> Sure(Ok(fs, Absolute(fs, a)))
        [] c = "list" -> Sure(Listed(fs, a))
        [] c = "list_all" -> Sure(ListedAll(fs, a))

(* the value shown in the event *)
Value(o, ev) ==
  CASE ev.call \in {"list", "list_all"} -> Len(ev.vs) = Cardinality(o.v) /\ { ev.vs[n] : n \in 1..Len(ev.vs) } = o.v
    [] ev.call \in {"cwd", "canonical", "absolute"} -> ev.in = 1 /\ ev.vs = o.v
    [] OTHER -> o.v = -1 \/ ev.v = o.v

JudgeCall(s, ev) ==
  LET o == Outcome(s.fs, ev)
      succeeds == 0 \in o.e
  IN  [st |-> [fs |-> o.fs, skip |-> o.u \/ (ev.call \in {"remove", "remove_all"} /\ ~Within(o.fs, o.fs.cwd, 1))],
       f |-> Clause("error", ev.err \in o.e \/ (-1 \in o.e /\ ev.err # 0)) \union
             Clause("result", (succeeds /\ ev.err \in o.e /\ ~o.u) => Value(o, ev)) \union
             (IF o.u THEN {} ELSE Clause("tree", SameTree(o.fs, ev.snap)) \union Clause("current-directory", ev.cwd = PathOf(o.fs, o.fs.cwd)))]

(* ---- paths as text *)
Slash == 47
Dot == 46
Backslash == 92
LastAt(t, c) == LET S == { n \in 1..Len(t) : t[n] = c } IN IF S = {} THEN 0 ELSE CHOOSE n \in S : \A m \in S : m <= n
FileName(t) == SubSeq(t, LastAt(t, Slash) + 1, Len(t))
Extension(t) == LET f == FileName(t)
                    d == LastAt(f, Dot)
                IN  IF d = 0 \/ f = <<Dot>> \/ f = <<Dot, Dot>> THEN <<>> ELSE SubSeq(f, d, Len(f))
ChangedExtension(t, e) == SubSeq(t, 1, Len(t) - Len(Extension(t))) \o (IF e # <<>> /\ Head(e) # Dot THEN <<Dot>> ELSE <<>>) \o e
LongMark == <<Backslash, Backslash, 63, Backslash>>
Fixed(t, long, cwd) == IF ~long \/ HasPrefix(t, <<Backslash, Backslash>>) THEN t
                       ELSE IF HasPrefix(t, <<Slash>>) THEN LongMark \o t ELSE LongMark \o cwd \o <<Slash>> \o t
Unfixed(t, long) == IF long /\ HasPrefix(t, LongMark) THEN SubSeq(t, 5, Len(t)) ELSE t

(* ---- canonicalisation of paths that need not exist *)
JudgeWeak(s, ev) ==
  LET fs == IF ev.root = 1 THEN Empty ELSE s.fs
      p == P(ev.a)
      where == Location(fs, p)
      got == [abs |-> TRUE, c |-> ev.vs]
  IN  IF where = <<>> THEN {}          (* leads through a file or through a link to nowhere *)
      ELSE Clause("no-error", ev.err = 0) \union
           (IF ev.err # 0 THEN {} ELSE
            Clause("absolute", ev.in = 1) \union
            (IF ev.in = 0 THEN {} ELSE
             Clause("normal-form", NormalForm(fs, ev.vs)) \union
             Clause("same-place", Location(fs, got) = where) \union
             Clause("again-the-same", ev.same = 1)))

JudgeFS(s, ev) ==
  IF s.skip THEN [st |-> s, f |-> {}]
  ELSE CASE ev.op = "put" -> [st |-> [s EXCEPT !.fs = WriteFile(@, P(ev.a), ev.bytes)], f |-> {}]
         [] ev.op = "touch" -> [st |-> [s EXCEPT !.fs = Touch(@, P(ev.a), ev.t)], f |-> {}]
         [] ev.op = "mkdir" -> [st |-> [s EXCEPT !.fs = CreateDirectory(@, P(ev.a)).fs], f |-> {}]
         [] ev.op = "symlink" -> [st |-> [s EXCEPT !.fs = SymLink(@, P(ev.a), P(ev.b)).fs], f |-> {}]
         [] ev.op = "link" -> [st |-> [s EXCEPT !.fs = HardLink(@, P(ev.a), P(ev.b)).fs], f |-> {}]
         [] ev.op = "call" -> JudgeCall(s, ev)
         [] ev.op = "weak" -> [st |-> s, f |-> JudgeWeak(s, ev)]
         [] ev.op = "extension" -> [st |-> s, f |-> Clause("extension", ev.r = Extension(ev.t))]
         [] ev.op = "change_extension" -> [st |-> s, f |-> Clause("changed-extension", ev.r = ChangedExtension(ev.t, ev.e))]
         [] ev.op = "fix" -> [st |-> s, f |-> Clause("fix", ev.r = Fixed(ev.t, ev.long = 1, ev.cwd)) \union Clause("inverse", ev.back = (IF HasPrefix(ev.t, LongMark) THEN Unfixed(ev.t, ev.long = 1) ELSE IF HasPrefix(ev.t, <<Slash>>) \/ HasPrefix(ev.t, <<Backslash, Backslash>>) \/ ev.long = 0 THEN ev.t ELSE ev.cwd \o <<Slash>> \o ev.t))]
         [] ev.op = "unfix" -> [st |-> s, f |-> Clause("unfix", ev.r = Unfixed(ev.t, ev.long = 1))]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- S0FS, Judge <- JudgeFS
=============================================================================
