----------------------------- MODULE FileTrace ------------------------------
(* Judges what dcp::File was seen to do.  After every operation the driver shows, for each object, whether it
   is open and its path; how many descriptors the process has open on each file; and the contents of files. *)
EXTENDS File, Common

Names == {"a", "b", "c"}
S0File == Start(1..3, [n \in Names |-> Absent])

(* files that nobody has open for writing have their final contents *)
Settled(s, n) == \A h \in Live(s) : s.handles[h].name = n => ~Writable(s.handles[h].mode)

Shown(s, ev) ==
  Clause("open-or-not", \A k \in 1..3 : s.slots[k].alive => (ev.open[k] = 1) <=> IsOpen(s, k)) \union
  Clause("path", \A k \in 1..3 : IsOpen(s, k) => ev.path[k] = s.slots[k].path) \union
  Clause("descriptors", \A n \in Names : ev.fds[n] = OpenOn(s, n)) \union
  Clause("other-descriptors", ev.fds.other = 0) \union
  Clause("contents", \A n \in Names : Settled(s, n) => ev.disk[n] = s.disk[n])

(* a line is shown as a C string, i.e. up to the first zero *)
RECURSIVE UpToZero(_)
UpToZero(t) == IF t = <<>> \/ Head(t) = 0 THEN <<>> ELSE <<Head(t)>> \o UpToZero(Tail(t))

(* using an object that is not open must be reported; otherwise outcome o = [s, fails] *)
Use(s, ev, o) ==
  IF ~IsOpen(s, ev.k) THEN [s |-> s, f |-> Clause("must-report-not-open", ev.threw = 1)] ELSE o

Plain(r, ok) == [s |-> r.s, f |-> ok]

Outcome(s, ev) ==
  CASE ev.op = "put" -> [s |-> [s EXCEPT !.disk[ev.name] = ev.bytes], f |-> {}]
    [] ev.op = "open" -> LET n == Open(s, ev.k, ev.name, ev.mode)
                         IN  [s |-> n, f |-> Clause("open-error", (ev.error = 0) <=> IsOpen(n, ev.k)) \union
                                             Clause("open-error-code", ev.error = n.slots[ev.k].error)]
    [] ev.op = "move" -> [s |-> MoveTo(s, ev.i, ev.j), f |-> {}]
    [] ev.op = "assign" -> [s |-> Assign(s, ev.i, ev.j), f |-> {}]
    [] ev.op = "close" -> [s |-> Close(s, ev.k), f |-> {}]
    [] ev.op = "destroy" -> [s |-> Destroy(s, ev.k), f |-> {}]
    [] ev.op = "take" -> [s |-> Take(s, ev.k), f |-> Clause("taken", (ev.got = 1) <=> IsOpen(s, ev.k))]
    [] ev.op = "drop" -> [s |-> LET RECURSIVE All(_, _)
                                    All(x, hs) == IF hs = {} THEN x ELSE LET h == CHOOSE h \in hs : TRUE IN All(CloseTaken(x, h), hs \ {h})
                                IN  All(s, s.taken), f |-> {}]
    [] ev.op = "read" ->
         Use(s, ev, LET r == Read(s, ev.k, ev.n)
                    IN  [s |-> r.s, f |-> Clause("not-thrown", ev.threw = 0) \union Clause("read", ev.r = Len(r.r) /\ ev.bytes = r.r)])
    [] ev.op = "cread" ->
         Use(s, ev, LET r == Read(s, ev.k, ev.n)
                        short == Len(r.r) < ev.n
                    IN  [s |-> r.s, f |-> Clause("checked-read-throws-if-short", (ev.threw = 1) <=> short) \union
                                          Clause("checked-read", ~short /\ ev.threw = 0 => ev.bytes = r.r)])
    [] ev.op = "gets" ->
         Use(s, ev, LET r == Gets(s, ev.k, ev.n)
                    IN  [s |-> r.s, f |-> Clause("not-thrown", ev.threw = 0) \union Clause("line", ev.bytes = UpToZero(r.r)) \union Clause("line-or-none", (ev.null = 1) <=> (r.r = <<>>))])
    [] ev.op = "write" ->
         Use(s, ev, LET r == Write(s, ev.k, ev.bytes)
                    IN  [s |-> r.s, f |-> Clause("not-thrown", ev.threw = 0) \union Clause("written", ev.r = r.r)])
    [] ev.op = "puts" ->
         Use(s, ev, LET r == Write(s, ev.k, ev.bytes)
                    IN  [s |-> r.s, f |-> Clause("not-thrown", ev.threw = 0) \union Clause("written", (ev.r = 1) <=> (r.r = Len(ev.bytes)))])
    [] ev.op = "cwrite" ->
         Use(s, ev, LET r == Write(s, ev.k, ev.bytes)
                    IN  [s |-> r.s, f |-> Clause("checked-write-throws-if-short", (ev.threw = 1) <=> (r.r # Len(ev.bytes)))])
    [] ev.op = "seek" ->
         Use(s, ev, LET r == Seek(s, ev.k, ev.off, ev.whence)
                    IN  [s |-> r.s, f |-> Clause("not-thrown", ev.threw = 0) \union Clause("seek", (ev.r = 0) <=> (r.r = 0))])
    [] ev.op = "tell" -> Use(s, ev, [s |-> s, f |-> Clause("not-thrown", ev.threw = 0) \union Clause("tell", ev.r = Handle(s, ev.k).pos)])
    [] ev.op = "eof" -> Use(s, ev, [s |-> s, f |-> Clause("not-thrown", ev.threw = 0) \union Clause("eof", (ev.r # 0) <=> Handle(s, ev.k).eof)])
    [] ev.op = "error" -> Use(s, ev, [s |-> s, f |-> Clause("not-thrown", ev.threw = 0) \union Clause("error", (ev.r # 0) <=> Handle(s, ev.k).err)])
    [] ev.op = "limited" ->
         (* a write of n bytes to a new file where the system takes at most `limit' *)
         [s |-> s, f |-> Clause("must-throw", ev.n > ev.limit => ev.threw = 1) \union Clause("must-not-throw", ev.n <= ev.limit => ev.threw = 0) \union
                         Clause("all-written", ev.threw = 0 => ev.size = ev.n) \union Clause("closed", ev.left = 0)]
    [] ev.op = "trickle" ->
         (* n bytes asked of a file that delivers `given' of them a few at a time, then ends *)
         [s |-> s, f |-> Clause("checked-read-throws-if-short", (ev.threw = 1) <=> ev.given < ev.n) \union Clause("checked-read", ev.threw = 0 => ev.same = 1)]

JudgeFile(s, ev) ==
  LET o == Outcome(s, ev)
  IN  [st |-> o.s, f |-> o.f \union (IF ev.op \in {"limited", "trickle"} THEN {} ELSE Shown(o.s, ev))]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- S0File, Judge <- JudgeFile
=============================================================================
