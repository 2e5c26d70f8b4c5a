-------------------------------- MODULE File --------------------------------
(* Open files owned by objects.

   disk      name -> contents (a sequence of bytes), or Absent
   handle    id -> [name, mode, pos, eof, err, open]      what the operating system has been asked to open
   slot      object -> [alive, h, path, error]            h is the handle owned, or 0 if not open
   taken     handles handed over to the caller

   Handles are numbered in the order of opening and never reused.  A mode is one of "r" "w" "a" "r+" "w+" "a+".

   The state is one record so that the same definitions serve the design check and the trace check.  *)
EXTENDS Integers, Sequences, FiniteSets

Absent == <<-1>>

Readable(m) == m \in {"r", "r+", "w+", "a+"}
Writable(m) == m # "r"
Appends(m) == m \in {"a", "a+"}

Dead == [alive |-> FALSE, h |-> 0, path |-> "", error |-> 0]

ENOENT == 2

Start(slots, disk) == [disk |-> disk, handles |-> <<>>, slots |-> [k \in slots |-> Dead], taken |-> {}]

IsOpen(s, k) == s.slots[k].h # 0
Handle(s, k) == s.handles[s.slots[k].h]
Live(s) == { j \in 1..Len(s.handles) : s.handles[j].open }
(* how many handles the operating system has open on a file *)
OpenOn(s, name) == Cardinality({ j \in Live(s) : s.handles[j].name = name })

CloseHandle(s, h) == IF h = 0 THEN s ELSE [s EXCEPT !.handles[h].open = FALSE]

(* ---- ownership *)

CanOpen(s, name, mode) == name \in DOMAIN s.disk /\ (mode \in {"r", "r+"} => s.disk[name] # Absent)
Open(s, k, name, mode) ==
  IF ~CanOpen(s, name, mode)
  THEN [s EXCEPT !.slots[k] = [alive |-> TRUE, h |-> 0, path |-> name, error |-> ENOENT]]
  ELSE [s EXCEPT !.disk[name] = IF mode \in {"w", "w+"} \/ @ = Absent THEN <<>> ELSE @,
                 !.handles = Append(@, [name |-> name, mode |-> mode, pos |-> 0, eof |-> FALSE, err |-> FALSE, open |-> TRUE]),
                 !.slots[k] = [alive |-> TRUE, h |-> Len(s.handles) + 1, path |-> name, error |-> 0]]

MoveTo(s, i, j) == [s EXCEPT !.slots[j] = s.slots[i], !.slots[i].h = 0]
Assign(s, i, j) == IF i = j THEN s ELSE MoveTo(CloseHandle(s, s.slots[j].h), i, j)
Close(s, k) == [CloseHandle(s, s.slots[k].h) EXCEPT !.slots[k].h = 0]
Destroy(s, k) == [CloseHandle(s, s.slots[k].h) EXCEPT !.slots[k] = Dead]
Take(s, k) == [s EXCEPT !.taken = IF s.slots[k].h = 0 THEN @ ELSE @ \union {s.slots[k].h}, !.slots[k].h = 0]
CloseTaken(s, h) == [CloseHandle(s, h) EXCEPT !.taken = @ \ {h}]

(* ---- input and output: each gives [s, r]: state after and result *)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Content(s, k) == s.disk[Handle(s, k).name]
Upd(s, k, h) == [s EXCEPT !.handles[s.slots[k].h] = h]

(* what reading n bytes gives *)
Got(s, k, n) == LET h == Handle(s, k)
                IN  IF h.eof \/ h.pos >= Len(Content(s, k)) THEN <<>> ELSE SubSeq(Content(s, k), h.pos + 1, Min(h.pos + n, Len(Content(s, k))))
Read(s, k, n) ==
  LET h == Handle(s, k)
  IN  IF n = 0 THEN [s |-> s, r |-> <<>>]
      ELSE IF ~Readable(h.mode) THEN [s |-> Upd(s, k, [h EXCEPT !.err = TRUE]), r |-> <<>>]
      ELSE LET g == Got(s, k, n)
           IN  [s |-> Upd(s, k, [h EXCEPT !.pos = @ + Len(g), !.eof = @ \/ Len(g) < n]), r |-> g]

(* index of the first newline in s, or 0 *)
RECURSIVE NewLine(_, _)
NewLine(t, j) == IF j > Len(t) THEN 0 ELSE IF t[j] = 10 THEN j ELSE NewLine(t, j + 1)
(* a line: at most n - 1 bytes, ending after a newline *)
Gets(s, k, n) ==
  LET h == Handle(s, k)
  IN  IF ~Readable(h.mode) THEN [s |-> Upd(s, k, [h EXCEPT !.err = TRUE]), r |-> <<>>]
      ELSE LET g == Got(s, k, n - 1)
               e == NewLine(g, 1)
               line == IF e = 0 THEN g ELSE SubSeq(g, 1, e)
           IN  [s |-> Upd(s, k, [h EXCEPT !.pos = @ + Len(line), !.eof = @ \/ (e = 0 /\ Len(g) < n - 1)]), r |-> line]

Overwrite(c, pos, b) ==
  [i \in 1..Max(Len(c), pos + Len(b)) |-> IF i > pos /\ i <= pos + Len(b) THEN b[i - pos] ELSE IF i <= Len(c) THEN c[i] ELSE 0]
Write(s, k, b) ==
  LET h == Handle(s, k)
  IN  IF b = <<>> THEN [s |-> s, r |-> 0]
      ELSE IF ~Writable(h.mode) THEN [s |-> Upd(s, k, [h EXCEPT !.err = TRUE]), r |-> 0]
      ELSE LET at == IF Appends(h.mode) THEN Len(Content(s, k)) ELSE h.pos
           IN  [s |-> [Upd(s, k, [h EXCEPT !.pos = at + Len(b), !.eof = FALSE]) EXCEPT !.disk[h.name] = Overwrite(@, at, b)], r |-> Len(b)]

Target(s, k, off, whence) == CASE whence = 0 -> off [] whence = 1 -> Handle(s, k).pos + off [] whence = 2 -> Len(Content(s, k)) + off
Seek(s, k, off, whence) ==
  LET t == Target(s, k, off, whence)
  IN  IF t < 0 THEN [s |-> s, r |-> -1] ELSE [s |-> Upd(s, k, [Handle(s, k) EXCEPT !.pos = t, !.eof = FALSE]), r |-> 0]

(* ---- what must always be so *)

Owned(s) == { s.slots[k].h : k \in DOMAIN s.slots } \ {0}
OneOwner(s) ==
  /\ \A a, b \in DOMAIN s.slots : a # b /\ s.slots[a].h # 0 => s.slots[a].h # s.slots[b].h
  /\ Owned(s) \intersect s.taken = {}
(* nothing leaks and nothing is closed under its owner *)
NoLeak(s) == Live(s) = Owned(s) \union s.taken
SamePath(s) == \A k \in DOMAIN s.slots : s.slots[k].h # 0 => s.handles[s.slots[k].h].name = s.slots[k].path
DeadOwnNothing(s) == \A k \in DOMAIN s.slots : ~s.slots[k].alive => s.slots[k].h = 0
=============================================================================
