------------------------------ MODULE ReelTrace ------------------------------
(* Judges reels: what they say about encryption, length and readability, which keys reach which contents, and
   comparisons.  *)
EXTENDS Reel, Common

S0R == [contents |-> <<>>, uses |-> <<>>, found |-> {}, keys |-> <<>>]

Put(f, k, v) == [i \in (DOMAIN f) \union {k} |-> IF i = k THEN v ELSE f[i]]

JudgeLook(s, ev) ==
  LET Enc(c) == s.contents[c].enc = 1
      seen == {ev.parts[i] : i \in DOMAIN ev.parts}
      Used == {p.c : p \in Filed(s.uses)}
      Count(c) == Cardinality({i \in DOMAIN s.uses : s.uses[i].c = c})
      Keyed(c) == c \in s.found /\ s.keys[c] # "none"
      IsOpen(c) == Open(c, s.found, s.keys, Enc)
  IN  Clause("the reel has its parts", /\ {p.c : p \in seen} = Used
                                       /\ \A c \in Used : Cardinality({i \in DOMAIN ev.parts : ev.parts[i].c = c}) = Count(c))
      \union Clause("any encrypted part counts", (ev.any = 1) = AnyEncrypted(s.uses, Enc) /\ ev.cany = ev.any)
      \union Clause("all parts must be encrypted", (ev.all = 1) = AllEncrypted(s.uses, Enc) /\ ev.call = ev.all)
      \union Clause("the length is the picture's or the shortest", ev.duration = DurationOf(s.uses) /\ ev.cduration = ev.duration)
      \union Clause("parts are resolved when their content has been found", \A p \in seen : (p.resolved = 1) = (p.c \in s.found))
      \union Clause("parts are encrypted when their content is", \A p \in seen : (p.enc = 1) = Enc(p.c))
      \union Clause("keys reach what they are for", \A p \in seen : p.c \in s.found /\ Enc(p.c) => (p.key = 1) = (s.keys[p.c] = "right"))
      \union Clause("nothing has a key that was not given", \A p \in seen : p.anykey = 1 => Keyed(p.c))
      \union Clause("a key opens text", \A p \in seen : s.contents[p.c].kind = "text" /\ p.c \in s.found => (p.words = 1) = IsOpen(p.c))
      \union Clause("parts can be read when they are open", \A p \in seen : (p.readable = 1) = IsOpen(p.c))
      \union Clause("the reel can be read when all its parts can", (ev.readable = 1) = (\A p \in seen : IsOpen(p.c)) /\ ev.creadable = ev.readable)

JudgeReel(s, ev) ==
  LET looked(t) == [st |-> t, f |-> IF ev.error # "" THEN {"no failure"} ELSE JudgeLook(t, ev)]
  IN  CASE ev.op = "standard" -> [st |-> s, f |-> {}]
        [] ev.op = "content" -> [st |-> [s EXCEPT !.contents = Put(@, ev.k, [enc |-> ev.enc, kind |-> ev.kind])], f |-> Clause("no failure", ev.error = "")]
        [] ev.op = "use" -> [st |-> [s EXCEPT !.uses = Append(@, [role |-> ev.role, c |-> ev.c, dur |-> ev.duration])], f |-> {}]
        [] ev.op = "fresh" -> looked([s EXCEPT !.found = {}, !.keys = [c \in DOMAIN s.contents |-> "none"]])
        [] ev.op = "give" -> looked([s EXCEPT !.keys = After(@, ev.ks)])
        [] ev.op = "resolve" -> looked([s EXCEPT !.found = @ \union {ev.ks[i] : i \in DOMAIN ev.ks}])
        [] ev.op = "compare" -> [st |-> s, f |-> IF ev.error # "" THEN {"no failure"}
                                                  ELSE Clause("reels are equal exactly when all their parts are", (ev.ab = 1) = SameReel(ev.v))
                                                       \union Clause("comparison goes both ways", ev.ab = ev.ba)]
        [] OTHER -> [st |-> s, f |-> {"unknown event"}]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- S0R, Judge <- JudgeReel
=============================================================================
