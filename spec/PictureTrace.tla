---------------------------- MODULE PictureTrace ----------------------------
(* Judges pictures and immersive audio: frames against what was written, where they were said to be, and comparisons *)
EXTENDS Picture, Common

S0P == [files |-> <<>>, hashes |-> <<>>]

Put(f, k, v) == [i \in (DOMAIN f) \union {k} |-> IF i = k THEN v ELSE f[i]]
Set(s, i, v) == IF i <= Len(s) THEN [s EXCEPT ![i] = v] ELSE Append(s, v)

(* every content has its own hash *)
HashRight(hashes, c, h) ==
  /\ c \in DOMAIN hashes => hashes[c] = h
  /\ \A d \in DOMAIN hashes : hashes[d] = h => d = c

(* when there is no room, or no more room allowed, that is what the failure says *)
ToldFull(ev) == (ev.error = "full") = (ev.fault \in {"ENOSPC", "EDQUOT"})

JudgeWrite(s, ev) ==
  LET a == s.files[ev.k]
      i == Len(a.frames) + 1
      good == ev.error = ""
      known == i > 1
  IN  IF ev.valid = 0 \/ ev.fault # ""
      THEN [st |-> s, f |-> Clause("a frame that cannot be stored is an error", ~good)
                            \union Clause("a full disk is said to be full", good \/ ev.valid = 0 \/ ev.opening = 1 \/ a.kind = "atmos" \/ ToldFull(ev))]
      ELSE [st |-> IF ~good THEN s ELSE
                   [s EXCEPT !.files[ev.k].frames = Append(@, ev.c),
                             !.files[ev.k].infos = Set(@, i, [off |-> ev.off, size |-> ev.size, c |-> ev.c]),
                             !.files[ev.k].form = IF i = 1 THEN <<ev.width, ev.height>> ELSE @,
                             !.hashes = IF a.kind = "atmos" THEN @ ELSE Put(@, ev.c, ev.hash)],
            f |-> Clause("no failure", good)
                  \union IF ~good \/ a.kind = "atmos" THEN {}
                         ELSE Clause("frames follow one another", i > 1 => ev.off = After(a.infos[i - 1]))
                              \union Clause("a frame is where it is said to be", ev.inside = 1)
                              \union Clause("nothing of an encrypted frame can be seen", a.enc = 1 => ev.plain = 0)
                              \union Clause("the hash is the frame's own", HashRight(s.hashes, ev.c, ev.hash))]

JudgeRead(a, ev) ==
  Clause("the file can be read", ev.error = "") \union
  IF ev.error # "" THEN {}
  ELSE Clause("frames come back as written", ev.frames = a.frames /\ ev.again = 1)
       \union Clause("there is nothing after the end", ev.beyond = "error")
       \union Clause("the file says how long it is", ev.duration = DurationOf(a.frames, a.kind) /\ ev.mduration = ev.duration)
       \union Clause("the file says what it is", ev.num = a.num /\ ev.den = a.den /\ ev.std = a.std /\ ev.sameid = 1 /\ ev.meta = 1)
       \union Clause("it is encrypted if it was meant to be", ev.enc = a.enc /\ (a.enc = 1 => ev.samekeyid = 1))
       \union Clause("only the key opens it", IF a.enc = 1 THEN ev.nokey # "same" /\ ev.wrongkey = "error" ELSE ev.nokey = "same")
       \union IF a.kind = "atmos" THEN Clause("the file says what it is", ev.params = a.params /\ ev.sameatmos = 1)
              ELSE Clause("the size of the picture is the frames'", <<ev.width, ev.height>> = a.form /\ <<ev.mwidth, ev.mheight>> = a.form)
                   \union Clause("the rate of frames follows from the edit rate",
                                 ev.fnum * a.den = a.num * Eyes(a.kind) * ev.fden /\ ev.mfnum * a.den = a.num * Eyes(a.kind) * ev.mfden)
                   \union Clause("the shape of the picture is the frames'", ev.anum * a.form[2] = ev.aden * a.form[1] /\ ev.manum * a.form[2] = ev.maden * a.form[1])

(* one byte of one frame has been changed *)
JudgeTamper(a, ev) ==
  Clause("no failure", ev.error = "") \union
  IF ev.error # "" THEN {}
  ELSE Clause("changes to an encrypted frame are noticed",
              \A i \in DOMAIN ev.results : IF i = ev.edit THEN ev.results[i] # "same" /\ (a.enc = 1 => ev.results[i] = "error") ELSE ev.results[i] = "same")
       \union Clause("nothing is made up when not looking for changes", ev.unchecked # "same")

JudgeCompare(s, ev) ==
  LET a == s.files[ev.a]
      b == s.files[ev.b]
      same == /\ a.kind = b.kind /\ a.num = b.num /\ a.den = b.den /\ a.form = b.form /\ Len(a.frames) = Len(b.frames)
              /\ \A i \in DOMAIN ev.diffs : Near(ev.diffs[i], ev.mean, ev.dev)
      told == \A i \in DOMAIN ev.diffs : Clear(ev.diffs[i], ev.mean, ev.dev)
  IN  Clause("no failure", ev.error = "") \union
      IF ~told THEN {} ELSE Clause("pictures are equal exactly when their frames are near enough", ev.error # "" \/ (ev.same = 1) = same)
      \union Clause("nothing is said to differ when all is the same", ev.error # "" \/ ~same \/ ev.errors = 0)

JudgePicture(s, ev) ==
  CASE ev.op = "make" ->
         [st |-> [s EXCEPT !.files = Put(@, ev.k, [kind |-> ev.kind, std |-> ev.std, num |-> ev.num, den |-> ev.den, enc |-> ev.enc, params |-> ev.params,
                                                   frames |-> <<>>, infos |-> <<>>, form |-> <<0, 0>>])], f |-> {}]
    [] ev.op = "start" -> [st |-> [s EXCEPT !.files[ev.k].frames = <<>>, !.files[ev.k].infos = IF ev.over = 1 THEN @ ELSE <<>>], f |-> Clause("no failure", ev.error = "")]
    [] ev.op = "write" -> JudgeWrite(s, ev)
    [] ev.op = "skip" ->
         LET a == s.files[ev.k]
             i == Len(a.frames) + 1
         IN  [st |-> IF ev.error = "" THEN [s EXCEPT !.files[ev.k].frames = Append(@, a.infos[i].c)] ELSE s,
              f |-> Clause("a frame that cannot be stored is an error", (ev.error = "") = (ev.fault = ""))
                   \union Clause("a full disk is said to be full", ev.error = "" \/ ToldFull(ev))]
    [] ev.op = "crash" -> [st |-> s, f |-> {}]
    [] ev.op = "finalize" ->
         LET a == s.files[ev.k]
             fine == ev.fault = "" /\ Whole(a.frames, a.kind)
         IN  [st |-> s,
              f |-> Clause("a file that cannot be finished is an error", (ev.error = "") = fine)
                    \union Clause("a full disk is said to be full", ev.error = "" \/ a.kind = "atmos" \/ ToldFull(ev))
                    \union Clause("finishing says whether there is anything", ~fine \/ (ev.made = 1) = (Len(a.frames) > 0))]
    [] ev.op = "read" -> [st |-> s, f |-> JudgeRead(s.files[ev.k], ev)]
    [] ev.op = "tamper" -> [st |-> s, f |-> JudgeTamper(s.files[ev.k], ev)]
    [] ev.op = "compare" -> [st |-> s, f |-> JudgeCompare(s, ev)]
    [] OTHER -> [st |-> s, f |-> {"unknown event"}]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- S0P, Judge <- JudgePicture
=============================================================================
