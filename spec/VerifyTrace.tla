---------------------------- MODULE VerifyTrace ----------------------------
(* What the verifier said about packages made to a description *)
EXTENDS Verify, Common

About(ev, t) == {<<ev.notes[i].c, ev.notes[i].r>> : i \in {i \in DOMAIN ev.notes : ev.notes[i].t = t}}
(* left open: what the pictures are like inside, and how big they are when encrypted *)
Inside == {"INVALID_JPEG2000_CODESTREAM", "INVALID_JPEG2000_RSIZ_FOR_2K", "INVALID_JPEG2000_RSIZ_FOR_4K"}
Sizes == {"INVALID_PICTURE_FRAME_SIZE_IN_BYTES", "NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES", "VALID_PICTURE_FRAME_SIZES_IN_BYTES"}
Open(P, x) == x[1] \in Inside \/ (x[1] \in Sizes /\ P.reels[x[2] + 1].pic.enc = 1)
Judged(P, S) == {x \in S : ~Open(P, x)}
Found(ev) == About(ev, "warning") \union About(ev, "bv21") \union About(ev, "error")
JudgeVerify(st, ev) ==
  LET wanted == Judged(ev.pkg, Complaints(ev.pkg))
      found == Judged(ev.pkg, Found(ev))
      praised == IF ev.pkg.more = 0 THEN Judged(ev.pkg, Praise(ev.pkg)) ELSE {}
      right == IF ev.pkg.more = 0 THEN Judged(ev.pkg, About(ev, "ok")) ELSE {}
      known == {x[1] : x \in wanted}
  IN  [st |-> st,
       f |-> IF ev.thrown # "" THEN {"thrown"} ELSE
             {"missing " \o x[1] : x \in wanted \ found} \union {"unwarranted " \o x[1] : x \in found \ wanted}
             \union {"unsaid " \o x[1] : x \in praised \ right} \union {"unearned " \o x[1] : x \in right \ praised}
             \union {"seriousness of " \o ev.notes[i].c : i \in {i \in DOMAIN ev.notes : ev.notes[i].c \in known /\ ev.notes[i].t # Seriousness(ev.notes[i].c)}}
             \union Clause("words", ev.said = 1)]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- 0, Judge <- JudgeVerify
=============================================================================
