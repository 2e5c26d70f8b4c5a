------------------------------- MODULE Verify -------------------------------
(* What is to be said about a package by the verifier.

   A package P has
     kind, ann, pklann, terr, addl, meta, ver, ext, cver, label, area, msc, sign, more   what the composition says
     dup, bad, stale            damage to the lists of the package
     det                        whether the pictures themselves are to be looked at
     reels                      each with rate, pic, snd, sub, cc, marks
   A complaint is <<what, reel>>, with reel -1 for what is not about a reel.  *)
EXTENDS Integers, Sequences, FiniteSets

SumOver(S, f(_)) == LET RECURSIVE go(_)
                        go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + go(T \ {x})
                    IN go(S)
Say(what, reel, when) == IF when THEN {<<what, reel>>} ELSE {}
Some(s, p(_)) == \E i \in DOMAIN s : p(s[i])

Kinds == {"feature", "short", "trailer", "test", "transitional", "rating", "teaser", "policy", "psa", "advertisement"}
Territories == {"none", "GB", "FR", "US", "001"}
Languages == {"none", "fr-FR", "de-DE", "en-GB", "en"}

Texts(r) == r.sub \o r.cc
Parts(r) == <<r.pic>> \o (IF r.snd.has = 1 THEN <<r.snd>> ELSE <<>>) \o r.sub \o r.cc
Here(x) == x.gone = 0
Readable(t) == t.gone = 0 /\ t.enc = 0

\* --- how long things last -------------------------------------------------------------------------------------------
Least(r, frames) == (frames * r.rate[2]) \div r.rate[1] < 1
Lasts(r) == r.pic.dur
Durations(r) == {x.dur : x \in {Parts(r)[i] : i \in DOMAIN Parts(r)}}

\* --- the composition and its lists ----------------------------------------------------------------------------------
AnyEncrypted(P) == Some(P.reels, LAMBDA r : Some(Parts(r), LAMBDA x : x.enc = 1))
AllEncrypted(P) == \A i \in DOMAIN P.reels : \A j \in DOMAIN Parts(P.reels[i]) : Parts(P.reels[i])[j].enc = 1

(* a list of encrypted things has to be signed; what is not here cannot be seen to be encrypted *)
SeenEncrypted(P) == Some(P.reels, LAMBDA r : Some(Parts(r), LAMBDA x : x.enc = 1 /\ Here(x)))

MarkOf(P, name) ==   \* of the first reel that has it; <<>> if there is none
  LET having == {i \in DOMAIN P.reels : P.reels[i].marks.has = 1 /\ Some(P.reels[i].marks.m, LAMBDA m : m[1] = name)}
  IN  IF having = {} THEN <<>>
      ELSE LET r == P.reels[CHOOSE i \in having : \A j \in having : i <= j]
               k == CHOOSE k \in DOMAIN r.marks.m : r.marks.m[k][1] = name
           IN  <<r.marks.m[k][2]>>

Composition(P) ==
  Say("PARTIALLY_ENCRYPTED", -1, AnyEncrypted(P) /\ ~AllEncrypted(P))
  \union Say("INVALID_CONTENT_KIND", -1, P.kind \notin Kinds)
  \union Say("MISSING_CPL_ANNOTATION_TEXT", -1, P.ann = "none")
  \union Say("MISMATCHED_CPL_ANNOTATION_TEXT", -1, P.ann = "other")
  \union Say("MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL", -1, P.pklann = "other" /\ P.more = 0)
  \union Say("MISMATCHED_CPL_HASHES", -1, P.stale # 0)
  \union Say("MISSING_CPL_CONTENT_VERSION", -1, P.cver = 0)
  \union Say("EMPTY_CONTENT_VERSION_LABEL_TEXT", -1, P.cver = 1 /\ P.label = 0)
  \union Say("UNSIGNED_CPL_WITH_ENCRYPTED_CONTENT", -1, AnyEncrypted(P) /\ P.sign = 0)
  \union Say("UNSIGNED_PKL_WITH_ENCRYPTED_CONTENT", -1, SeenEncrypted(P) /\ P.sign = 0)
  \union Say("DUPLICATE_ASSET_ID_IN_PKL", -1, P.dup = "pkl")
  \union Say("DUPLICATE_ASSET_ID_IN_ASSETMAP", -1, P.dup = "am")
  \union Say("MISSING_CPL_METADATA", -1, P.meta = 0)
  \union (IF P.meta = 0 THEN {} ELSE
            Say("INVALID_LANGUAGE", -1, P.terr \notin Territories \/ P.addl \notin Languages)
            \union Say("MISSING_CPL_METADATA_VERSION_NUMBER", -1, P.ver = 0)
            \union Say("MISSING_EXTENSION_METADATA", -1, P.ext \in {"none", "scope"})
            \union Say("INVALID_EXTENSION_METADATA", -1, P.ext \in {"name", "profile"})
            \union Say("INVALID_MAIN_PICTURE_ACTIVE_AREA", -1, P.area[1] % 2 = 1 \/ P.area[2] % 2 = 1))

(* the sound that can be looked at *)
Sounds(P) == {i \in DOMAIN P.reels : P.reels[i].snd.has = 1 /\ Here(P.reels[i].snd)}
FirstSound(P) == CHOOSE i \in Sounds(P) : \A j \in Sounds(P) : i <= j
Channels(P) == P.reels[FirstSound(P)].snd.ch

Whole(P) ==
  LET last == P.reels[Len(P.reels)]
      ffoc == MarkOf(P, "FFOC")
      lfoc == MarkOf(P, "LFOC")
      subs == {i \in DOMAIN P.reels : P.reels[i].sub # <<>>}
      ccs == {Len(P.reels[i].cc) : i \in DOMAIN P.reels}
  IN  Say("INVALID_MAIN_SOUND_CONFIGURATION", -1, P.meta = 1 /\ Sounds(P) # {} /\ P.msc # Channels(P))
      \union Say("MISSING_MAIN_SUBTITLE_FROM_SOME_REELS", -1, subs # {} /\ subs # DOMAIN P.reels)
      \union Say("MISMATCHED_CLOSED_CAPTION_ASSET_COUNTS", -1, Cardinality(ccs) > 1)
      \union Say("MISSING_FFEC_IN_FEATURE", -1, P.kind = "feature" /\ MarkOf(P, "FFEC") = <<>>)
      \union Say("MISSING_FFMC_IN_FEATURE", -1, P.kind = "feature" /\ MarkOf(P, "FFMC") = <<>>)
      \union Say("MISSING_FFOC", -1, ffoc = <<>>)
      \union Say("INCORRECT_FFOC", -1, ffoc # <<>> /\ ffoc # <<1>>)
      \union Say("MISSING_LFOC", -1, lfoc = <<>>)
      \union Say("INCORRECT_LFOC", -1, lfoc # <<>> /\ lfoc # <<Lasts(last) - 1>>)

\* --- pictures and sound ---------------------------------------------------------------------------------------------
TwoK == {<<2048, 858>>, <<1998, 1080>>}
FourK == {<<4096, 1716>>, <<3996, 2160>>}
(* the most bytes that a frame may have at 250 and 230 Mbit/s, to the nearest *)
Nearest(a, b) == ((2 * a) + b) \div (2 * b)
MostBytes(rate) == Nearest(31250000 * rate[2], rate[1])
RiskyBytes(rate) == Nearest(28750000 * rate[2], rate[1])

Picture(P, i) ==
  LET r == P.reels[i]
      p == r.pic
      size == <<p.w, p.h>>
      (* two pictures, one for each eye, in each edit unit *)
      shown == <<r.rate[1] * (1 + p.stereo), r.rate[2]>>
  IN  Say("INVALID_PICTURE_FRAME_RATE", i - 1, shown \notin {<<n, 1>> : n \in {24, 25, 30, 48, 50, 60, 96}})
      \union (IF ~Here(p) THEN {} ELSE
        Say("INCORRECT_PICTURE_HASH", i - 1, p.hash \in {"file", "both"})
        \union Say("MISMATCHED_PICTURE_HASHES", i - 1, p.hash \in {"cpl", "pkl"})
        \union Say("INVALID_PICTURE_SIZE_IN_PIXELS", i - 1, size \notin (TwoK \union FourK))
        \union Say("INVALID_PICTURE_FRAME_RATE_FOR_2K", i - 1, size \in TwoK /\ r.rate \notin {<<24, 1>>, <<25, 1>>, <<48, 1>>})
        \union Say("INVALID_PICTURE_FRAME_RATE_FOR_4K", i - 1, size \in FourK /\ r.rate # <<24, 1>>)
        \union Say("INVALID_PICTURE_ASSET_RESOLUTION_FOR_3D", i - 1, size \in FourK /\ p.stereo = 1)
        \union Say("INVALID_MAIN_PICTURE_ACTIVE_AREA", i - 1, P.meta = 1 /\ (P.area[1] > p.w \/ P.area[2] > p.h))
        \union (IF P.det = 0 THEN {} ELSE
          Say("INVALID_PICTURE_FRAME_SIZE_IN_BYTES", i - 1, Some(p.big, LAMBDA b : b > MostBytes(r.rate)))
          \union Say("NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES", i - 1, Some(p.big, LAMBDA b : b > RiskyBytes(r.rate) /\ b <= MostBytes(r.rate)))))

Sound(P, i) ==
  LET s == P.reels[i].snd
  IN  IF i \notin Sounds(P) THEN {} ELSE
        Say("INCORRECT_SOUND_HASH", i - 1, s.hash \in {"file", "both"})
        \union Say("MISMATCHED_SOUND_HASHES", i - 1, s.hash \in {"cpl", "pkl"})
        \union Say("MISMATCHED_SOUND_CHANNEL_COUNTS", i - 1, s.ch # Channels(P))
        \union Say("INVALID_SOUND_FRAME_RATE", i - 1, s.rate # 48000)

Absent(P) ==
  LET gone(g) == Some(P.reels, LAMBDA r : Some(Parts(r), LAMBDA x : x.gone = g))
  IN  Say("MISSING_ASSET", -1, gone(1)) \union Say("EMPTY_ASSET_PATH", -1, gone(2)) \union Say("EXTERNAL_ASSET", -1, gone(3))

Reel(P, i) ==
  LET r == P.reels[i]
      parts == Parts(r)
  IN  Say("INVALID_DURATION", i - 1, Some(parts, LAMBDA x : Least(r, x.dur)))
      \union Say("INVALID_INTRINSIC_DURATION", i - 1, Least(r, r.pic.frames) \/ (r.snd.has = 1 /\ Least(r, r.snd.frames)) \/ Some(Texts(r), LAMBDA t : Least(r, t.intr)))
      \union Say("MISSING_HASH", i - 1, r.pic.hash = "none" \/ (r.snd.has = 1 /\ r.snd.hash = "none"))
      \union Say("MISMATCHED_ASSET_DURATION", i - 1, Cardinality(Durations(r)) > 1)
      \union Say("UNEXPECTED_ENTRY_POINT", i - 1, r.marks.has = 1 /\ r.marks.entry = 1)
      \union Say("UNEXPECTED_DURATION", i - 1, r.marks.has = 1 /\ r.marks.dur = 1)
      \union Picture(P, i) \union Sound(P, i)

\* --- subtitles and captions -----------------------------------------------------------------------------------------
(* what is said about one text asset by itself, in reel i *)
Text(P, i, t, sub) ==
  Say(IF sub THEN "MISSING_SUBTITLE_ENTRY_POINT" ELSE "MISSING_CLOSED_CAPTION_ENTRY_POINT", i - 1, t.entry = "none")
  \union Say(IF sub THEN "INCORRECT_SUBTITLE_ENTRY_POINT" ELSE "INCORRECT_CLOSED_CAPTION_ENTRY_POINT", i - 1, t.entry = "late")
  \union (IF ~Here(t) THEN {} ELSE
    Say("MISSED_CHECK_OF_ENCRYPTED", i - 1, t.enc = 1)
    \union Say("MISMATCHED_TIMED_TEXT_DURATION", i - 1, t.dur # t.intr)
    \union (IF t.enc = 1 THEN {} ELSE
      Say("MISSING_SUBTITLE_LANGUAGE", i - 1, t.lang = "none")
      \union Say("INVALID_TIMED_TEXT_FONT_SIZE_IN_BYTES", i - 1, t.font > 10485760)
      \union Say("MISSING_SUBTITLE_START_TIME", i - 1, t.start = "none")
      \union Say("INVALID_SUBTITLE_START_TIME", i - 1, t.start = "late")
      \union Say("INVALID_XML", i - 1, t.lines = <<>>)
      \union Say("MISSING_LOAD_FONT", i - 1, t.lines # <<>> /\ t.font = 0)
      \union Say("INVALID_CLOSED_CAPTION_XML_SIZE_IN_BYTES", i - 1, ~sub /\ SumOver(DOMAIN t.lines, LAMBDA k : t.lines[k].len) > 262144)
      \union Say("EMPTY_TEXT", i - 1, Some(t.lines, LAMBDA x : x.len = 0))))

(* the languages of subtitles are those of the first that says one *)
SubtitleLanguages(P) ==
  LET saying == {i \in DOMAIN P.reels : P.reels[i].sub # <<>> /\ Readable(P.reels[i].sub[1]) /\ P.reels[i].sub[1].lang # "none"}
      first == CHOOSE i \in saying : \A j \in saying : i <= j
  IN  UNION {Say("MISMATCHED_SUBTITLE_LANGUAGES", i - 1, P.reels[i].sub[1].lang # P.reels[first].sub[1].lang) : i \in saying}

(* a text asset of each reel (or none) that follow one another: track[i] is <<>> or <<t>> *)
Shift(t) == IF t.start = "late" THEN 1 ELSE 0
Spans(t) == {<<x.tin - Shift(t), x.tout - Shift(t)>> : x \in {t.lines[k] : k \in DOMAIN t.lines}}
Extent(P, track, i) == IF track[i] = <<>> THEN Lasts(P.reels[i]) ELSE track[i][1].dur
RECURSIVE Before(_, _, _)
Before(P, track, i) == IF i = 1 THEN 0 ELSE Before(P, track, i - 1) + Extent(P, track, i - 1)
(* what was shown when, in order, from the beginning of the composition *)
Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Previous(S, a) == LET before == {b \in S : Earlier(b, a)} IN IF before = {} THEN <<>> ELSE <<CHOOSE b \in before : \A c \in before : c = b \/ Earlier(c, b)>>
Track(P, track) ==
  LET readable == {i \in DOMAIN track : track[i] # <<>> /\ Readable(track[i][1])}
      begins == [i \in DOMAIN track |-> Before(P, track, i)]
      all == UNION {{<<s[1] + begins[i], s[2] + begins[i]>> : s \in Spans(track[i][1])} : i \in readable}
      close(i, s) == LET p == Previous(all, <<s[1] + begins[i], s[2] + begins[i]>>)
                     IN p # <<>> /\ (s[1] + begins[i]) - p[1][2] \in {0, 1}
  IN  UNION {LET r == P.reels[i]
                 s == Spans(track[i][1])
             IN  Say("SUBTITLE_OVERLAPS_REEL_BOUNDARY", i - 1, \E x \in s : x[2] > Extent(P, track, i))
                 \union Say("INVALID_SUBTITLE_FIRST_TEXT_TIME", i - 1, i = 1 /\ \E x \in s : x[1] < 4 * r.rate[1])
                 \union Say("INVALID_SUBTITLE_DURATION", i - 1, \E x \in s : x[2] <= x[1])
                 \union Say("INVALID_SUBTITLE_DURATION_BV21", i - 1, \E x \in s : x[2] - x[1] \in 1..14)
                 \union Say("INVALID_SUBTITLE_SPACING", i - 1, \E x \in s : close(i, x))
             : i \in readable}

(* how much is on the screen at once *)
Line(x) == IF x.va = "top" THEN x.vp ELSE IF x.va = "center" THEN 50 + x.vp ELSE 100 - x.vp
Showing(t, at) == {k \in DOMAIN t.lines : t.lines[k].tin <= at /\ at < t.lines[k].tout}
Moments(t) == {t.lines[k].tin : k \in DOMAIN t.lines}
LinesAt(t, at) == {Line(t.lines[k]) : k \in Showing(t, at)}
LengthOf(t, at, line) == SumOver({k \in Showing(t, at) : Line(t.lines[k]) = line}, LAMBDA k : t.lines[k].len)
TooMany(t) == \E at \in Moments(t) : Cardinality(LinesAt(t, at)) > 3
Longer(t, n) == \E at \in Moments(t) : \E line \in LinesAt(t, at) : LengthOf(t, at, line) > n

Readables(P, of(_)) == UNION {{of(P.reels[i])[k] : k \in {k \in DOMAIN of(P.reels[i]) : Readable(of(P.reels[i])[k])}} : i \in DOMAIN P.reels}
Crowding(P) ==
  LET subs == Readables(P, LAMBDA r : r.sub)
      ccs == Readables(P, LAMBDA r : r.cc)
  IN  Say("INVALID_SUBTITLE_LINE_COUNT", -1, \E t \in subs : TooMany(t))
      \union Say("INVALID_SUBTITLE_LINE_LENGTH", -1, \E t \in subs : Longer(t, 79))
      \union Say("NEARLY_INVALID_SUBTITLE_LINE_LENGTH", -1, (\E t \in subs : Longer(t, 52)) /\ ~(\E t \in subs : Longer(t, 79)))
      \union Say("INVALID_CLOSED_CAPTION_LINE_COUNT", -1, \E t \in ccs : TooMany(t))
      \union Say("INVALID_CLOSED_CAPTION_LINE_LENGTH", -1, \E t \in ccs : Longer(t, 32))
      \union Say("MISMATCHED_CLOSED_CAPTION_VALIGN", -1, \E t \in ccs : \E j, k \in DOMAIN t.lines :
                   t.lines[j].tin = t.lines[k].tin /\ t.lines[j].tout = t.lines[k].tout /\ t.lines[j].va # t.lines[k].va)

SubTrack(P) == [i \in DOMAIN P.reels |-> P.reels[i].sub]
CaptionTrack(P, k) == [i \in DOMAIN P.reels |-> IF k <= Len(P.reels[i].cc) THEN <<P.reels[i].cc[k]>> ELSE <<>>]
MostCaptions(P) == CHOOSE n \in 0..9 : (\A i \in DOMAIN P.reels : Len(P.reels[i].cc) <= n) /\ \E i \in DOMAIN P.reels : Len(P.reels[i].cc) = n

Timed(P) ==
  UNION {UNION {Text(P, i, P.reels[i].sub[k], TRUE) : k \in DOMAIN P.reels[i].sub} : i \in DOMAIN P.reels}
  \union UNION {UNION {Text(P, i, P.reels[i].cc[k], FALSE) : k \in DOMAIN P.reels[i].cc} : i \in DOMAIN P.reels}
  \union SubtitleLanguages(P) \union Track(P, SubTrack(P)) \union UNION {Track(P, CaptionTrack(P, k)) : k \in 1..MostCaptions(P)} \union Crowding(P)

\* --- altogether -----------------------------------------------------------------------------------------------------
Complaints(P) ==
  CASE P.bad \in {"noam", "halfam"} -> {<<"FAILED_READ", -1>>}
    [] OTHER -> Composition(P) \union Whole(P) \union Absent(P) \union UNION {Reel(P, i) : i \in DOMAIN P.reels} \union Timed(P)
                \union Say("INVALID_XML", -1, P.bad \in {"cpl", "pkl", "am"} \/ P.cver = 0)

(* what is said to be right about a package with one composition *)
Praise(P) ==
  IF P.bad \in {"noam", "halfam"} THEN {} ELSE
  Say("ALL_ENCRYPTED", -1, AllEncrypted(P))
  \union Say("NONE_ENCRYPTED", -1, ~AnyEncrypted(P))
  \union Say("VALID_CONTENT_KIND", -1, P.kind \in Kinds)
  \union Say("VALID_CPL_ANNOTATION_TEXT", -1, P.ann = "same")
  \union Say("MATCHING_PKL_ANNOTATION_TEXT_WITH_CPL", -1, P.pklann = "same")
  \union Say("MATCHING_CPL_HASHES", -1, P.stale = 0)
  \union Say("VALID_CONTENT_VERSION_LABEL_TEXT", -1, P.cver = 1 /\ P.label = 1)
  \union Say("VALID_RELEASE_TERRITORY", -1, P.meta = 1 /\ P.terr \in Territories \ {"none"})
  \union Say("VALID_MAIN_PICTURE_ACTIVE_AREA", -1, P.meta = 1 /\ P.area[1] % 2 = 0 /\ P.area[2] % 2 = 0)
  \union UNION {LET p == P.reels[i].pic
                 IN  Say("CORRECT_PICTURE_HASH", i - 1, Here(p) /\ p.hash \in {"ok", "none"})
                     \union Say("VALID_PICTURE_FRAME_SIZES_IN_BYTES", i - 1, Here(p) /\ P.det = 1 /\ ~Some(p.big, LAMBDA b : b > RiskyBytes(P.reels[i].rate)))
                 : i \in DOMAIN P.reels}

(* how serious a complaint is *)
Warnings ==
  {"EMPTY_ASSET_PATH", "EMPTY_CONTENT_VERSION_LABEL_TEXT", "EXTERNAL_ASSET", "INCORRECT_FFOC", "INCORRECT_LFOC", "INVALID_SUBTITLE_DURATION",
   "INVALID_SUBTITLE_FIRST_TEXT_TIME", "INVALID_SUBTITLE_LINE_COUNT", "INVALID_SUBTITLE_LINE_LENGTH", "INVALID_SUBTITLE_SPACING",
   "MISMATCHED_CPL_ANNOTATION_TEXT", "MISSED_CHECK_OF_ENCRYPTED", "MISSING_FFOC", "MISSING_LFOC", "NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES",
   "NEARLY_INVALID_SUBTITLE_LINE_LENGTH", "INVALID_SUBTITLE_DURATION_BV21", "INVALID_CLOSED_CAPTION_XML_SIZE_IN_BYTES"}
Errors ==
  {"DUPLICATE_ASSET_ID_IN_ASSETMAP", "DUPLICATE_ASSET_ID_IN_PKL", "EMPTY_TEXT", "FAILED_READ", "INCORRECT_PICTURE_HASH", "INCORRECT_SOUND_HASH",
   "INVALID_CONTENT_KIND", "INVALID_DURATION", "INVALID_INTRINSIC_DURATION", "INVALID_MAIN_PICTURE_ACTIVE_AREA", "INVALID_MAIN_SOUND_CONFIGURATION",
   "INVALID_PICTURE_FRAME_RATE", "INVALID_PICTURE_FRAME_SIZE_IN_BYTES", "INVALID_XML", "MISMATCHED_CLOSED_CAPTION_VALIGN", "MISMATCHED_CPL_HASHES",
   "MISMATCHED_PICTURE_HASHES", "MISMATCHED_SOUND_CHANNEL_COUNTS", "MISMATCHED_SOUND_HASHES", "MISSING_ASSET", "MISSING_CPL_CONTENT_VERSION",
   "MISSING_LOAD_FONT", "SUBTITLE_OVERLAPS_REEL_BOUNDARY", "UNEXPECTED_DURATION", "UNEXPECTED_ENTRY_POINT"}
Seriousness(what) == IF what \in Warnings THEN "warning" ELSE IF what \in Errors THEN "error" ELSE "bv21"
=============================================================================
