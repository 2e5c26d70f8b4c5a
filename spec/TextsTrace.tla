---------------------------- MODULE TextsTrace ----------------------------
(* Judges subtitles and captions: documents that are written say what was given, reading gives what documents say *)
EXTENDS TextDoc, Common

S0T == [files |-> <<>>, fault |-> ""]

Put(f, k, v) == [i \in (DOMAIN f) \union {k} |-> IF i = k THEN v ELSE f[i]]

Ids(fonts) == [i \in DOMAIN fonts |-> fonts[i][1]]
Header(h) == SelectSeq(h, LAMBDA x : x[1] \notin {"Id", "SubtitleID", "StartTime"})
Entry(h, name) == LET e == SelectSeq(h, LAMBDA x : x[1] = name) IN [i \in DOMAIN e |-> e[i][2]]
StartOf(h, tcr) == LET e == Entry(h, "StartTime") IN [i \in DOMAIN e |-> TimeOf(e[i], tcr)]
IdOk(h, std) == IF std = "smpte" THEN Len(Entry(h, "Id")) = 1 /\ HasPrefix(Entry(h, "Id")[1], Urn) /\ Len(Entry(h, "Id")[1]) = 45
                ELSE Len(Entry(h, "SubtitleID")) = 1 /\ Len(Entry(h, "SubtitleID")[1]) = 36
AllKept(ts, std) == [i \in DOMAIN ts |-> Kept(ts[i], std)]
RootName(std) == IF std = "smpte" THEN "SubtitleReel" ELSE "DCSubtitle"

JudgeWriteT(s, ev) ==
  LET a == s.files[ev.k]
      m == Meaning(ev.tree, a.std, a.tcr)
  IN  IF ev.faulted = 1 THEN Clause("a failure to store is an error", ev.error # "") \union Clause("a full disk is said to be full", ev.error = "full" => s.fault # "EIO")
      ELSE Clause("no failure", ev.error = "") \union
      IF ev.error # "" THEN {} ELSE Clause("what is written is XML", ev.xml = 1) \union
      IF ev.xml = 0 THEN {}
      ELSE Clause("the document is of its kind", ev.root = RootName(a.std) /\ ev.dns = a.ns)
           \union Clause("the document says what it is", Header(ev.dheader) = a.header /\ StartOf(ev.dheader, a.tcr) = a.start /\ IdOk(ev.dheader, a.std))
           \union Clause("the document loads the fonts", ev.dloads = Ids(a.fonts))
           \union Clause("the document can be understood", ~m.bad)
           \union Clause("the document says what was given", m.bad \/ Says(m.texts, AllKept(a.texts, a.std)))
           \union Clause("nothing of an encrypted document can be seen", a.enc = 1 => ev.seen = 0)
           \union Clause("the XML that was written can be had", ev.raw = 1)

JudgeReadT(s, ev) ==
  LET a == s.files[ev.k]
  IN  Clause("what was written can be read", ev.error = "") \union
      IF ev.error # "" THEN {}
      ELSE Clause("what is read is what was given", Says(ev.texts, AllKept(a.texts, a.std)))
           \union Clause("images come back as given", Range(ev.pictures) = Range(a.pictures) /\ Len(ev.pictures) = Len(a.pictures))
           \union Clause("fonts come back as given", Range(ev.fonts) = Range(a.fonts) /\ ev.loads = Ids(a.fonts))
           \union Clause("the header comes back as given", Header(ev.header) = a.header /\ ev.start = a.start /\ ev.ns = a.ns /\ ev.sameid = 1 /\ ev.resource = 1)
           \union Clause("the last of the texts gives the duration", ev.latest = Latest(a.texts) /\ (a.std = "smpte" => ev.duration = Frames(Latest(a.texts), a.rate)))
           \union Clause("only the key opens an encrypted document", a.enc = 1 => ev.nokey = "nothing" /\ ev.wrongkey = "error")

Pictures == {Codes("picture0"), Codes("picture1"), Codes("picture2"), Codes("picture3")}
NumberIn(h, name) == Number(Entry(h, name)[1], 0)
JudgeForeign(ev) ==
  LET tcr == IF ev.std = "smpte" THEN NumberIn(ev.dheader, "TimeCodeRate") ELSE 250
      er == Split(Entry(ev.dheader, "EditRate")[1], {32})
      m == Meaning(ev.tree, ev.std, tcr)
      bad == m.bad \/ \E i \in DOMAIN m.texts : m.texts[i].k = "i" /\ m.texts[i].t \notin Pictures
      said == IF ev.std = "smpte" THEN SelectSeq(ev.dheader, LAMBDA x : x[1] \notin {"StartTime", "DisplayType", "EditRate"}) ELSE ev.dheader
  IN  IF bad THEN Clause("what cannot be understood is an error", ev.error # "")
      ELSE Clause("a good document can be read", ev.error = "") \union
      IF ev.error # "" THEN {}
      ELSE Clause("what is read is what the document says", Norm(ev.texts) = Norm(m.texts))
           \union Clause("the header is the document's", SelectSeq(ev.header, LAMBDA x : x[1] # "EditRate") = said /\ ev.loads = ev.dloads /\ ev.start = StartOf(ev.dheader, tcr) /\ ev.ns = ev.dns)
           \union Clause("the last of the texts gives the duration", ev.latest = Latest(m.texts) /\ (ev.std = "smpte" => ev.duration = Frames(Latest(m.texts), Number(er[1], 0))))
           \union Clause("every image has its picture", {ev.pictures[i][1] : i \in DOMAIN ev.pictures} \subseteq Pictures /\ \A i, j \in DOMAIN ev.pictures : (ev.pictures[i][2] = ev.pictures[j][2]) = (ev.pictures[i][1] = ev.pictures[j][1]))
           \union Clause("the XML that was read can be had", ev.raw = 1)

Empty == <<>>
Refont(t, id) == IF t.k = "s" /\ t.font = <<Empty>> THEN [t EXCEPT !.font = <<id>>] ELSE t
JudgeFix(s, ev) ==
  LET a == s.files[ev.k]
      empties == {i \in DOMAIN a.fonts : a.fonts[i][1] = Empty}
      id == ev.loads[Least(empties)]
      ids == [i \in DOMAIN a.fonts |-> IF i \in empties THEN id ELSE a.fonts[i][1]]
      ts == [i \in DOMAIN a.texts |-> Refont(a.texts[i], id)]
  IN  IF empties = {} THEN [st |-> s, f |-> Clause("nothing changes if no font has an empty name", ev.loads = Ids(a.fonts) /\ ev.texts = a.texts)]
      ELSE [st |-> [s EXCEPT !.files[ev.k].texts = ts, !.files[ev.k].fonts = [i \in DOMAIN @ |-> <<ids[i], @[i][2]>>]],
            f |-> Clause("a font with no name gets one of its own", id # Empty /\ \A i \in DOMAIN a.fonts : a.fonts[i][1] # id)
                  \union Clause("texts keep their fonts", ev.loads = ids /\ ev.texts = ts)]

Distance(x, y) == IF x < y THEN y - x ELSE x - y
SameText(x, y, px, py, tol) ==
  /\ Distance(x.vp, y.vp) <= tol
  /\ IF x.k = "i" /\ y.k = "i" THEN [x EXCEPT !.vp = 0, !.t = <<>>] = [y EXCEPT !.vp = 0, !.t = <<>>] /\ px = py ELSE [x EXCEPT !.vp = 0] = [y EXCEPT !.vp = 0]
PictureOf(a, t) == IF t.k = "s" THEN "" ELSE a.pictures[Least({i \in DOMAIN a.pictures : a.pictures[i][1] = t.t})][2]
But(h, name) == SelectSeq(h, LAMBDA x : x[1] # name)
JudgeCompareT(s, ev) ==
  LET a == s.files[ev.a]
      b == s.files[ev.b]
      texts == Len(a.texts) = Len(b.texts) /\ \A i \in DOMAIN a.texts : SameText(a.texts[i], b.texts[i], PictureOf(a, a.texts[i]), PictureOf(b, b.texts[i]), ev.tolerance)
      fonts == Ids(a.fonts) = Ids(b.fonts)
      header == IF a.std = "interop" THEN Entry(a.header, "MovieTitle") = Entry(b.header, "MovieTitle")
                ELSE But(a.header, "IssueDate") = But(b.header, "IssueDate") /\ a.start = b.start
      dates == Entry(a.header, "IssueDate") = Entry(b.header, "IssueDate")
      same == a.std = b.std /\ texts /\ header /\ (fonts \/ (ev.fonts = 1 /\ a.std = "interop")) /\ (dates \/ ev.dates = 1)
      (* nothing is said about these *)
      open == a.ns # b.ns \/ (a.std = "interop" /\ b.std = "interop" /\ a.header # b.header /\ header) \/ (ev.fonts = 1 /\ ~fonts /\ a.std = "smpte")
  IN  Clause("no failure", ev.error = "") \union
      IF open \/ ev.error # "" THEN {} ELSE Clause("texts are equal exactly when they show the same", (ev.same = 1) = same) \union Clause("nothing is said to differ when all is the same", ~same \/ ev.errors = 0)

JudgeTexts(s, ev) ==
  CASE ev.op = "make" ->
         [st |-> [s EXCEPT !.files = Put(@, ev.k, [std |-> ev.std, ns |-> ev.ns, rate |-> ev.rate, tcr |-> ev.tcr, enc |-> ev.enc, start |-> ev.start, header |-> ev.header,
                                                   texts |-> <<>>, pictures |-> <<>>, fonts |-> <<>>])], f |-> {}]
    [] ev.op = "font" -> [st |-> [s EXCEPT !.files[ev.k].fonts = Append(@, <<ev.id, ev.data>>)], f |-> {}]
    [] ev.op = "ensure" -> [st |-> [s EXCEPT !.files[ev.k].fonts = IF \E i \in DOMAIN @ : @[i][1] = ev.id THEN @ ELSE Append(@, <<ev.id, ev.data>>)], f |-> {}]
    [] ev.op = "text" ->
         [st |-> [s EXCEPT !.files[ev.k].texts = Append(@, ev.text), !.files[ev.k].pictures = IF ev.text.k = "i" THEN Append(@, <<ev.text.t, ev.picture>>) ELSE @],
          f |-> Clause("a text is what it was made to be", ev.now = ev.text)]
    [] ev.op = "fault" -> [st |-> [s EXCEPT !.fault = ev.error], f |-> {}]
    [] ev.op = "write" -> [st |-> s, f |-> JudgeWriteT(s, ev)]
    [] ev.op = "read" -> [st |-> s, f |-> JudgeReadT(s, ev)]
    [] ev.op = "foreign" -> [st |-> s, f |-> JudgeForeign(ev)]
    [] ev.op = "during" ->
         LET a == s.files[ev.k]
         IN  [st |-> s, f |-> Clause("the texts of a time are those seen then", ev.texts = During(a.texts, ev.from, ev.to, ev.starting = 1))
                              \union Clause("the last of the texts gives the duration", ev.latest = Latest(a.texts) /\ (a.std = "smpte" => ev.duration = Frames(Latest(a.texts), a.rate)))]
    [] ev.op = "fixempty" -> JudgeFix(s, ev)
    [] ev.op = "compare" -> [st |-> s, f |-> JudgeCompareT(s, ev)]
    [] ev.op = "limit" -> [st |-> s, f |-> Clause("there is room for 4095 fonts and images", ev.room = 4095)]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- S0T, Judge <- JudgeTexts
=============================================================================
