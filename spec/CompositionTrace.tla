------------------------- MODULE CompositionTrace -------------------------
(* Judges compositions: the document written from what was set, what is known after reading it, the document
   written from that.  Text is in hex. *)
EXTENDS Composition, Common

S0C == [c |-> <<>>, id |-> "", ids |-> <<>>, doc |-> <<>>, unchanged |-> FALSE]

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN "3" \o ToString(n) ELSE Digits(n \div 10) \o "3" \o ToString(n % 10)
Space == "20"
Ratio(n, d) == Digits(n) \o Space \o Digits(d)
Range(seq) == {seq[i] : i \in DOMAIN seq}
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}
Named(m, f) == {<<m[k], f[k]>> : k \in DOMAIN f}
Exactly(seq, set) == Range(seq) = set /\ Len(seq) = Cardinality(set)

CoreName == [annotation |-> "AnnotationText", issuer |-> "Issuer", creator |-> "Creator", title |-> "ContentTitleText", kind |-> "ContentKind",
             scope |-> "ContentKind@scope", date |-> "IssueDate"]
MetaName == [full_title |-> "FullContentTitleText", full_title_language |-> "FullContentTitleText@language", territory |-> "ReleaseTerritory",
             territory_scope |-> "ReleaseTerritory@scope", version |-> "VersionNumber", status |-> "VersionNumber@status", chain |-> "Chain",
             distributor |-> "Distributor", facility |-> "Facility", luminance |-> "Luminance", luminance_unit |-> "Luminance@units",
             sound_config |-> "MainSoundConfiguration", sound_rate |-> "MainSoundSampleRate",
             stored_width |-> "MainPictureStoredArea/Width", stored_height |-> "MainPictureStoredArea/Height",
             active_width |-> "MainPictureActiveArea/Width", active_height |-> "MainPictureActiveArea/Height"]
NodeOf == [markers |-> {"MainMarkers"}, picture |-> {"MainPicture"}, stereo |-> {"MainStereoscopicPicture"}, sound |-> {"MainSound"},
           subtitle |-> {"MainSubtitle"}, caption |-> {"MainCaption"}, csub |-> {"ClosedSubtitle"}, ccap |-> {"ClosedCaption", "MainClosedCaption"}, atmos |-> {"AuxData"}]

App == <<"http://isdcf.com/ns/cplmd/app", "Application", "DCP Constraints Profile">>
Sign == <<"http://isdcf.com/2017/10/SignLanguageVideo", "Sign Language Video", "Language Tag">>
Edr == <<"http://www.dolby.com/schemas/2014/EDR-Metadata", "Dolby EDR", "image transfer function">>
(* SMPTE-RDD-52:2020-Bv2.0 or 2.1 *)
AppValue(profile) == "534d5054452d5244442d35323a323032302d4276322e3" \o (IF profile = "20" THEN "0" ELSE "1")
SetExt(ext, at, v) == Setting(ext, at[1], at[2], at[3], v)
GetExt(ext, at, name) == LET v == Value(ext, at[1], at[2], at[3]) IN IF v = <<>> THEN {} ELSE {<<name, v[1]>>}

(*** Parts ***)
(* the six allowed Interop aspect ratios, in hundredths, with their text *)
Ratios == {<<133, "312e3333">>, <<166, "312e3636">>, <<177, "312e3737">>, <<185, "312e3835">>, <<200, "322e3030">>, <<239, "322e3339">>}
Abs(x) == IF x < 0 THEN -x ELSE x
Off(r, n, d) == Abs(100 * n - r[1] * d)
Nearest(n, d) == {r \in Ratios : \A q \in Ratios : Off(r, n, d) <= Off(q, n, d)}

IsText(role) == role \in {"subtitle", "caption", "csub", "ccap"}
IsPicture(role) == role \in {"picture", "stereo"}
PartIn(ev) ==
  LET dur == IF ev.dur >= 0 THEN ev.dur ELSE IF ev.kind # "markers" THEN ev.frames - ev.entry ELSE -1
      role == IF ev.kind = "stereo" THEN "stereo" ELSE ev.role
  IN  [role |-> role, lang |-> ev.lang, rate |-> Ratio(ev.rate, 1), dur |-> Digits(ev.frames), labels |-> <<>>, mca |-> ev.mca,
       f |-> {<<"Id", ev.id>>, <<"EditRate", Ratio(ev.rate, 1)>>, <<"IntrinsicDuration", Digits(ev.frames)>>}
             \union (IF ev.annotated = 1 /\ ev.text # "" THEN {<<"AnnotationText", ev.text>>} ELSE {})
             \union (IF ev.entry >= 0 THEN {<<"EntryPoint", Digits(ev.entry)>>} ELSE {})
             \union (IF dur >= 0 THEN {<<"Duration", Digits(dur)>>} ELSE {})
             \union (IF ev.hash # "" THEN {<<"Hash", ev.hash>>} ELSE {})
             \union (IF ev.key # "" THEN {<<"KeyId", ev.key>>} ELSE {})
             \union (IF IsText(role) /\ ev.language # "" THEN {<<"Language", ev.language>>} ELSE {})
             \union (IF IsPicture(role) THEN {<<"FrameRate", Ratio(IF role = "stereo" THEN 2 * ev.rate ELSE ev.rate, 1)>>} ELSE {}),
       aspect |-> ev.aspect,
       actual |-> IF dur >= 0 THEN dur ELSE ev.frames - (IF ev.entry >= 0 THEN ev.entry ELSE 0),
       marks |-> {<<ev.marks[i][1], ev.marks[i][2]>> : i \in {j \in DOMAIN ev.marks : \A k \in DOMAIN ev.marks : (k > j) => ev.marks[k][1] # ev.marks[j][1]}},
       mrate |-> ev.rate]

IdOf(x) == CHOOSE v \in {p[2] : p \in {q \in Range(x.f) : q[1] = "Id"}} : TRUE
HasId(x) == \E q \in Range(x.f) : q[1] = "Id"
PartId(p) == CHOOSE v \in {q[2] : q \in {y \in p.f : y[1] = "Id"}} : TRUE

(* x: in the document; p: meant *)
Wrote(std, x, p) ==
  LET plain == {q \in Range(x.f) : q[1] \notin {"ScreenAspectRatio", "DataType"}}
      aspects == {q \in Range(x.f) : q[1] = "ScreenAspectRatio"}
  IN  Clause("a part is written as what it is", x.node \in NodeOf[p.role])
      \union Clause("a part's details are written", plain = p.f /\ Len(x.f) = Cardinality(Range(x.f)))
      \union Clause("the kind of auxiliary data is written", (p.role = "atmos") = (\E q \in Range(x.f) : q[1] = "DataType" /\ q[2] # ""))
      \union Clause("a picture's shape is written",
               IF ~IsPicture(p.role) THEN aspects = {}
               ELSE Cardinality(aspects) = 1 /\ \A q \in aspects :
                      IF std = "smpte" THEN q[2] = Ratio(p.aspect[1], p.aspect[2])
                      ELSE \E r \in Nearest(p.aspect[1], p.aspect[2]) : q[2] = r[2])
      \union Clause("markers are written where they are", Exactly(x.marks, {<<m[1], ToString(m[2])>> : m \in p.marks}))

(* x: as the library reports it after reading; p: meant *)
ReadPart(std, x, p) ==
  Clause("a part is read as what it is", x.role = p.role)
  \union Clause("a part's details are read", Exactly(x.f, p.f))
  \union Clause("a part's actual length is known", x.actual = p.actual)
  \union Clause("a picture's shape is read",
           IsPicture(p.role) => IF std = "smpte" THEN x.aspect = p.aspect
                                ELSE x.aspect[2] = 1000 /\ \E r \in Nearest(p.aspect[1], p.aspect[2]) : Abs(x.aspect[1] - 10 * r[1]) <= 1)
  \union Clause("markers are read where they are", Exactly(x.marks, {<<m[1], m[2], p.mrate>> : m \in p.marks}))

JudgeReels(std, reels, want, ids, OnePart(_, _, _)) ==
  Clause("the reels are there", Len(reels) = Len(want) /\ \A r \in DOMAIN reels : r \in DOMAIN ids => reels[r].id = ids[r])
  \union (IF Len(reels) # Len(want) THEN {} ELSE
  UNION {LET got == reels[r].parts
         IN  Clause("each reel has its parts", Len(got) = Len(want[r]) /\ (\A i \in DOMAIN got : HasId(got[i]))
                                                /\ {IdOf(got[i]) : i \in {j \in DOMAIN got : HasId(got[j])}} = {PartId(want[r][i]) : i \in DOMAIN want[r]})
             \union UNION {UNION {IF HasId(got[i]) /\ IdOf(got[i]) = PartId(want[r][k]) THEN OnePart(std, got[i], want[r][k]) ELSE {} : i \in DOMAIN got} : k \in DOMAIN want[r]}
         : r \in DOMAIN reels})

(*** Compositions ***)
NewC(ev) ==
  LET f == [k \in {p[1] : p \in Range(ev.fields)} |-> (CHOOSE p \in Range(ev.fields) : p[1] = k)[2]]
  IN  [std |-> ev.standard, profile |-> ev.asked,
       f |-> [annotation |-> ev.text, title |-> ev.text, kind |-> "66656174757265", issuer |-> f.issuer, creator |-> f.creator],
       versions |-> ev.versions, ratings |-> <<>>, langs |-> <<>>, reels |-> <<>>,
       ext |-> <<<<App[1], App[2], App[3], AppValue(ev.asked)>>>>, mca |-> <<>>, rate |-> "", dur |-> ""]

PairsOf(v) == [i \in 1..(Len(v) \div 2) |-> <<v[2 * i - 1], v[2 * i]>>]
SetField(c, field, v) ==
  CASE field \in {"issuer", "creator", "annotation", "title", "date", "full_title", "full_title_language", "territory", "version", "status", "chain",
                  "distributor", "facility", "sound_config"} -> [c EXCEPT !.f = With(@, field, v[1])]
    [] field = "kind" -> [c EXCEPT !.f = IF Len(v) = 2 THEN With(With(@, "kind", v[1]), "scope", v[2]) ELSE Without(With(@, "kind", v[1]), "scope")]
    [] field = "noversion" -> [c EXCEPT !.f = Without(@, "version")]
    [] field = "luminance" -> [c EXCEPT !.f = With(With(@, "luminance", v[1]), "luminance_unit", v[2])]
    [] field = "sound_rate" -> [c EXCEPT !.f = With(@, field, v[1] \o Space \o "31")]
    [] field = "stored" -> [c EXCEPT !.f = With(With(@, "stored_width", v[1]), "stored_height", v[2])]
    [] field = "active" -> [c EXCEPT !.f = With(With(@, "active_width", v[1]), "active_height", v[2])]
    [] field = "sign_language" -> [c EXCEPT !.ext = SetExt(@, Sign, v[1])]
    [] field = "edr" -> [c EXCEPT !.ext = SetExt(@, Edr, v[1])]
    [] field = "ratings" -> [c EXCEPT !.ratings = PairsOf(v)]
    [] field = "versions" -> [c EXCEPT !.versions = PairsOf(v)]
    [] OTHER -> c
Duplicated(v) == \E i, j \in DOMAIN PairsOf(v) : i < j /\ PairsOf(v)[i][1] = PairsOf(v)[j][1]
Refused(ev) == \/ ev.field = "versions" /\ Duplicated(ev.v)
               \/ ev.field \in {"version", "active"} /\ ev.wrong = 1

Spaces == [smpte |-> "http://www.smpte-ra.org/schemas/429-7/2006/CPL", interop |-> "http://www.digicine.com/PROTO-ASDCP-CPL-20040511#"]
HasLabels(c) == c.profile = "21" /\ c.mca = <<>> /\ c.reels # <<>> /\ \E i \in DOMAIN c.reels[1] : c.reels[1][i].role = "sound" /\ c.reels[1][i].mca = 1

(* what the document is expected to be; anything it is free to choose is taken from it *)
Learn(c, ev) ==
  LET dated == IF "date" \in DOMAIN c.f THEN c
               ELSE [c EXCEPT !.f = With(@, "date", IF \E p \in Range(ev.core) : p[1] = "IssueDate" THEN (CHOOSE p \in Range(ev.core) : p[1] = "IssueDate")[2] ELSE "")]
      labelled == IF ~HasLabels(dated) THEN dated
                  ELSE [dated EXCEPT !.reels[1] = [i \in DOMAIN @ |-> IF @[i].role = "sound" THEN [@[i] EXCEPT !.labels = ev.mca] ELSE @[i]]]
  IN  labelled

JudgeWrite(s, ev) ==
  LET c == Learn(s.c, ev)
      d == Doc(c)
      m == d.meta[1]
  IN  Clause("writing succeeds", ev.error = "")
      \union (IF ev.error # "" THEN {} ELSE
      Clause("the document is of its standard", ev.ns = Spaces[c.std])
      \union Clause("a composition keeps its identity", ev.id = s.id)
      \union Clause("the fields are written", Exactly(ev.core, Named(CoreName, d.f)))
      \union Clause("there is an issue date", d.f.date # "")
      \union Clause("the first version is written", IF d.version = <<>> THEN Len(ev.versions) = 1 ELSE ev.versions = d.version)
      \union Clause("the ratings are written", ev.ratings = d.ratings)
      \union JudgeReels(c.std, ev.reels, d.reels, s.ids, Wrote)
      \union Clause("metadata is written when there is enough of it", ev.metas = Len(d.meta))
      \union (IF d.meta = <<>> \/ ev.metas # 1 THEN {} ELSE
      Clause("the metadata is written", Exactly(ev.meta, Named(MetaName, m.f) \union {<<"EditRate", m.rate>>, <<"IntrinsicDuration", m.dur>>}))
      \union Clause("metadata is in its own namespace", ev.metans = "http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata")
      \union Clause("the other versions are written", ev.alts = m.alts)
      \union Clause("the subtitle languages are written", ev.languages = m.langs)
      \union Clause("the extensions are written", ev.ext = m.ext)
      \union Clause("sound descriptions are written", (HasLabels(s.c) => Len(ev.mca) > 1) /\ ev.mca = m.mca))
      \union Clause("a document that was read is written again as it was", s.unchanged => ev.same = 1))

JudgeGot(s, ev, c) ==
  Clause("reading succeeds", ev.error = "")
  \union (IF ev.error # "" THEN {} ELSE
  Clause("a composition keeps its identity", ev.id = s.id)
  \union Clause("nothing is remarked on", ev.notes = 0)
  \union Clause("the standard is recognised", ev.standard = c.std)
  \union Clause("the profile is recognised", ev.profile = c.profile)
  \union Clause("it is known whether there was metadata", (ev.meta = 1) = (s.doc[1].meta # <<>>))
  \union Clause("the fields are read", Exactly(ev.fields, Pairs(Without(c.f, "date")) \union GetExt(c.ext, Sign, "sign_language") \union GetExt(c.ext, Edr, "edr")))
  \union Clause("the versions are read", ev.versions = c.versions)
  \union Clause("the ratings are read", ev.ratings = c.ratings)
  \union Clause("the additional subtitle languages are read", ev.languages = c.langs)
  \union JudgeReels(c.std, ev.reels, c.reels, s.ids, ReadPart))

JudgeComposition(s, ev) ==
  CASE ev.op = "new" ->
         [st |-> IF ev.error = "" THEN [s EXCEPT !.c = NewC(ev), !.id = ev.id] ELSE s,
          f |-> Clause("no failure", ev.error = "")
                \union (IF ev.error # "" THEN {} ELSE
                Clause("a new composition says which library made it", \A k \in {"issuer", "creator"} : \E p \in Range(ev.fields) : p = <<k, ev.brand>>)
                \union Clause("a new composition has its title", \A k \in {"annotation", "title"} : \E p \in Range(ev.fields) : p = <<k, ev.text>>)
                \union Clause("a new composition has one version", Len(ev.versions) = 1))]
    [] ev.op = "set" ->
         [st |-> IF ev.error # "" THEN s
                 ELSE [s EXCEPT !.unchanged = FALSE,
                                !.c = IF ev.field = "languages" THEN [@ EXCEPT !.langs = ev.words] ELSE SetField(@, ev.field, ev.v)],
          f |-> Clause("settings are refused when they make no sense, and only then", (ev.error # "") = Refused(ev))]
    [] ev.op = "reel" -> [st |-> [s EXCEPT !.c.reels = Append(@, <<>>), !.ids = Append(@, ev.id), !.unchanged = FALSE], f |-> Clause("no failure", ev.error = "")]
    [] ev.op = "part" ->
         [st |-> IF ev.error # "" THEN s ELSE [s EXCEPT !.c.reels[Len(s.c.reels)] = Append(@, PartIn(ev)), !.unchanged = FALSE], f |-> Clause("no failure", ev.error = "")]
    [] ev.op = "write" ->
         LET c == Learn(s.c, ev)
             d == Doc(c)
         IN  [st |-> IF ev.error # "" THEN s ELSE [s EXCEPT !.c = c, !.doc = <<IF d.version = <<>> THEN [d EXCEPT !.version = ev.versions] ELSE d>>], f |-> JudgeWrite(s, ev)]
    [] ev.op = "scope" ->
         [st |-> IF ev.done # 1 THEN s ELSE [s EXCEPT !.doc[1].meta[1].f = With(@, "territory_scope", ev.scope)], f |-> {}]
    [] ev.op = "read" ->
         LET c == Load(s.doc[1])
         IN  [st |-> [s EXCEPT !.c = c, !.unchanged = TRUE], f |-> JudgeGot(s, ev, c)]
    [] OTHER -> [st |-> s, f |-> {"unknown event"}]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- S0C, Judge <- JudgeComposition
=============================================================================
