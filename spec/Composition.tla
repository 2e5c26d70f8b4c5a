---------------------------- MODULE Composition ----------------------------
(* Compositions: what a document says about one, and what is known of one after reading its document.

   A composition c is
     [std, profile, f, versions, ratings, langs, reels, ext, mca, rate, dur]
   f gives the text of each field that is set; versions and ratings are sequences of pairs; langs are the subtitle
   languages beyond that of the subtitles themselves; ext is a sequence of <<scope, name, property, value>>; mca is
   the sequence of sound descriptions read from a document; rate and dur are those read from a document's metadata.
   A reel is a sequence of parts [role, lang, rate, dur, labels, ...] with lang "" when none is given, and labels the
   sound descriptions that the part's asset offers.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CoreFields == {"annotation", "issuer", "creator", "title", "kind", "scope", "date"}
MetaFields == {"full_title", "full_title_language", "territory", "territory_scope", "version", "status", "chain", "distributor", "facility",
               "luminance", "luminance_unit", "sound_config", "sound_rate", "stored_width", "stored_height", "active_width", "active_height"}
(* without these there can be no metadata *)
Needed == {"sound_config", "sound_rate", "stored_width", "stored_height", "active_width", "active_height"}

Only(f, names) == [k \in (DOMAIN f) \intersect names |-> f[k]]
With(f, k, v) == [x \in (DOMAIN f) \union {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Both(f, g) == [x \in (DOMAIN f) \union (DOMAIN g) |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]

Pictures(reel) == {i \in DOMAIN reel : reel[i].role \in {"picture", "stereo"}}
Sounds(reel) == {i \in DOMAIN reel : reel[i].role = "sound"}
Picture(reel) == reel[CHOOSE i \in Pictures(reel) : TRUE]
Sound(reel) == reel[CHOOSE i \in Sounds(reel) : TRUE]

Described(c) ==
  /\ c.std = "smpte" /\ c.profile # "a"
  /\ Needed \subseteq DOMAIN c.f
  /\ c.reels # <<>>
  /\ Pictures(c.reels[1]) # {} \/ c.rate # ""

(* the language of the first subtitle that has one: the only one, or "" *)
SubtitleLang(reel) ==
  LET x == {i \in DOMAIN reel : reel[i].role = "subtitle" /\ reel[i].lang # ""}
  IN  IF x = {} THEN "" ELSE reel[CHOOSE i \in x : TRUE].lang
RECURSIVE FirstLang(_)
FirstLang(reels) == IF reels = <<>> THEN "" ELSE IF SubtitleLang(Head(reels)) # "" THEN SubtitleLang(Head(reels)) ELSE FirstLang(Tail(reels))

MetaText(f) ==
  LET g == Only(f, MetaFields)
      h == IF "full_title" \in DOMAIN g THEN g ELSE With(g, "full_title", "")
      v == IF "version" \in DOMAIN h THEN h ELSE Without(h, "status")
  IN  IF "territory" \in DOMAIN v THEN v ELSE Without(v, "territory_scope")

Meta(c) ==
  [f |-> MetaText(c.f),
   rate |-> IF c.rate # "" THEN c.rate ELSE Picture(c.reels[1]).rate,
   dur |-> IF c.rate # "" THEN c.dur ELSE Picture(c.reels[1]).dur,
   alts |-> IF Len(c.versions) > 1 THEN Tail(c.versions) ELSE <<>>,
   langs |-> (IF FirstLang(c.reels) # "" THEN <<FirstLang(c.reels)>> ELSE <<>>) \o c.langs,
   ext |-> c.ext,
   mca |-> IF c.profile # "21" THEN <<>>
           ELSE IF c.mca # <<>> THEN c.mca
           ELSE IF Sounds(c.reels[1]) # {} THEN Sound(c.reels[1]).labels ELSE <<>>]

(* version is <<>> when the composition has none, and then any may be made up *)
Doc(c) ==
  [std |-> c.std,
   f |-> Only(c.f, CoreFields),
   version |-> IF c.versions = <<>> THEN <<>> ELSE <<Head(c.versions)>>,
   ratings |-> c.ratings,
   reels |-> c.reels,
   meta |-> IF Described(c) THEN <<Meta(c)>> ELSE <<>>]

(* When reading, the first language of the list is left to the subtitles if it is theirs.  Everywhere is TRUE when
   that is decided by the first subtitle of any reel. *)
Beyond(langs, reels, Everywhere) ==
  LET first == FirstLang(IF Everywhere THEN reels ELSE SubSeq(reels, 1, 1))
  IN  IF langs # <<>> /\ first # "" /\ Head(langs) = first THEN Tail(langs) ELSE langs

(* parts come out of a document without their assets *)
Bare(reels) == [r \in DOMAIN reels |-> [i \in DOMAIN reels[r] |-> [reels[r][i] EXCEPT !.labels = <<>>]]]

LoadBy(d, Everywhere) ==
  LET m == d.meta[1]
  IN  IF d.meta = <<>>
      THEN [std |-> d.std, profile |-> "a", f |-> d.f, versions |-> d.version, ratings |-> d.ratings, langs |-> <<>>,
            reels |-> Bare(d.reels), ext |-> <<>>, mca |-> <<>>, rate |-> "", dur |-> ""]
      ELSE [std |-> d.std, profile |-> IF m.mca = <<>> THEN "20" ELSE "21", f |-> Both(d.f, m.f), versions |-> d.version \o m.alts, ratings |-> d.ratings,
            langs |-> Beyond(m.langs, d.reels, Everywhere),
            reels |-> Bare(d.reels), ext |-> m.ext, mca |-> m.mca, rate |-> m.rate, dur |-> m.dur]
Load(d) == LoadBy(d, TRUE)

(* ext with the given property set *)
Setting(ext, scope, name, prop, value) ==
  LET at == {i \in DOMAIN ext : ext[i][1] = scope /\ ext[i][2] = name /\ ext[i][3] = prop}
  IN  IF at = {} THEN Append(ext, <<scope, name, prop, value>>)
      ELSE [ext EXCEPT ![CHOOSE i \in at : \A j \in at : i <= j] = <<scope, name, prop, value>>]
Value(ext, scope, name, prop) ==
  LET at == {i \in DOMAIN ext : ext[i][1] = scope /\ ext[i][2] = name /\ ext[i][3] = prop}
  IN  IF at = {} THEN <<>> ELSE <<ext[CHOOSE i \in at : \A j \in at : i <= j][4]>>
=============================================================================
