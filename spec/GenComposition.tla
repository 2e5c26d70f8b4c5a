---------------------------- MODULE GenComposition ----------------------------
(* Compositions with every one and two of the optional fields, with each of the needed ones missing, and with every
   small arrangement of subtitle languages over two reels.  *)
EXTENDS Composition, Json, IOUtils, TLC, SequencesExt

Optional == {"issuer", "creator", "annotation", "title", "kind", "versions", "ratings", "full_title", "full_title_language", "territory", "version",
             "status", "chain", "distributor", "facility", "luminance", "languages", "sign_language", "edr"}
Need == {"sound_config", "sound_rate", "stored", "active"}
Small == {x \in SUBSET Optional : Cardinality(x) <= 2} \union {Optional} \union {Optional \ {k} : k \in Optional}
Styles == {<<"smpte", "a">>, <<"smpte", "20">>, <<"smpte", "21">>, <<"interop", "21">>}
Case(st, fields, langs, subs, pic, mca) ==
  [std |-> st[1], profile |-> st[2], fields |-> SetToSeq(fields), langs |-> langs, subs |-> subs, pic |-> pic, mca |-> mca]
Plain == {Case(st, x \union Need, <<"fr">>, <<"none">>, 1, 0) : st \in Styles, x \in Small}
Lacking == {Case(st, Optional \union (Need \ {n}), <<"fr">>, <<"de">>, 1, 0) : st \in Styles, n \in Need}
Langs == {<<>>} \union {<<a>> : a \in {"fr", "de"}} \union {<<a, b>> : a \in {"fr", "de"}, b \in {"fr", "de"}}
Subs == {"nosub", "none", "fr", "de"}
Speaking == {Case(<<"smpte", p>>, {"languages"} \union Need, ls, subs, pic, mca) :
               p \in {"20", "21"}, ls \in Langs, subs \in {<<a>> : a \in Subs} \union {<<a, b>> : a \in Subs, b \in Subs}, pic \in {0, 1}, mca \in {0, 1}}
Cases == Plain \union Lacking \union Speaking
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
