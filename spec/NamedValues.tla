---------------------------- MODULE NamedValues -----------------------------
(* Values that have names: content kinds (with the scope each belongs to), alignments, and which subtitle
   standards measure text how *)
EXTENDS Text, FiniteSets

ScopeMetadata == Codes("http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/content-kind")
ScopeIMF == Codes("http://www.smpte-ra.org/schemas/2067-3/2013#content-kind")

(* <<name, scope>>; scope <<>> is none, <<s>> is s *)
Kinds == TLCEval(<<
  <<Codes("feature"), <<>>>>, <<Codes("short"), <<>>>>, <<Codes("trailer"), <<>>>>, <<Codes("test"), <<>>>>,
  <<Codes("transitional"), <<>>>>, <<Codes("rating"), <<>>>>, <<Codes("teaser"), <<>>>>, <<Codes("policy"), <<>>>>,
  <<Codes("psa"), <<>>>>, <<Codes("advertisement"), <<>>>>,
  <<Codes("clip"), <<ScopeMetadata>>>>, <<Codes("promo"), <<ScopeMetadata>>>>, <<Codes("stereocard"), <<ScopeMetadata>>>>,
  <<Codes("episode"), <<ScopeIMF>>>>, <<Codes("highlights"), <<ScopeIMF>>>>, <<Codes("event"), <<ScopeIMF>>>> >>)
KindSet == { Kinds[i] : i \in DOMAIN Kinds }

HNames == << Codes("left"), Codes("center"), Codes("right") >>
VNames == << Codes("top"), Codes("center"), Codes("bottom") >>

(* looking up: the set of indices in a table of names, or {} if the name must be refused *)
Find(names, text) == LET low == LowerText(text) IN { i \in DOMAIN names : names[i] = low }
FindKind(text) == LET low == LowerText(text) IN { k \in KindSet : k[1] = low }

(* Standards 1..4: Interop, SMPTE 2007, 2010, 2014 *)
Baseline(s) == s \in {1, 4}
BoundingBox(s) == s \in {2, 3}
=============================================================================
