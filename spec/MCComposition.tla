--------------------------- MODULE MCComposition ---------------------------
(* Small compositions of every kind: nothing set is lost by writing and reading, and a document that was read is
   written again as it was.  *)
EXTENDS Composition, TLC
CONSTANTS Langs, MaxLangs, Everywhere

VARIABLES c, stage
vars == <<c, stage>>

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Sub(x) == CASE x = "nosub" -> <<>> [] x = "none" -> <<[role |-> "subtitle", lang |-> "", rate |-> "24", dur |-> "1", labels |-> <<>>]>>
            [] OTHER -> <<[role |-> "subtitle", lang |-> x, rate |-> "24", dur |-> "1", labels |-> <<>>]>>
Kinds == {"nosub", "none"} \union Langs
Pic == <<[role |-> "picture", lang |-> "", rate |-> "25", dur |-> "7", labels |-> <<>>]>>
Snd(l) == <<[role |-> "sound", lang |-> "", rate |-> "25", dur |-> "7", labels |-> l]>>
Free == {"full_title", "territory", "version", "status"}

Init == /\ stage = 0
        /\ c \in {[std |-> s, profile |-> p, f |-> [title |-> "t", issuer |-> "i"], versions |-> v, ratings |-> <<>>, langs |-> <<>>,
                   reels |-> <<>>, ext |-> <<<<"s", "n", "p", "v">>>>, mca |-> <<>>, rate |-> "", dur |-> ""] :
                  s \in {"smpte", "interop"}, p \in {"a", "20", "21"}, v \in {<<>>, <<"v1">>, <<"v1", "v2">>}}

SetFields == /\ stage = 0 /\ stage' = 1
             /\ \E x \in SUBSET Free, n \in {{}, {"sound_rate"}, Needed} :
                  c' = [c EXCEPT !.f = Both(@, [k \in x \union n |-> IF k = "full_title" THEN "" ELSE k])]
SetLangs == /\ stage = 1 /\ stage' = 2
            /\ \E s \in Seqs(Langs, MaxLangs) : c' = [c EXCEPT !.langs = s]
SetReels == /\ stage = 2 /\ stage' = 3
            /\ \E a \in Kinds, b \in Kinds, p \in BOOLEAN, l \in {<<>>, <<"label">>}, two \in BOOLEAN :
                 LET first == (IF p THEN Pic ELSE <<>>) \o Snd(l) \o Sub(a)
                 IN  c' = [c EXCEPT !.reels = IF two THEN <<first, Sub(b)>> ELSE <<first>>]
(* somebody's document may say more than we can set *)
Foreign == /\ stage = 3 /\ stage' = 4
           /\ \E sc \in BOOLEAN : c' = IF sc THEN [c EXCEPT !.f = With(@, "territory_scope", "s")] ELSE c
Next == SetFields \/ SetLangs \/ SetReels \/ Foreign
Spec == Init /\ [][Next]_vars

Ready == stage = 4
Again == LoadBy(Doc(c), Everywhere)

CoreKept == Ready => /\ Only(Again.f, CoreFields) = Only(c.f, CoreFields)
                     /\ Again.ratings = c.ratings /\ Again.std = c.std
                     /\ Len(Again.reels) = Len(c.reels)
MetaKept == (Ready /\ Described(c)) =>
  /\ Again.versions = c.versions
  /\ Again.langs = c.langs
  /\ Again.ext = c.ext
  /\ \A k \in (DOMAIN c.f) \intersect MetaFields :
       \/ k \in DOMAIN Again.f /\ Again.f[k] = c.f[k]
       \/ k = "status" /\ "version" \notin DOMAIN c.f
       \/ k = "territory_scope" /\ "territory" \notin DOMAIN c.f
  /\ \A k \in DOMAIN Again.f : k \in DOMAIN c.f \/ (k = "full_title" /\ Again.f[k] = "")
Settled == Ready => Doc(Again) = [Doc(c) EXCEPT !.reels = Bare(@)]
=============================================================================
