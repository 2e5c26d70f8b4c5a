--------------------------- MODULE GenCodestream ---------------------------
(* Codestreams with one thing wrong, with some of the end missing, or with a segment that has some other length *)
EXTENDS Flaws, Json, IOUtils, TLC, SequencesExt

Whole(big) == {Stream(S, big) : S \in {Proper(big)} \union Flawed(Proper(big), big)}
Full(big) == With(With(Proper(big), 4, OneOf("COC", big)), Len(Proper(big)), OneOf("POC", big))
Ends(b) == {SubSeq(b, 1, k) : k \in 0 .. Len(b)}
Lengths(S, big) == UNION {{[S EXCEPT ![i].v[1] = x] : x \in 0 .. 12 \union {255, 256, 65535}} : i \in {i \in DOMAIN S : S[i].m \in {"QCD", "QCC", "COM", "TLM"}}}
Spans(big) == {Stream(S, big) : S \in Lengths(Proper(big), big)}
(* of pictures for the one size, as if they were for the other *)
Otherwise == {Stream([S EXCEPT ![2].v[3] = w, ![2].v[7] = w], FALSE) : S \in {Proper(FALSE)}, w \in {1, 1998, 2048, 2049, 2147483647}}
             \union {Stream([S EXCEPT ![2].v[3] = w, ![2].v[7] = w], TRUE) : S \in {Proper(TRUE)}, w \in {2048, 2049, 3996, 2147483647}}
All == UNION {Whole(big) \union Ends(Stream(Full(big), big)) \union Spans(big) : big \in BOOLEAN} \union Otherwise
Cases == LET s == SetToSeq(All) IN [i \in DOMAIN s |-> [b |-> s[i]]]
ASSUME ndJsonSerialize(IOEnv.OUT, Cases)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
