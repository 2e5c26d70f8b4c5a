------------------------------- MODULE Flaws -------------------------------
(* Ways in which a codestream may be other than it should be *)
EXTENDS Codestream

(* the numbers that a field might have instead *)
Others(f, big) ==
  CASE f.k = "free" /\ f.s = 4 -> {}
    [] f.k = "part" -> {0, 1, 416667, 1041666, 1041667, 2147483647}
    [] f.k = "span" -> {}
    [] f.k = "guard" -> {0, 32, 63, 64, 96, 224, 255}
    [] f.k = "len" -> {}
    [] f.k = "tile" -> {1, 1079, 1081}
    [] f.k = "upto" -> {1, 2, 3, 255}
    [] OTHER -> {0, 1, 2, 3, 4, 5, 6, 7, 255} \union (IF f.s > 1 THEN {256, 259, 260, 512} ELSE {})
Changed(S, big) ==
  UNION {UNION {{[S EXCEPT ![i].v[k] = x] : x \in Others(Layout(S[i].m, big)[k], big) \ {S[i].v[k]}} : k \in DOMAIN S[i].v} : i \in DOMAIN S}
Without(S, i) == SubSeq(S, 1, i - 1) \o SubSeq(S, i + 1, Len(S))
With(S, i, x) == SubSeq(S, 1, i) \o <<x>> \o SubSeq(S, i + 1, Len(S))
Dropped(S) == {Without(S, i) : i \in DOMAIN S}
(* segments begin after the data, so that what is put in after them is not taken for some of them *)
More(big) == {OneOf(m, big) : m \in {"COD", "COC", "QCD", "QCC", "POC", "COM", "TLM", "SIZ", "SOC", "EOC"}} \union {Part("PPM", <<>>, <<0, 3, 0>>)}
Inserted(S, big) == UNION {{With(S, i, x) : x \in More(big)} : i \in {i \in 2 .. Len(S) : S[i].m # "SOD"}}
Flawed(S, big) == Changed(S, big) \union Dropped(S) \union Inserted(S, big)
=============================================================================
