--------------------------- MODULE MCCodestream ---------------------------
(* Reading bytes against what is known of the segments that they were made from *)
EXTENDS Flaws, TLC

VARIABLES big, S, n
vars == <<big, S, n>>
Init == big \in BOOLEAN /\ S = Proper(big) /\ n = 0
Next == n < 1 /\ S' \in Flawed(S, big) /\ n' = n + 1 /\ UNCHANGED big
Spec == Init /\ [][Next]_vars

Read(b) == Verdict(b, 100, 5, 24)
Now == Read(Stream(S, big))
IsBad(V) == Invalid(105) \in V.must
Count(m) == Cardinality({i \in DOMAIN S : S[i].m = m})
FirstTile == IF \E i \in DOMAIN S : S[i].m = "SOT" THEN Min({i \in DOMAIN S : S[i].m = "SOT"}) ELSE Len(S) + 1

(* by segments *)
FieldsOf(k) == UNION {{<<i, j>> : j \in {j \in DOMAIN S[i].v : Layout(S[i].m, big)[j].k = k}} : i \in DOMAIN S}
Value(x) == S[x[1]].v[x[2]]
Want(x) == Layout(S[x[1]].m, big)[x[2]].w
Flawless ==
  /\ Len(S) >= 2 /\ S[1].m = "SOC" /\ S[2].m = "SIZ" /\ S[Len(S)].m # "SOD"
  /\ Count("SIZ") = 1 /\ Count("COD") = 1 /\ Count("QCD") = 1 /\ Count("PPM") = 0
  /\ \A x \in FieldsOf("must") : Value(x) = Want(x)
  /\ \A x \in FieldsOf("upto") : Value(x) <= Want(x)
Codes ==
  (IF \E x \in FieldsOf("tell") : S[x[1]].m = "SIZ" /\ Value(x) # Want(x) THEN {"RSIZ"} ELSE {})
  \union (IF \E x \in FieldsOf("tell") : S[x[1]].m = "SOT" /\ Value(x) # Want(x) THEN {"PARTS"} ELSE {})
  \union (IF \E i \in DOMAIN S : S[i].m = "COD" /\ S[i].v[7] # 3 THEN {"WIDTH"} ELSE {})
  \union (IF \E i \in DOMAIN S : S[i].m = "COD" /\ S[i].v[8] # 3 THEN {"HEIGHT"} ELSE {})
  \union (IF \E i \in DOMAIN S : S[i].m = "QCD" /\ S[i].v[2] \div 32 # Parts(big) \div 3 THEN {"GUARD"} ELSE {})
  \union (IF \E i \in DOMAIN S : S[i].m = "SIZ" /\ <<S[i].v[3], S[i].v[4]>> # <<S[i].v[7], S[i].v[8]>> THEN {"TILE"} ELSE {})
  \union (IF \E x \in FieldsOf("part") : Value(x) > 1041666 THEN {"SIZE"} ELSE {})
  \union (IF \E x \in FieldsOf("poc") : Value(x) # Want(x) THEN {"POC"} ELSE {})
  \union (IF Cardinality({i \in 1 .. (FirstTile - 1) : S[i].m = "POC"}) # (IF big THEN 1 ELSE 0) THEN {"POCS"} ELSE {})
  \union (IF \E i \in DOMAIN S : i > FirstTile /\ S[i].m = "POC" THEN {"LATE"} ELSE {})
  \union (IF Count("TLM") = 0 THEN {"TLM"} ELSE {})
Short(c) ==
  CASE c \in {"INVALID_JPEG2000_RSIZ_FOR_2K", "INVALID_JPEG2000_RSIZ_FOR_4K"} -> "RSIZ"
    [] c \in {"INVALID_JPEG2000_TILE_PARTS_FOR_2K", "INVALID_JPEG2000_TILE_PARTS_FOR_4K"} -> "PARTS"
    [] c = "INVALID_JPEG2000_CODE_BLOCK_WIDTH" -> "WIDTH" [] c = "INVALID_JPEG2000_CODE_BLOCK_HEIGHT" -> "HEIGHT"
    [] c \in {"INVALID_JPEG2000_GUARD_BITS_FOR_2K", "INVALID_JPEG2000_GUARD_BITS_FOR_4K"} -> "GUARD"
    [] c = "INVALID_JPEG2000_TILE_SIZE" -> "TILE" [] c = "INVALID_JPEG2000_TILE_PART_SIZE" -> "SIZE" [] c = "INCORRECT_JPEG2000_POC_MARKER" -> "POC"
    [] c \in {"INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_2K", "INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_4K"} -> "POCS"
    [] c = "INVALID_JPEG2000_POC_MARKER_LOCATION" -> "LATE" [] c = "MISSING_JPEG2000_TLM_MARKER" -> "TLM" [] OTHER -> "BAD"

(* picture data that follow a header, with no SOD between them, may be anything *)
Ambiguous == \E i \in DOMAIN S : (S[i].m = "SOD" /\ (i = 1 \/ S[i - 1].m # "SOT")) \/ (S[i].m = "SOT" /\ (i = Len(S) \/ S[i + 1].m # "SOD"))
Clean == n = 0 => Now = [must |-> {}, may |-> {}, open |-> FALSE]
Agrees == ~Ambiguous => /\ IsBad(Now) <=> ~Flawless
                        /\ Flawless => {Short(x.c) : x \in Now.must} = Codes /\ Now.may = Now.must
(* however little of it is there, a segment that is not all there is noticed *)
Ends == {Len(Stream(SubSeq(S, 1, i), big)) : i \in DOMAIN S} \union {Len(Stream(SubSeq(S, 1, i), big)) + 2 : i \in {i \in DOMAIN S : i < Len(S) /\ S[i + 1].m = "SOD"}}
Cut == n = 0 => LET b == Stream(S, big) IN \A k \in (0 .. (Len(b) - 1)) \ Ends : IsBad(Read(SubSeq(b, 1, k)))

(* what was done before: the end of a segment is not looked for (see MCCodestreamUnchecked.cfg) *)
Anywhere(b, p, q, span) == p + span
=============================================================================
