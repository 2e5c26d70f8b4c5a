----------------------------- MODULE Codestream -----------------------------
(* JPEG2000 codestreams (ITU-T T.800) as they are to be in a digital cinema package, byte by byte, and what is wrong with one.

   Numbers are kept as <<high, low>>, the low part being 16 bits, since some have 32 bits without a sign. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Min2(a, b) == IF a < b THEN a ELSE b
Small(n) == <<n \div 65536, n % 65536>>
Number(b, p, s) ==
  IF s = 1 THEN <<0, b[p]>> ELSE IF s = 2 THEN <<0, (b[p] * 256) + b[p + 1]>>
  ELSE <<(b[p] * 256) + b[p + 1], (b[p + 2] * 256) + b[p + 3]>>
Above(v, n) == v[1] > n \div 65536 \/ (v[1] = n \div 65536 /\ v[2] > n % 65536)

Markers == [SOC |-> 79, SIZ |-> 81, COD |-> 82, COC |-> 83, TLM |-> 85, QCD |-> 92, QCC |-> 93, POC |-> 95, COM |-> 100, SOT |-> 144, SOD |-> 147, EOC |-> 217]
Named(x) == {m \in DOMAIN Markers : Markers[m] = x}

(* What is in each kind of segment: the name of a field, its bytes, what kind of thing it is and what it should be.
     must: anything else and this is no codestream for a cinema;  tell: anything else is remarked on;  free: as it likes;
     len: the length of a segment whose extent is known anyway;  span: the length of one whose extent is not;
     poc: part of a progression order change *)
F(n, s, k, w) == [n |-> n, s |-> s, k |-> k, w |-> w]
Precincts(big) == <<F("precinct", 1, "must", 119)>> \o [i \in 1 .. (IF big THEN 6 ELSE 5) |-> F("precinct", 1, "must", 136)]
Levels(big) == IF big THEN 6 ELSE 5
Layout(m, big) ==
  CASE m = "SIZ" ->
       <<F("Lsiz", 2, "must", 47), F("Rsiz", 2, "tell", IF big THEN 4 ELSE 3), F("Xsiz", 4, "free", 0), F("Ysiz", 4, "free", 0), F("XOsiz", 4, "must", 0),
         F("YOsiz", 4, "must", 0), F("XTsiz", 4, "free", 0), F("YTsiz", 4, "tile", 0), F("XTOsiz", 4, "must", 0), F("YTOsiz", 4, "must", 0), F("Csiz", 2, "must", 3)>>
       \o [i \in 1 .. 9 |-> F("component", 1, "must", IF i % 3 = 1 THEN 11 ELSE 1)]
    [] m = "SOT" -> <<F("Lsot", 2, "must", 10), F("Isot", 2, "free", 0), F("Psot", 4, "part", 0), F("TPsot", 1, "free", 0), F("TNsot", 1, "tell", IF big THEN 6 ELSE 3)>>
    [] m = "COD" ->
       <<F("Lcod", 2, "len", IF big THEN 19 ELSE 18), F("Scod", 1, "must", 1), F("order", 1, "must", 4), F("layers", 2, "must", 1), F("mct", 1, "must", 1),
         F("levels", 1, "must", Levels(big)), F("width", 1, "tell", 3), F("height", 1, "tell", 3), F("style", 1, "must", 0), F("wavelet", 1, "must", 0)>> \o Precincts(big)
    [] m = "COC" ->
       <<F("Lcoc", 2, "len", IF big THEN 16 ELSE 15), F("Ccoc", 1, "upto", 2), F("Scoc", 1, "must", 1), F("levels", 1, "must", Levels(big)), F("width", 1, "must", 3),
         F("height", 1, "must", 3), F("style", 1, "must", 0), F("wavelet", 1, "must", 0)>> \o Precincts(big)
    [] m = "QCD" -> <<F("Lqcd", 2, "span", 0), F("Sqcd", 1, "guard", IF big THEN 2 ELSE 1)>>
    [] m \in {"TLM", "QCC", "COM"} -> <<F("length", 2, "span", 0)>>
    [] m = "POC" ->
       <<F("Lpoc", 2, "poc", 16), F("RS", 1, "poc", 0), F("CS", 1, "poc", 0), F("LYE", 2, "poc", 1), F("RE", 1, "poc", 6), F("CE", 1, "poc", 3), F("P", 1, "poc", 4),
         F("RS", 1, "poc", 6), F("CS", 1, "poc", 0), F("LYE", 2, "poc", 1), F("RE", 1, "poc", 7), F("CE", 1, "poc", 3), F("P", 1, "poc", 4)>>
    [] OTHER -> <<>>

(* A remark: what it is, the number in it, the frame that it names and, of a part that is too big, its size *)
Any == -1
Remark(c, v) == [c |-> c, v |-> v, f |-> Any, z |-> <<0, 0>>]
Side(v) == IF v > 8 THEN Any ELSE 4 * 2^v
Told(f, v, big) ==
  CASE f.n = "Rsiz" -> Remark(IF big THEN "INVALID_JPEG2000_RSIZ_FOR_4K" ELSE "INVALID_JPEG2000_RSIZ_FOR_2K", v)
    [] f.n = "TNsot" -> Remark(IF big THEN "INVALID_JPEG2000_TILE_PARTS_FOR_4K" ELSE "INVALID_JPEG2000_TILE_PARTS_FOR_2K", v)
    [] f.n = "width" -> Remark("INVALID_JPEG2000_CODE_BLOCK_WIDTH", Side(v))
    [] f.n = "height" -> Remark("INVALID_JPEG2000_CODE_BLOCK_HEIGHT", Side(v))
Invalid(frame) == [c |-> "INVALID_JPEG2000_CODESTREAM", v |-> 0, f |-> frame, z |-> <<0, 0>>]
TooBig(rate) == 25000000 \div rate

(* One field at p: whether it is as it must be, and what there is to remark on *)
Wrong(f, v) == (f.k = "must" /\ v # Small(f.w)) \/ (f.k = "upto" /\ Above(v, f.w))
Said(c, b, f, v, p) ==
  CASE f.k = "tell" -> IF v = Small(f.w) THEN {} ELSE {Told(f, v[2], c.big)}
    [] f.k = "guard" -> LET g == v[2] \div 32 IN IF g = f.w THEN {} ELSE {Remark(IF c.big THEN "INVALID_JPEG2000_GUARD_BITS_FOR_4K" ELSE "INVALID_JPEG2000_GUARD_BITS_FOR_2K", g)}
    [] f.k = "tile" -> IF SubSeq(b, p - 4, p + 3) = SubSeq(b, p - 20, p - 13) THEN {} ELSE {Remark("INVALID_JPEG2000_TILE_SIZE", 0)}
    [] f.k = "poc" -> IF v = Small(f.w) THEN {} ELSE {Remark("INCORRECT_JPEG2000_POC_MARKER", 0)}
    [] f.k = "part" -> IF Above(v, TooBig(c.rate)) /\ p + 4 <= Len(b)
                       THEN {[c |-> "INVALID_JPEG2000_TILE_PART_SIZE", v |-> b[p + 4], f |-> c.start + c.frame, z |-> v]} ELSE {}
    [] OTHER -> {}

(* The fields k, k + 1, ... of L from p: where they end, what is remarked, whether they are wrong and whether one was not as long as it says *)
RECURSIVE Fields(_, _, _, _, _)
Fields(c, b, L, k, s) ==
  IF k > Len(L) \/ s.bad THEN s
  ELSE IF s.p + L[k].s - 1 > Len(b) THEN [s EXCEPT !.bad = TRUE]
  ELSE LET v == Number(b, s.p, L[k].s)
       IN  Fields(c, b, L, k + 1, [p |-> s.p + L[k].s, said |-> s.said \union Said(c, b, L[k], v, s.p), bad |-> Wrong(L[k], v),
                                   open |-> s.open \/ (L[k].k = "len" /\ v # Small(L[k].w)), span |-> IF L[k].k = "span" THEN v[2] ELSE s.span])

Begin(p) == [p |-> p, said |-> {}, bad |-> FALSE, open |-> FALSE, span |-> 0]
(* Going over the rest of a segment that begins at p and has been read up to q *)
Skip(b, p, q, span) == IF p + span < q \/ p + span > Len(b) + 1 THEN 0 ELSE p + span
Segment(c, b, m, p) ==
  LET L == Layout(m, c.big)
      s == Fields(c, b, L, 1, Begin(p))
      q == Skip(b, p, s.p, s.span)
  IN  IF s.bad \/ L = <<>> \/ L[1].k # "span" THEN s
      ELSE IF q = 0 THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.p = q]

(* The picture data are over where there is a marker that may follow them *)
After(b, p) ==
  IF p > Len(b) THEN p ELSE
  LET m == {q \in p .. (Len(b) - 1) : b[q] = 255 /\ b[q + 1] >= 144} IN IF m = {} THEN Len(b) ELSE Min(m)

(* From the segment at p to the end; t counts those of each kind *)
RECURSIVE Rest(_, _, _, _)
Rest(c, b, p, t) ==
  IF p > Len(b) THEN [t EXCEPT !.done = TRUE]
  ELSE IF p = Len(b) \/ b[p] # 255 \/ Named(b[p + 1]) = {} \/ b[p + 1] = Markers.SIZ THEN t
  ELSE LET m == CHOOSE m \in Named(b[p + 1]) : TRUE
           s == Segment(c, b, m, p + 2)
       IN  IF s.bad THEN [t EXCEPT !.maybe = s.said, !.open = @ \/ s.open]
           ELSE Rest(c, b, IF m = "SOD" THEN After(b, p + 2) ELSE s.p,
                     [t EXCEPT !.said = @ \union s.said, !.open = @ \/ s.open, !.n = [@ EXCEPT ![m] = @ + 1],
                               !.late = @ + (IF m = "POC" /\ t.n["SOT"] > 0 THEN 1 ELSE 0)])

None == [said |-> {}, maybe |-> {}, open |-> FALSE, done |-> FALSE, late |-> 0, n |-> [m \in DOMAIN Markers |-> 0]]
AtEnd(c, t) ==
  LET early == t.n["POC"] - t.late
  IN  t.said \union (IF ~c.big /\ early # 0 THEN {Remark("INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_2K", early)} ELSE {})
      \union (IF c.big /\ early # 1 THEN {Remark("INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_4K", early)} ELSE {})
      \union (IF t.late # 0 THEN {Remark("INVALID_JPEG2000_POC_MARKER_LOCATION", 0)} ELSE {})
      \union (IF t.n["TLM"] = 0 THEN {Remark("MISSING_JPEG2000_TLM_MARKER", 0)} ELSE {})

(* What is to be said of the bytes b of a frame: what must be, and what may be since it comes just before something that is wrong.
   Open: a length that is not that of the segment.  Nothing is said of what comes after the first thing that is wrong. *)
Verdict(b, start, frame, rate) ==
  LET c == [big |-> Len(b) >= 12 /\ Above(Number(b, 9, 4), 2048), start |-> start, frame |-> frame, rate |-> rate]
      head == Len(b) >= 4 /\ SubSeq(b, 1, 4) = <<255, Markers.SOC, 255, Markers.SIZ>>
      size == Segment(c, b, "SIZ", 5)
      t == Rest(c, b, size.p, [None EXCEPT !.said = size.said])
      bad == {Invalid(start + frame)}
  IN  IF ~head THEN [must |-> bad, may |-> bad, open |-> FALSE]
      ELSE IF size.bad THEN [must |-> bad, may |-> bad \union size.said, open |-> FALSE]
      ELSE IF ~t.done \/ t.n["COD"] # 1 \/ t.n["QCD"] # 1 THEN [must |-> bad \union t.said, may |-> bad \union t.said \union t.maybe \union (IF t.done THEN AtEnd(c, t) ELSE {}), open |-> t.open]
      ELSE [must |-> AtEnd(c, t), may |-> AtEnd(c, t), open |-> t.open]

-----------------------------------------------------------------------------
(* Codestreams as they should be: a sequence of segments, each a marker, the numbers in it and what else there is *)
Part(m, v, rest) == [m |-> m, v |-> v, rest |-> rest]
Usual(m, big) == [i \in DOMAIN Layout(m, big) |-> Layout(m, big)[i].w]
Width(big) == IF big THEN 4096 ELSE 2048
Data == <<1, 255, 0, 255, 143, 7>>
Guards(big) == IF big THEN 64 ELSE 32
Parts(big) == IF big THEN 6 ELSE 3
OneOf(m, big) ==
  CASE m = "SIZ" -> Part(m, [Usual(m, big) EXCEPT ![3] = Width(big), ![4] = 1080, ![7] = Width(big), ![8] = 1080], <<>>)
    [] m = "QCD" -> Part(m, <<8, Guards(big)>>, <<1, 2, 3, 4, 5>>)
    [] m = "TLM" -> Part(m, <<6>>, <<0, 80, 0, 0>>)
    [] m = "QCC" -> Part(m, <<7>>, <<1, 32, 1, 2, 3>>)
    [] m = "COM" -> Part(m, <<6>>, <<0, 1, 104, 105>>)
    [] m = "SOD" -> Part(m, <<>>, Data)
    [] OTHER -> Part(m, Usual(m, big), <<>>)
Tile(i, big) == <<Part("SOT", <<10, 0, 20, i - 1, Parts(big)>>, <<>>), OneOf("SOD", big)>>
RECURSIVE Tiles(_, _)
Tiles(i, big) == IF i > Parts(big) THEN <<>> ELSE Tile(i, big) \o Tiles(i + 1, big)
Proper(big) ==
  <<OneOf("SOC", big), OneOf("SIZ", big), OneOf("COD", big), OneOf("QCD", big)>> \o (IF big THEN <<OneOf("POC", big)>> ELSE <<>>)
  \o <<OneOf("QCC", big), OneOf("COM", big), OneOf("TLM", big)>> \o Tiles(1, big) \o <<OneOf("EOC", big)>>

Encoded(v, s) ==
  IF s = 1 THEN <<v % 256>> ELSE IF s = 2 THEN <<(v \div 256) % 256, v % 256>> ELSE <<v \div 16777216, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Joined(Tail(s))
(* a segment with fewer or more numbers than it should have is one for the other size of picture *)
Written(x, big) ==
  <<255, IF x.m \in DOMAIN Markers THEN Markers[x.m] ELSE 96>> \o Joined([i \in DOMAIN x.v |-> Encoded(x.v[i], Layout(x.m, big)[i].s)]) \o x.rest
Stream(S, big) == Joined([i \in DOMAIN S |-> Written(S[i], big)])
=============================================================================
