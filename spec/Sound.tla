-------------------------------- MODULE Sound --------------------------------
(* A sound track file.  Samples are written a row (one sample of every channel) at a time, in calls of any length; the
   file holds them in edit units of equal length, of which the last is filled up with silence.  *)
EXTENDS Integers, Sequences, FiniteSets

Top == 8388607
Bottom == -8388608

AbsS(x) == IF x < 0 THEN -x ELSE x
(* rows in an edit unit: enough to last as long as it does *)
UnitLength(sampling, num, den) == (sampling * den + num - 1) \div num
Units(rows, length) == (rows + length - 1) \div length

(* what may be stored for an integer sample: itself, or the nearest that 24 bits can hold *)
OfInteger(n) == {IF n > Top THEN Top ELSE IF n < Bottom THEN Bottom ELSE n}
(* ... and for the number n / 2^24, full scale being 1: the nearest, a half going away from zero.  The most negative
   value has no positive counterpart and need not be used.  *)
Halved(n) == IF n < 0 THEN -((AbsS(n) + 1) \div 2) ELSE (n + 1) \div 2
OfReal(n) == IF n > 2 * Top THEN {Top} ELSE IF n < -(2 * Top) THEN {Bottom, Bottom + 1} ELSE {Halved(n)}

(* The row that is stored for the values given, which may be fewer than the channels there are *)
Row(values, kind, channels) == [c \in 1..channels |-> IF c > Len(values) THEN {0} ELSE IF kind = "i" THEN OfInteger(values[c]) ELSE OfReal(values[c])]

(* ---- labels *)
Left == 0
BSL == 10
BSR == 11
Always == 0..5
Labelled == {6, 7, BSL, BSR}
SoundField(extra) == IF BSL \in extra \/ BSR \in extra THEN "sg71" ELSE "sg51"
Symbol(c, field) ==
  CASE c = 0 -> "chL" [] c = 1 -> "chR" [] c = 2 -> "chC" [] c = 3 -> "chLFE"
    [] c = 4 -> IF field = "sg51" THEN "chLs" ELSE "chLss"
    [] c = 5 -> IF field = "sg51" THEN "chRs" ELSE "chRss"
    [] c = 6 -> "chHI" [] c = 7 -> "chVIN" [] c = BSL -> "chLrs" [] c = BSR -> "chRrs"
Name(c, field) ==
  CASE c = 0 -> "Left" [] c = 1 -> "Right" [] c = 2 -> "Center" [] c = 3 -> "LFE"
    [] c = 4 -> IF field = "sg51" THEN "Left Surround" ELSE "Left Side Surround"
    [] c = 5 -> IF field = "sg51" THEN "Right Surround" ELSE "Right Side Surround"
    [] c = 6 -> "Hearing Impaired" [] c = 7 -> "Visually Impaired-Narrative" [] c = BSL -> "Left Rear Surround" [] c = BSR -> "Right Rear Surround"
Labels(channels, extra) == {c \in Always \union extra : c < channels}

(* ---- the synchronisation track: 4 packets go by while the identifier of the sound goes by once, a quarter in each *)
RateCode(rate) == CASE rate = 24 -> 0 [] rate = 25 -> 1 [] rate = 30 -> 2 [] rate = 48 -> 3 [] rate = 50 -> 4 [] rate = 60 -> 5
                    [] rate = 96 -> 6 [] rate = 100 -> 7 [] rate = 120 -> 8
PacketsIn(rate) == IF rate <= 30 THEN 4 ELSE IF rate <= 60 THEN 2 ELSE 1
SyncRates == {24, 25, 30, 48, 50, 60, 96, 100, 120}
(* bits in a packet: four samples each, and the packets fill the edit unit *)
PacketBits(rate) == 48000 \div (rate * PacketsIn(rate) * 4)
(* which quarter of the identifier the p-th packet (from 0) of an edit unit (from 0) carries *)
Quarter(rate, unit, p) == (unit * PacketsIn(rate) + p) % 4
=============================================================================
