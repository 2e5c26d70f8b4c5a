---------------------------- MODULE GenLocalTime ----------------------------
(* Cases for the driver, enumerated from the specification: one JSON object per line in IOEnv.OUT.
   What is "interesting" is taken from the case analysis of the model: ends of months, leap days, century
   years, displacements around zero and at the ends of their range, every production of the grammar of texts
   and every single-character damage to them. *)
EXTENDS MCLocalTime, SequencesExt, Json, IOUtils

Stamp8(d, x, o) == d \o x \o <<o>>
SomeStamps == { Stamp8(d, x, o) : d \in {<<2000, 2, 29>>, <<1999, 12, 31>>}, x \in {<<23, 59, 59, 999>>, <<0, 0, 0, 0>>}, o \in {0, -30, 330} }

(* every stamp of the design check *)
MakeCases == { [k |-> "make", t |-> tt] : tt \in Stamps(MCDates, MCTimes, MCOffs) }

(* texts: every combination of fraction and zone *)
Fracs == { <<>>, <<46>>, <<46, 53>>, <<46, 48, 53>>, <<46, 48, 48, 53>>, <<46, 57, 57, 57>>, <<46, 49, 50, 51, 52>>, <<46, 57, 57, 57, 57, 57, 57>>, <<46, 48>>,
           <<46, 49, 120>>, <<46, 43>>, <<44, 53>>, <<46, 53, 32>>, <<46, 46, 53>>, <<46, 45, 53>> }
Zones == { <<>>, <<90>>, <<122>>, <<90, 90>>, <<90, 43, 48, 49, 58, 48, 48>>, <<43>>, <<43, 48, 49>>, <<43, 48, 49, 48, 48>>, <<43, 48, 49, 45, 48, 48>>,
           <<43, 48, 49, 58, 48>>, <<43, 48, 49, 58, 48, 48, 48>>, <<43, 48, 49, 58, 54, 48>>, <<43, 43, 49, 58, 48, 48>>, <<43, 48, 49, 58, 43, 49>>, <<45, 49, 58, 48, 48>> }
         \union { ZoneText(o) : o \in MCOffs \union {780, 840, -720, -780} } \union { <<45, 48, 48, 58, 48, 48>> }
Base == DateText(<<2013, 1, 5>>) \o <<CharT>> \o TimeText(<<2013, 1, 5, 18, 6, 59, 0>>, TRUE, FALSE)
GrammarTexts == { Base \o f \o z : f \in Fracs, z \in Zones }

(* single-character damage at every place of a full text *)
Full == Text(<<2013, 11, 25, 18, 46, 59, 123, -570>>, TRUE, TRUE)
Chars == { 43, 45, 32, 48, 57, 58, 46, 84, 90, 120, 116, 47 }
Damaged ==
  { [Full EXCEPT ![i] = c] : i \in 1..Len(Full), c \in Chars }
  \union { SubSeq(Full, 1, i - 1) \o SubSeq(Full, i + 1, Len(Full)) : i \in 1..Len(Full) }
  \union { SubSeq(Full, 1, i) \o <<c>> \o SubSeq(Full, i + 1, Len(Full)) : i \in 0..Len(Full), c \in {48, 45, 90, 32} }
  \union { SubSeq(Full, 1, i) : i \in 0..Len(Full) }
FieldTexts == { Text(<<y, m, d, h, mi, s, 0, 60>>, FALSE, TRUE) : y \in {0, 1399, 1400, 9999}, m \in {0, 1, 2, 12, 13}, d \in {0, 1, 28, 29, 30, 31, 32}, h \in {0, 23, 24}, mi \in {0, 59, 60}, s \in {0, 59, 60} }
ParseCases == { [k |-> "parse", s |-> s] : s \in GrammarTexts \union Damaged \union FieldTexts }

(* every pair of the design check's pair set that differs somewhere near *)
CmpStamps == Stamps(MCPairDates \ {<<2000, 1, 1>>}, MCPairTimes, {0, 30, 60, -30, -719})
CmpCases == { [k |-> "cmp", a |-> a, b |-> b] : a \in CmpStamps, b \in CmpStamps }
(* the same instant, or one millisecond to one day apart, in two zones *)
Near == { <<0, 0>>, <<0, 1>>, <<0, 1000>>, <<0, 60000>>, <<0, 1800000>>, <<0, 3600000>>, <<1, 0>>, <<31, 0>>, <<366, 0>> }
NearCases == { [k |-> "cmp", a |-> tt, b |-> LET i == Instant(tt) IN WithOff(FromLocal(i[1] + nn[1], i[2] + nn[2] + o * MsPerMinute, 0), o)] :
                 tt \in Stamps({<<1999, 12, 31>>, <<2000, 2, 28>>}, MCTimes, {0, -30, 330, 779}), nn \in Near, o \in {0, 30, 60, -30, -90, -719, 779} }

(* all scripts of two additions *)
AddOps == { <<"add_days", nn>> : nn \in {1, -1, 28, 366} } \union { <<"add_months", nn>> : nn \in {0, 1, -1, 11, -12, 13} }
          \union { <<"add_minutes", nn>> : nn \in {1, -1, 1440, -1441} } \union { <<"set_offset", nn>> : nn \in {-30, 60} }
Starts == { Stamp8(d, x, o) : d \in {<<1900, 2, 28>>, <<1999, 12, 31>>, <<2000, 2, 29>>, <<2023, 4, 30>>, <<2024, 1, 31>>}, x \in {<<0, 0, 0, 0>>, <<23, 59, 59, 999>>}, o \in {0, -90} }
CalcCases == { [k |-> "calc", t |-> tt, ops |-> <<p, q>>] : tt \in Starts, p \in AddOps, q \in AddOps }

Cases == CASE IOEnv.WHAT = "C01" -> MakeCases \union ParseCases
           [] IOEnv.WHAT = "C02" -> CmpCases \union NearCases
           [] IOEnv.WHAT = "C03" -> CalcCases

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))

GInit == kind = "" /\ t = <<>> /\ u = <<>> /\ n = 0
GNext == FALSE /\ UNCHANGED vars
=============================================================================
