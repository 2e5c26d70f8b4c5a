------------------------------ MODULE LocalTime ------------------------------
(* Timestamps: civil (proleptic Gregorian) time with a displacement from UTC.

   A timestamp is <<year, month, day, hour, minute, second, millisecond, off>> with off the displacement in
   minutes (local time = UTC + off).  An instant on the UTC time line is <<day number, millisecond of day>>;
   keeping the two apart keeps every number within 32 bits.  Text is a sequence of character codes.  *)
EXTENDS Integers, Sequences

MsPerMinute == 60000
MsPerDay == 86400000

---------------------------------------------------------------------------
(* The calendar *)

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0

DaysInMonth(y, m) ==
  CASE m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
    [] m \in {4, 6, 9, 11} -> 30
    [] OTHER -> 31

ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysInMonth(y, m)
ValidTime(h, mi, s) == h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59

(* Number of days since 1 March of year 0 *)
DayNumber(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      mp == (m + 9) % 12
  IN  365 * yy + yy \div 4 - yy \div 100 + yy \div 400 + (153 * mp + 2) \div 5 + d - 1

Epoch == DayNumber(1970, 1, 1)

(* Its inverse: <<year, month, day>> *)
CivilFromDay(n) ==
  LET era == n \div 146097
      doe == n % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y   == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN  <<y, m, doy - (153 * mp + 2) \div 5 + 1>>

---------------------------------------------------------------------------
(* Timestamps and instants *)

Year(t) == t[1]
Month(t) == t[2]
Day(t) == t[3]
Off(t) == t[8]
Fields(t) == SubSeq(t, 1, 7)
WithOff(t, off) == Fields(t) \o <<off>>

MsOfDay(t) == ((t[4] * 60 + t[5]) * 60 + t[6]) * 1000 + t[7]

(* <<day, ms>> with ms possibly out of range, normalised *)
Norm(day, ms) == <<day + ms \div MsPerDay, ms % MsPerDay>>

FromLocal(day, ms, off) ==
  LET n == Norm(day, ms)
      c == CivilFromDay(n[1])
      s == n[2] \div 1000
  IN  <<c[1], c[2], c[3], s \div 3600, (s \div 60) % 60, s % 60, n[2] % 1000, off>>

Instant(t) == Norm(DayNumber(t[1], t[2], t[3]), MsOfDay(t) - t[8] * MsPerMinute)

InstantLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

(* <, <=, >, >=, ==, != *)
Compare(a, b) ==
  LET x == Instant(a)
      y == Instant(b)
  IN  <<InstantLess(x, y), ~InstantLess(y, x), InstantLess(y, x), ~InstantLess(x, y), x = y, x # y>>

---------------------------------------------------------------------------
(* Arithmetic *)

(* days (any sign) and milliseconds (any sign, less than 24 days' worth) *)
AddDayMs(t, days, ms) == FromLocal(DayNumber(t[1], t[2], t[3]) + days, MsOfDay(t) + ms, t[8])

AddDays(t, n) == AddDayMs(t, n, 0)

AddMinutes(t, n) == AddDayMs(t, n \div 1440, (n % 1440) * MsPerMinute)

(* The day of the month is kept, but not past the end of the resulting month; the last day of a month
   stays the last day. *)
AddMonths(t, n) ==
  LET total == t[1] * 12 + (t[2] - 1) + n
      y == total \div 12
      m == (total % 12) + 1
      last == DaysInMonth(y, m)
      d == IF t[3] = DaysInMonth(t[1], t[2]) \/ t[3] > last THEN last ELSE t[3]
  IN  <<y, m, d, t[4], t[5], t[6], t[7], t[8]>>

SecondsSinceEpoch(t) == <<DayNumber(t[1], t[2], t[3]) - Epoch, (t[4] * 60 + t[5]) * 60 + t[6]>>

---------------------------------------------------------------------------
(* Text *)

Zero == 48
Plus == 43
Minus == 45
Dot == 46
Colon == 58
CharT == 84
CharZ == 90

RECURSIVE Pad(_, _)
Pad(n, width) == IF width = 0 THEN <<>> ELSE Pad(n \div 10, width - 1) \o <<Zero + (n % 10)>>

Abs(x) == IF x < 0 THEN -x ELSE x

DateText(t) == Pad(t[1], 4) \o <<Minus>> \o Pad(t[2], 2) \o <<Minus>> \o Pad(t[3], 2)
HourMinuteText(t) == Pad(t[4], 2) \o <<Colon>> \o Pad(t[5], 2)
TimeText(t, withSecond, withMs) ==
  HourMinuteText(t) \o (IF withSecond THEN <<Colon>> \o Pad(t[6], 2) ELSE <<>>)
                    \o (IF withMs THEN <<Dot>> \o Pad(t[7], 3) ELSE <<>>)
ZoneText(off) == <<IF off < 0 THEN Minus ELSE Plus>> \o Pad(Abs(off) \div 60, 2) \o <<Colon>> \o Pad(Abs(off) % 60, 2)
Text(t, withMs, withZone) ==
  DateText(t) \o <<CharT>> \o TimeText(t, TRUE, withMs) \o (IF withZone THEN ZoneText(t[8]) ELSE <<>>)

IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(s, from, n) == \A i \in from..(from + n - 1) : IsDigit(s[i])
RECURSIVE Num(_, _, _)
Num(s, from, n) == IF n = 0 THEN 0 ELSE Num(s, from, n - 1) * 10 + (s[from + n - 1] - 48)

(* Number of digits in s from position i on *)
RECURSIVE DigitRun(_, _)
DigitRun(s, i) == IF i > Len(s) \/ ~IsDigit(s[i]) THEN 0 ELSE 1 + DigitRun(s, i + 1)

(* What reading a text must do: "accept" with the given value, "refuse", or "either" (if accepted, the
   value is the given one) for text of the right form whose fields are not a calendar date and time, or
   whose displacement is one that may or may not be supported. *)
Refuse == [verdict |-> "refuse", value |-> <<>>]

ParseZone(s, pos, t) ==
  IF pos > Len(s) \/ (pos = Len(s) /\ s[pos] = CharZ)
  THEN [verdict |-> "accept", value |-> t \o <<0>>]
  ELSE IF s[pos] \notin {Plus, Minus} \/ Len(s) # pos + 5 THEN Refuse
  ELSE IF ~AllDigits(s, pos + 1, 2) \/ ~AllDigits(s, pos + 4, 2) \/ s[pos + 3] # Colon THEN Refuse
  ELSE LET h == Num(s, pos + 1, 2)
           m == Num(s, pos + 4, 2)
           off == IF s[pos] = Minus THEN -(h * 60 + m) ELSE h * 60 + m
       IN  IF m > 59 \/ h > 14 THEN Refuse
           ELSE [verdict |-> IF off > 779 \/ off < -719 THEN "either" ELSE "accept", value |-> t \o <<off>>]

Parse(s) ==
  IF Len(s) < 19 THEN Refuse
  ELSE IF ~(AllDigits(s, 1, 4) /\ AllDigits(s, 6, 2) /\ AllDigits(s, 9, 2) /\ AllDigits(s, 12, 2) /\ AllDigits(s, 15, 2) /\ AllDigits(s, 18, 2))
       THEN Refuse
  ELSE IF ~(s[5] = Minus /\ s[8] = Minus /\ s[11] = CharT /\ s[14] = Colon /\ s[17] = Colon) THEN Refuse
  ELSE LET y == Num(s, 1, 4)   mo == Num(s, 6, 2)   d == Num(s, 9, 2)
           h == Num(s, 12, 2)  mi == Num(s, 15, 2)  sec == Num(s, 18, 2)
           hasFrac == Len(s) >= 20 /\ s[20] = Dot
           n == IF hasFrac THEN DigitRun(s, 21) ELSE 0
           ms == CASE n = 0 -> 0
                   [] n = 1 -> Num(s, 21, 1) * 100
                   [] n = 2 -> Num(s, 21, 2) * 10
                   [] OTHER -> Num(s, 21, 3)
           pos == IF hasFrac THEN 21 + n ELSE 20
           z == ParseZone(s, pos, <<y, mo, d, h, mi, sec, ms>>)
       IN  IF hasFrac /\ n = 0 THEN Refuse
           ELSE IF z.verdict = "accept" /\ ~(y >= 1400 /\ ValidDate(y, mo, d) /\ ValidTime(h, mi, sec))
                THEN [z EXCEPT !.verdict = "either"]
                ELSE z

(* Certificate times: YYMMDDhhmmss[Z] with years 1970-2069, or YYYYMMDDhhmmss[Z]; always UTC *)
AsnFields(s, yearDigits, year) ==
  LET p == yearDigits + 1
  IN  <<year, Num(s, p, 2), Num(s, p + 2, 2), Num(s, p + 4, 2), Num(s, p + 6, 2), Num(s, p + 8, 2), 0, 0>>
AsnUtc(s) == LET y == Num(s, 1, 2) IN AsnFields(s, 2, IF y < 70 THEN y + 2000 ELSE y + 1900)
AsnGeneralized(s) == AsnFields(s, 4, Num(s, 1, 4))
=============================================================================
