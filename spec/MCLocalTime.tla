----------------------------- MODULE MCLocalTime -----------------------------
(* Properties of the timestamp model itself.

   kind "day":   walk through the calendar a day at a time, from the first day of each year in Years, checking
                 that day numbers count days and that the conversion is a bijection.
   kind "stamp": every combination of boundary dates, times and displacements: text round trips.
   kind "pair":  every pair of a smaller set: the comparisons are a total order that does not see the zone.
   kind "calc":  every start and every addition: elapsed time, clamping, inverses. *)
EXTENDS LocalTime, FiniteSets, TLC

(* Values for the constants (see the .cfg files) *)
MCYears == {1400, 1500, 1600, 1700, 1899, 1900, 1904, 1970, 1999, 2000, 2001, 2024, 2069, 2100, 2400, 9998}
MCYearsAll == 1400..9998
MCDates == {<<1400, 1, 2>>, <<1899, 12, 31>>, <<1900, 2, 28>>, <<1970, 1, 1>>, <<1999, 12, 31>>, <<2000, 2, 29>>, <<2000, 3, 1>>,
            <<2001, 2, 28>>, <<2023, 4, 30>>, <<2024, 1, 31>>, <<2024, 2, 29>>, <<2024, 12, 31>>, <<2100, 2, 28>>, <<9998, 12, 30>>}
MCTimes == {<<0, 0, 0, 0>>, <<23, 59, 59, 999>>, <<9, 5, 7, 1>>, <<12, 30, 30, 10>>, <<10, 0, 59, 100>>}
MCOffs == {0, 1, 29, 30, 59, 60, 61, 330, 719, 720, 779, -1, -30, -59, -60, -61, -90, -479, -570, -660, -719}
MCPairDates == {<<1999, 12, 31>>, <<2000, 1, 1>>, <<2000, 2, 29>>, <<2000, 3, 1>>}
MCPairTimes == {<<0, 0, 0, 0>>, <<0, 30, 0, 0>>, <<23, 59, 59, 999>>, <<12, 0, 0, 1>>}
MCPairOffs == {0, 30, 60, 779, -30, -90, -719}
MCAmounts == {0, 1, -1, 2, 11, 12, -12, 13, 27, 59, -59, 365, -366, 400}

CONSTANTS Years, Dates, Times, Offs, PairDates, PairTimes, PairOffs, Amounts

VARIABLES kind, t, u, n
vars == <<kind, t, u, n>>

Stamps(D, T, O) == { d \o x \o <<o>> : d \in D, x \in T, o \in O }

Init ==
  \/ kind = "day" /\ t \in { <<y, 1, 1, 0, 0, 0, 0, 0>> : y \in Years } /\ u = t /\ n = 0
  \/ kind = "stamp" /\ t \in Stamps(Dates, Times, Offs) /\ u = t /\ n = 0
  \/ kind = "pair" /\ t \in Stamps(PairDates, PairTimes, PairOffs) /\ u \in Stamps(PairDates, PairTimes, PairOffs) /\ n = 0
  \/ kind = "calc" /\ t \in Stamps(Dates, {<<23, 59, 59, 999>>, <<0, 0, 0, 0>>}, {0, -150}) /\ u = t /\ n \in Amounts

Next == kind = "day" /\ t[2] * 100 + t[3] < 1231 /\ t' = AddDays(t, 1) /\ u' = t /\ UNCHANGED <<kind, n>>

Spec == Init /\ [][Next]_vars

(* An independent count of the days before a year and before a month *)
DaysBeforeMonth(y, m) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
DaysBeforeYear(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400

CalendarOK ==
  kind = "day" =>
    /\ ValidDate(t[1], t[2], t[3])
    /\ DayNumber(t[1], t[2], t[3]) - DayNumber(1970, 1, 1) =
         DaysBeforeYear(t[1]) + DaysBeforeMonth(t[1], t[2]) + t[3] - (DaysBeforeYear(1970) + 1)
    /\ CivilFromDay(DayNumber(t[1], t[2], t[3])) = <<t[1], t[2], t[3]>>
    /\ (u # t => DayNumber(t[1], t[2], t[3]) = DayNumber(u[1], u[2], u[3]) + 1)

(* Every text written with its zone is read back as what was written *)
TextOK ==
  kind = "stamp" =>
    /\ Parse(Text(t, TRUE, TRUE)) = [verdict |-> "accept", value |-> t]
    /\ Parse(Text(t, FALSE, TRUE)) = [verdict |-> "accept", value |-> [t EXCEPT ![7] = 0]]
    /\ Parse(Text(t, TRUE, FALSE)) = [verdict |-> "accept", value |-> [t EXCEPT ![8] = 0]]
    /\ Parse(Text(t, TRUE, FALSE) \o <<CharZ>>) = [verdict |-> "accept", value |-> [t EXCEPT ![8] = 0]]
    (* and every proper prefix that does not end in a complete field is refused or is another valid form *)
    /\ \A i \in 0..18 : Parse(SubSeq(Text(t, TRUE, TRUE), 1, i)).verdict = "refuse"
    /\ Parse(Text(t, TRUE, TRUE) \o <<CharZ>>).verdict = "refuse"
    /\ FromLocal(DayNumber(t[1], t[2], t[3]), MsOfDay(t), t[8]) = t

OrderOK ==
  kind = "pair" =>
    LET c == Compare(t, u)
        r == Compare(u, t)
    IN  /\ Cardinality({i \in {1, 3, 5} : c[i]}) = 1
        /\ c[2] = (c[1] \/ c[5]) /\ c[4] = (c[3] \/ c[5]) /\ c[6] = ~c[5]
        /\ c[1] = r[3] /\ c[2] = r[4] /\ c[5] = r[5]
        (* moving both to another zone changes nothing *)
        /\ LET i == Instant(t) IN Compare(FromLocal(i[1], i[2], 0), WithOff(FromLocal(i[1], i[2] + 90 * MsPerMinute, 0), 90))[5]

CalcOK ==
  kind = "calc" =>
    /\ AddDays(AddDays(t, n), -n) = t
    /\ AddMinutes(AddMinutes(t, n), -n) = t
    /\ AddMinutes(t, n * 1440) = AddDays(t, n)
    /\ LET a == AddMonths(t, n)
       IN  /\ ValidDate(a[1], a[2], a[3])
           /\ a[1] * 12 + a[2] = t[1] * 12 + t[2] + n
           /\ SubSeq(a, 4, 8) = SubSeq(t, 4, 8)
           /\ (t[3] <= 27 => a[3] = t[3])
           /\ (a[3] < t[3] => a[3] = DaysInMonth(a[1], a[2]))

ASSUME OrderedTriples ==
  \A a, b, c \in Stamps(PairDates, {<<23, 59, 59, 999>>, <<0, 0, 0, 0>>}, {0, -719, 779}) :
    Compare(a, b)[1] /\ Compare(b, c)[2] => Compare(a, c)[1]
=============================================================================
