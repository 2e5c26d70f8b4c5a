----------------------------- MODULE MCTimecode -----------------------------
(* Adding and subtracting column by column with one carry each, as one does on paper, gives the exact answer for
   canonical times; order, change of rate and unit counts fit together.  *)
EXTENDS Timecode

CONSTANTS Rates, Columns, Hours

VARIABLES a, b, q
vars == <<a, b, q>>

Times == UNION { [h : Hours, m : Columns, s : Columns, e : 0..(r - 1), tcr : {r}] : r \in Rates }
None == [h |-> 0, m |-> 0, s |-> 0, e |-> 0, tcr |-> 1]

Init == a = None /\ b = None /\ q = 0
Next == \/ q = 0 /\ \E t \in Times : a' = t /\ q' = -1 /\ UNCHANGED b
        \/ q = -1 /\ \E t \in Times : b' = t /\ q' = -2 /\ UNCHANGED a
        \/ q = -2 /\ q' \in Rates /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars

(* ---- on paper *)
OnPaper(x, y, sign) ==
  LET d == Denominator(x, y)
      col(v, base) == IF v >= base THEN <<v - base, 1>> ELSE IF v < 0 THEN <<v + base, -1>> ELSE <<v, 0>>
      e == col(Scaled(x, d) + sign * Scaled(y, d), d)
      s == col(x.s + sign * y.s + e[2], 60)
      m == col(x.m + sign * y.m + s[2], 60)
  IN  [h |-> x.h + sign * y.h + m[2], m |-> m[1], s |-> s[1], e |-> e[1], tcr |-> d]

Sum == OnPaper(a, b, 1)
Difference == OnPaper(a, b, -1)
Ready == q = -2
SumExact == Ready => IsSum(a, b, Sum)
DifferenceExact == Ready /\ ~Before(a, b) => IsDifference(a, b, Difference)
Undone == Ready => SameTime(OnPaper(Sum, b, -1), a)
Trichotomy == Ready => (Before(a, b) /\ ~SameTime(a, b) /\ ~Before(b, a)) \/ (~Before(a, b) /\ SameTime(a, b) /\ ~Before(b, a)) \/ (~Before(a, b) /\ ~SameTime(a, b) /\ Before(b, a))
Monotone == Ready => (b.e = 0 /\ Secs(b) = 0) \/ Before(a, Sum)
(* a nearest time exists at every rate, and going to a multiple of the rate loses nothing *)
Rebased == q > 0 => LET near == { t \in [h : {a.h, a.h + 1}, m : {a.m, (a.m + 1) % 60}, s : {a.s, (a.s + 1) % 60}, e : 0..(q - 1), tcr : {q}] : IsRebase(a, q, t) }
                    IN  near # {} /\ ((q % a.tcr) = 0 => \A t \in near : SameTime(t, a))
Counted == q > 0 => UnitsFloor(a, q) <= UnitsCeil(a, q) /\ UnitsCeil(a, q) - UnitsFloor(a, q) <= 1 /\ (a.tcr = q => UnitsFloor(a, q) = Units(a) /\ UnitsCeil(a, q) = Units(a))
ReadBack == Ready /\ a.tcr <= 999 => Parsed(Written(a, FALSE), a.tcr) = [k |-> "ok", t |-> a]
=============================================================================
