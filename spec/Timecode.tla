------------------------------ MODULE Timecode ------------------------------
(* Times within a film: hours, minutes, seconds and editable units, of which there are tcr in a second.
   A time denotes a number of seconds; everything here is exact.  *)
EXTENDS Integers, Sequences, Text, Bigs

Canonical(t) == t.h >= 0 /\ t.m \in 0..59 /\ t.s \in 0..59 /\ t.e >= 0 /\ t.e < t.tcr /\ t.tcr > 0
Secs(t) == (t.h * 60 + t.m) * 60 + t.s

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduced(p, q) == LET g == Gcd(p, q) IN <<p \div g, q \div g>>

(* the value of a canonical time: whole seconds and the fraction in lowest terms *)
Value(t) == <<Secs(t), Reduced(t.e, t.tcr)>>
ValueOf(secs, p, q) == LET k == p \div q IN <<secs + k, Reduced(p % q, q)>>

(* p/q < r/s *)
FractionLess(p, q, r, s) == IF q <= 40000 /\ s <= 40000 THEN p * s < r * q ELSE Less(Mul(FromInt(p), FromInt(s)), Mul(FromInt(r), FromInt(q)))
Before(a, b) == Secs(a) < Secs(b) \/ (Secs(a) = Secs(b) /\ FractionLess(a.e, a.tcr, b.e, b.tcr))
SameTime(a, b) == Value(a) = Value(b)

Denominator(a, b) == IF a.tcr = b.tcr THEN a.tcr ELSE a.tcr * b.tcr
Scaled(t, q) == t.e * (q \div t.tcr)
SumValue(a, b) == LET q == Denominator(a, b) IN ValueOf(Secs(a) + Secs(b), Scaled(a, q) + Scaled(b, q), q)
(* a >= b; \div rounds down, so a borrow comes out by itself *)
DifferenceValue(a, b) == LET q == Denominator(a, b) IN ValueOf(Secs(a) - Secs(b), Scaled(a, q) - Scaled(b, q), q)

IsSum(a, b, r) == Canonical(r) /\ Value(r) = SumValue(a, b)
IsDifference(a, b, r) == Canonical(r) /\ Value(r) = DifferenceValue(a, b)

Units(t) == Secs(t) * t.tcr + t.e
UnitsFloor(t, q) == Secs(t) * q + ((t.e * q) \div t.tcr)
UnitsCeil(t, q) == Secs(t) * q - ((-(t.e * q)) \div t.tcr)

Abs(n) == IF n < 0 THEN -n ELSE n
(* r is (one of) the nearest time(s) in q-ths of a second to secs + p/d seconds, 0 <= p < d *)
IsNearest(secs, p, d, q, r) ==
  /\ Canonical(r) /\ r.tcr = q
  /\ LET k == Secs(r) - secs
     IN  k \in {0, 1} /\ 2 * Abs((k * q + r.e) * d - p * q) <= d
IsRebase(t, q, r) == IsNearest(Secs(t), t.e, t.tcr, q, r)
(* frames at num/den frames a second *)
IsOfFrames(n, num, den, q, r) == IsNearest((n * den) \div num, (n * den) % num, num, q, r)

(* ---- text *)
Pad(n, w) == LET d == Decimal(n) IN [i \in 1..(IF Len(d) < w THEN w - Len(d) ELSE 0) |-> 48] \o d
Colon == <<58>>
Written(t, interop) == Pad(t.h, 2) \o Colon \o Pad(t.m, 2) \o Colon \o Pad(t.s, 2) \o Colon \o Pad(t.e, IF interop THEN 3 ELSE 2)

RECURSIVE Number(_, _)
Number(s, acc) == IF s = <<>> THEN acc ELSE Number(Tail(s), acc * 10 + Head(s) - 48)
RECURSIVE SplitAt(_, _, _)
SplitAt(s, sep, cur) == IF s = <<>> THEN <<cur>>
                        ELSE IF Head(s) = sep THEN <<cur>> \o SplitAt(Tail(s), sep, <<>>)
                        ELSE SplitAt(Tail(s), sep, Append(cur, Head(s)))
Field(f, most) == Len(f) \in 1..most /\ \A i \in DOMAIN f : IsDigit(f[i])

(* what a text denotes: "bad" for text that must be refused, "free" where nothing is promised.  q = 0: no rate was given *)
Parsed(s, q) ==
  LET p == SplitAt(s, 58, <<>>)
      bad == [k |-> "bad"]
      free == [k |-> "free"]
      ok(e, r) == [k |-> "ok", t |-> [h |-> Number(p[1], 0), m |-> Number(p[2], 0), s |-> Number(IF Len(p) = 3 THEN SplitAt(p[3], 46, <<>>)[1] ELSE p[3], 0), e |-> e, tcr |-> r]]
  IN  IF Len(p) = 4
      THEN IF \E i \in 1..4 : Len(p[i]) = 0 \/ Len(p[i]) > (IF i = 4 THEN 3 ELSE 2) THEN bad
           ELSE IF \A i \in 1..4 : Field(p[i], 3) THEN ok(Number(p[4], 0), IF q = 0 THEN 250 ELSE q) ELSE free
      ELSE IF Len(p) = 3 /\ q = 0
      THEN LET d == SplitAt(p[3], 46, <<>>)
           IN  IF \E i \in 1..2 : Len(p[i]) = 0 \/ Len(p[i]) > 2 THEN bad
               ELSE IF Len(d) # 2 \/ Len(d[1]) = 0 \/ Len(d[1]) > 2 \/ Len(d[2]) = 0 \/ Len(d[2]) > 3 THEN bad
               ELSE IF Field(p[1], 2) /\ Field(p[2], 2) /\ Field(d[1], 2) /\ Field(d[2], 3) /\ Len(d[2]) = 3 THEN ok(Number(d[2], 0), 1000) ELSE free
      ELSE bad
=============================================================================
