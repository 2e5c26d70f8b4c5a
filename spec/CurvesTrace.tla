----------------------------- MODULE CurvesTrace -----------------------------
(* Judges tables of transfer curves.  A table event has the range [a/den, b/den], the depth, the direction, and
   some of its entries as [i, index, y] with y in units of 10^-9.  *)
EXTENDS Curves, Common

S9 == Tens(9)
Tol == 100

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

(* position of entry i as n/d *)
PosN(ev, i) == LET m == Pow2(ev.bits) - 1 IN Add(Mul(N(ev.a), N(m - i)), Mul(N(ev.b), N(i)))
PosD(ev) == Mul(N(ev.den), N(Pow2(ev.bits) - 1))

Right(ev, p) ==
  IF ev.curve.kind = "sgamut3"
  THEN LET m == Pow2(ev.bits) - 1
           n == ev.a * m + (ev.b - ev.a) * p.i
           d == ev.den * m
       IN  IF ev.inverse = 1 THEN SLogInvClose(n, d, p.six, 3) ELSE SLogClose(n, d, ZOf(p.y), S9, Tol)
  ELSE CloseTo(ev.curve, ev.inverse = 1, PosN(ev, p.i), PosD(ev), ZOf(p.y), S9, Tol)

(* the parameters decide whether the two parts meet at the break; apart from there the curve only rises *)
SameSide(ev, i, k) == ev.curve.kind = "modified" => Above(ev.curve, ev.inverse = 1, PosN(ev, i), PosD(ev)) = Above(ev.curve, ev.inverse = 1, PosN(ev, k), PosD(ev))

JudgeTable(ev) ==
  LET pts == ev.points
  IN  Clause("size", ev.size = Pow2(ev.bits)) \union
      (IF ev.size # Pow2(ev.bits) THEN {} ELSE
       Clause("formula", \A k \in 1..Len(pts) : Right(ev, pts[k])) \union
       Clause("monotonic", ev.b >= ev.a => \A k \in 1..Len(pts) - 1 : SameSide(ev, pts[k].i, pts[k + 1].i) => ZAtMost(ZOf(pts[k].y), ZOf(pts[k + 1].y))))

(* f and then its inverse of n/d came to y *)
JudgeTrip(ev) == Clause("undone", ZWithin(ZSub(ZMul(ZOf(ev.y), ZInt(ev.den)), ZMul(ZInt(ev.n), ZNat(S9))), Mul(N(ev.den), N(1000))))

(* a piecewise table with a break at bn/bd gave r, in units of 1/scale, for x = n/d.  With a step of h the value
   lies between those of the function half a step away on both sides, within its own piece *)
JudgePiece(ev) ==
  LET low == Less(Mul(N(ev.n), N(ev.bd)), Mul(N(ev.bn), N(ev.d)))       (* x below the break *)
      steps == IF low THEN Pow2(ev.low) - 1 ELSE Pow2(ev.high) - 1
      (* everything over the denominator D = 2 d bd steps *)
      D == Mul(Mul(N(2 * ev.d), N(ev.bd)), N(steps))
      x == ZNat(Mul(Mul(N(2 * ev.n), N(ev.bd)), N(steps)))
      half == Mul(N(IF low THEN ev.bn ELSE ev.bd - ev.bn), N(ev.d))
      break == ZNat(Mul(Mul(N(2 * ev.bn), N(ev.d)), N(steps)))
      first == IF low THEN ZNat(<<>>) ELSE break
      last == IF low THEN break ELSE ZNat(D)
      left == LET v == ZSub(x, ZNat(Add(half, <<1>>))) IN IF ZAtMost(v, first) THEN first ELSE v
      right == LET v == ZAdd(x, ZNat(Add(half, <<1>>))) IN IF ZAtMost(last, v) THEN last ELSE v
      (* r to within half a unit and a little: units of 1/(1000 scale) *)
      S == Mul(N(ev.scale), N(1000))
      hi == ZAdd(ZMul(ZInt(ev.r), ZInt(1000)), ZInt(501))
      lo == ZSub(ZMul(ZInt(ev.r), ZInt(1000)), ZInt(501))
  IN  Clause("not-below", AtMostF(ev.curve, ev.inverse = 1, left.m, D, hi, S)) \union
      Clause("not-above", AtLeastF(ev.curve, ev.inverse = 1, right.m, D, lo, S))

JudgeCurves(s, ev) ==
  [st |-> s, f |-> CASE ev.op = "table" -> JudgeTable(ev) [] ev.op = "trip" -> JudgeTrip(ev) [] ev.op = "piece" -> JudgePiece(ev)]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- 0, Judge <- JudgeCurves
=============================================================================
