------------------------------- MODULE Curves -------------------------------
(* The transfer curves, as relations between exact numbers: a value Y/S is at most, or at least, the curve's
   value at the rational n/d.  Everything is a natural number of any size, so nothing is rounded.

   A curve is
     [kind |-> "identity"]
     [kind |-> "gamma", u, v]                      x to the power u/v
     [kind |-> "modified", u, v, thr, A, B]        thr in 1/100000, A in 1/1000, B in 1/100:
                                                   ((x + A) / (1 + A))^(u/v) above thr, x / B below
     [kind |-> "sgamut3"]                          S-Log3 *)
EXTENDS Bigs, FiniteSets, TLC

N(k) == FromInt(k)

(* (n/d)^(u/v) <= Y/S  for naturals *)
PowerAtMost(n, d, u, v, Y, S) == AtMost(Mul(Power(n, u), Power(S, v)), Mul(Power(d, u), Power(Y, v)))
PowerAtLeast(n, d, u, v, Y, S) == AtMost(Mul(Power(d, u), Power(Y, v)), Mul(Power(n, u), Power(S, v)))

(* which branch of a modified curve: is n/d above the threshold *)
Above(c, inv, n, d) ==
  IF inv THEN Less(Mul(d, Mul(N(c.thr), N(100))), Mul(n, Mul(N(c.B), N(100000))))
  ELSE Less(Mul(d, N(c.thr)), Mul(n, N(100000)))

(* f(n/d) <= Y/S and f(n/d) >= Y/S; n, d, S naturals, Y an integer *)
Compare(c, inv, n, d, Y, S, Pow(_, _, _, _, _, _), Le(_, _)) ==
  CASE c.kind = "identity" -> Le(Mul(n, S), Mul(Y, d))
    [] c.kind = "gamma" -> IF inv THEN Pow(n, d, c.v, c.u, Y, S) ELSE Pow(n, d, c.u, c.v, Y, S)
    [] c.kind = "modified" ->
         IF Above(c, inv, n, d)
         THEN IF inv THEN Pow(n, d, c.v, c.u, Add(Mul(N(1000), Y), Mul(N(c.A), S)), Mul(N(1000 + c.A), S))
                     ELSE Pow(Add(Mul(N(1000), n), Mul(N(c.A), d)), Mul(N(1000 + c.A), d), c.u, c.v, Y, S)
         ELSE IF inv THEN Le(Mul(Mul(n, N(c.B)), S), Mul(Mul(Y, N(100)), d))
                     ELSE Le(Mul(Mul(n, N(100)), S), Mul(Mul(Y, N(c.B)), d))
AtMostF(c, inv, n, d, Y, S) == ~Y.neg /\ Compare(c, inv, n, d, Y.m, S, PowerAtMost, AtMost)
GreaterEq(a, b) == AtMost(b, a)
AtLeastF(c, inv, n, d, Y, S) == Y.neg \/ Y.m = <<>> \/ Compare(c, inv, n, d, Y.m, S, PowerAtLeast, GreaterEq)

(* |f(n/d) - Y/S| <= t/S *)
CloseTo(c, inv, n, d, Y, S, t) == AtMostF(c, inv, n, d, ZAdd(Y, ZInt(t)), S) /\ AtLeastF(c, inv, n, d, ZSub(Y, ZInt(t)), S)

(* ---- powers of ten, in units of 10^-12 (three digits to the right of the point) *)
One12 == <<0, 0, 0, 1>>
Shift3(a) == IF Len(a) <= 3 THEN <<>> ELSE SubSeq(a, 4, Len(a))
(* 10^(1/2), 10^(1/4), ... *)
Roots == TLCEval(<<
 <<168, 7766, 1622, 3>>, <<39, 7941, 7782, 1>>, <<2163, 2143, 3335, 1>>, <<4689, 8198, 1547, 1>>, <<8321, 782, 746, 1>>, <<8438, 3292, 366, 1>>,
 <<1718, 5172, 181, 1>>, <<4841, 3504, 90, 1>>, <<4254, 736, 45, 1>>, <<8293, 5114, 22, 1>>, <<1400, 2494, 11, 1>>, <<2602, 6231, 5, 1>>,
 <<6788, 8111, 2, 1>>, <<8517, 4054, 1, 1>>, <<1789, 7027, 0, 1>>, <<5277, 3513, 0, 1>>, <<7484, 1756, 0, 1>>, <<3704, 878, 0, 1>>,
 <<1842, 439, 0, 1>>, <<5919, 219, 0, 1>>, <<7959, 109, 0, 1>>, <<8979, 54, 0, 1>>, <<4490, 27, 0, 1>>, <<7245, 13, 0, 1>>,
 <<8622, 6, 0, 1>>, <<4311, 3, 0, 1>>, <<7156, 1, 0, 1>>, <<8578, 0, 0, 1>>, <<4289, 0, 0, 1>>, <<2144, 0, 0, 1>>,
 <<1072, 0, 0, 1>>, <<536, 0, 0, 1>>, <<268, 0, 0, 1>>, <<134, 0, 0, 1>> >>)
(* each is the square root of the one before, to within the last place of two *)
RootsAreRoots ==
  \A k \in 1..Len(Roots) :
    LET sq == Mul(Roots[k], Roots[k])
        want == IF k = 1 THEN Mul(N(10), Mul(One12, One12)) ELSE Mul(Roots[k - 1], One12)
    IN  ZWithin(ZSub(ZNat(sq), ZNat(want)), <<0, 0, 0, 8>>)

(* the fraction r/q < 1 in binary, bits k.. ; 2 q < 2^31 *)
RECURSIVE PowFrac(_, _, _, _, _)
PowFrac(table, r, q, k, acc) ==
  IF k > Len(table) \/ r = 0 THEN acc
  ELSE LET r2 == 2 * r
       IN  IF r2 >= q THEN PowFrac(table, r2 - q, q, k + 1, Shift3(Mul(acc, table[k]))) ELSE PowFrac(table, r2, q, k + 1, acc)

(* 10^(r/q) for an integer r and q < 2^30, as [z, v]: v in units of 10^-12, to be multiplied by 10^z *)
Pow10(r, q) == LET z == IF r >= 0 THEN r \div q ELSE -((-r + q - 1) \div q)
               IN  [z |-> z, v |-> PowFrac(Roots, r - z * q, q, 1, One12)]
RECURSIVE Tens(_)
Tens(k) == IF k = 0 THEN <<1>> ELSE Mul(N(10), Tens(k - 1))
(* a/b <= 10^(r/q) (1 + slack) where slack is one in 10^8; a, b naturals *)
Slack == Tens(8)
RatioAtMost(a, b, r, q) ==
  LET p == Pow10(r, q)
      up == IF p.z >= 0 THEN Tens(p.z) ELSE <<1>>
      down == IF p.z >= 0 THEN <<1>> ELSE Tens(-p.z)
  IN  AtMost(Mul(Mul(Mul(a, One12), down), Slack), Mul(Mul(Mul(b, p.v), up), Add(Slack, <<1>>)))
RatioAtLeast(a, b, r, q) ==
  LET p == Pow10(r, q)
      up == IF p.z >= 0 THEN Tens(p.z) ELSE <<1>>
      down == IF p.z >= 0 THEN <<1>> ELSE Tens(-p.z)
  IN  AtMost(Mul(Mul(b, p.v), Mul(up, Slack)), Mul(Mul(Mul(a, One12), down), Add(Slack, <<1>>)))

(* ---- S-Log3.  Above code value 171.2102946929: x = 10^((1023 y - 420) / 261.5) * 0.19 - 0.01, i.e.
   (x + 0.01) / 0.19 = 10^((2046 y - 840) / 523); below, a straight line through 95.
   n/d is the signal for the forward direction, with 523 d < 2^30 *)
SLogCut(n, d) == (* 1023 n/d >= 171.2102946929 *) ~Less(Mul(Mul(n, N(1023)), Tens(10)), Mul(d, Add(Mul(N(1712102), Tens(6)), N(946929))))
(* |f(n/d) - Y/S| <= t/S for the forward direction, n and d ints *)
SLogClose(n, d, Y, S, t) ==
  IF SLogCut(N(n), N(d))
  THEN (* (100 Y/S + 1) / 19 against 10^... *)
       LET hi == ZAdd(Y, ZInt(t))
           lo == ZSub(Y, ZInt(t))
           top(y) == ZAdd(ZMul(ZInt(100), y), ZNat(S))
           r == 2046 * n - 840 * d
           q == 523 * d
       IN  ~top(hi).neg /\ RatioAtLeast(top(hi).m, Mul(N(19), S), r, q) /\ (top(lo).neg \/ RatioAtMost(top(lo).m, Mul(N(19), S), r, q))
  ELSE (* (1023 x - 95) * 0.01125 / 76.2102946929 *)
       LET e == ZMul(ZInt(11250), ZSub(ZNat(Mul(N(1023), N(n))), ZNat(Mul(N(95), N(d)))))           (* / d, times 10^6 *)
           den == Mul(N(d), Add(Mul(N(7621029), Tens(5)), N(46929)))                                  (* 76.2102946929 d, times 10^10 *)
           diff == ZSub(ZMul(e, ZNat(Mul(S, Tens(4)))), ZMul(Y, ZNat(den)))
       IN  ZWithin(diff, Mul(N(t), den))

(* the inverse: linear x = n/d to signal y = Y6/10^6, to within t6 millionths *)
SLogInvCut(n, d) == ~Less(Mul(n, N(100000)), Mul(d, N(1125)))
SLogInvClose(n, d, Y6, t6) ==
  IF SLogInvCut(N(n), N(d))
  THEN LET a == Add(Mul(N(100), N(n)), N(d))
           b == Mul(N(19), N(d))
       IN  RatioAtMost(a, b, 2046 * (Y6 + t6) - 840000000, 523000000) /\ RatioAtLeast(a, b, 2046 * (Y6 - t6) - 840000000, 523000000)
  ELSE (* (x * 76.2102946929 / 0.01125 + 95) / 1023 *)
       LET e == Add(Mul(Mul(N(n), Add(Mul(N(7621029), Tens(5)), N(46929))), N(100000)), Mul(Mul(N(95), N(d)), Mul(N(1125), Tens(10))))   (* / (d 1125 10^10) *)
           den == Mul(N(d), Mul(Mul(N(1125), Tens(10)), N(1023)))
           diff == ZSub(ZNat(Mul(e, N(1000000))), ZMul(ZInt(Y6), ZNat(den)))
       IN  ZWithin(diff, Mul(N(t6), den))
=============================================================================
