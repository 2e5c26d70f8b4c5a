------------------------------ MODULE MCCurves ------------------------------
(* The curves themselves: exact values at points where they are rational, end points, monotonic, the inverse
   undoes the curve, and the two sides of a break meet.  *)
EXTENDS Curves
VARIABLES at, curve
D == 24
Gamma(u, v) == [kind |-> "gamma", u |-> u, v |-> v]
SRGB == [kind |-> "modified", u |-> 12, v |-> 5, thr |-> 4045, A |-> 55, B |-> 1292]
All == { [kind |-> "identity"], Gamma(2, 1), Gamma(11, 5), Gamma(12, 5), Gamma(13, 5), Gamma(1, 1), SRGB }
S == Tens(9)
Init == at = -1 /\ curve = [kind |-> "none"]
Next == \/ at = -1 /\ at' = -2 /\ curve' \in All
        \/ at = -2 /\ at' \in 0..D /\ UNCHANGED curve
Chosen == at >= 0
(* the value, found by bisection over tenths of millionths *)
S7 == Tens(7)
RECURSIVE Find(_, _, _, _, _, _)
Find(f, inv, a, b, lo, hi) == IF hi - lo <= 1 THEN lo
                              ELSE LET m == (lo + hi) \div 2 IN IF AtMostF(f, inv, a, b, ZInt(m), S7) THEN Find(f, inv, a, b, lo, m) ELSE Find(f, inv, a, b, m, hi)
Value(f, inv, a, b) == IF AtMostF(f, inv, a, b, ZInt(0), S7) THEN 0 ELSE Find(f, inv, a, b, 0, 10000001)
Y == Value(curve, FALSE, N(at), N(D))
EndPoints == Chosen => (at = 0 => Y = 0) /\ (at = D => Y \in 9999999..10000000)
Growing == Chosen /\ at < D => Y <= Value(curve, FALSE, N(at + 1), N(D))
Undone == Chosen => LET back == Value(curve, TRUE, N(Y), N(10000000))
              x == (at * 10000000) \div D
          IN  (back - x) * (back - x) <= (IF Y < 1000 THEN 4000000 ELSE 10000)
Exact == Chosen /\ curve = Gamma(2, 1) => CloseTo(curve, FALSE, N(at), N(D), ZNat(Mul(N(at * at), N(1))), N(D * D), 0)
Identity == Chosen /\ curve.kind = "identity" => CloseTo(curve, FALSE, N(at), N(D), ZInt(at), N(D), 0) /\ ~CloseTo(curve, FALSE, N(at), N(D), ZInt(at + 1), N(D), 0)
ASSUME RootsAreRoots
(* the pieces of S-Log3 meet at the break, and its middle grey is at code 420 *)
ASSUME SLogClose(420, 1023, ZInt(180000), Tens(6), 1)
ASSUME SLogInvClose(18, 100, 410557, 3)
ASSUME SLogClose(95, 1023, ZInt(0), Tens(9), 1)
ASSUME SLogInvClose(0, 1, 92864, 3)
=============================================================================
