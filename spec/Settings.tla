------------------------------ MODULE Settings ------------------------------
(* Comparing colour settings with a tolerance.  A setting is
     [in, pin, out, pout, chroma, adjusted, yuv]
   with kinds of curves, their parameters, eight chromaticity coordinates, none or two more, and a number.  *)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"gamma", "mod", "id", "sg"}
(* how many of the parameters matter *)
Params(kind) == CASE kind = "gamma" -> 1 [] kind = "mod" -> 4 [] OTHER -> 0
Dist(a, b) == IF a > b THEN a - b ELSE b - a
Close(a, b, eps, n) == \A i \in 1..n : Dist(a[i], b[i]) < eps

SameCurve(k1, p1, k2, p2, eps) == k1 = k2 /\ Close(p1, p2, eps, Params(k1))
AboutEqual(x, y, eps) ==
  /\ SameCurve(x.in, x.pin, y.in, y.pin, eps)
  /\ SameCurve(x.out, x.pout, y.out, y.pout, eps)
  /\ x.yuv = y.yuv
  /\ Close(x.chroma, y.chroma, eps, 8)
  /\ Len(x.adjusted) = Len(y.adjusted)
  /\ Close(x.adjusted, y.adjusted, eps, Len(x.adjusted))

Base(kin, kout, adj) == [in |-> kin, pin |-> <<2400000, 40450, 55000, 12920000>>, out |-> kout, pout |-> <<2600000, 50000, 60000, 9000000>>,
                         chroma |-> <<640000, 330000, 300000, 600000, 150000, 60000, 312700, 329000>>,
                         adjusted |-> IF adj THEN <<320000, 340000>> ELSE <<>>, yuv |-> 1]
(* the numbers in a setting, by name *)
Fields == { <<"pin", i>> : i \in 1..4 } \union { <<"pout", i>> : i \in 1..4 } \union { <<"chroma", i>> : i \in 1..8 } \union { <<"adjusted", i>> : i \in 1..2 }
Has(x, f) == f[1] # "adjusted" \/ x.adjusted # <<>>
Shifted(x, f, d) == CASE f[1] = "pin" -> [x EXCEPT !.pin[f[2]] = @ + d]
                      [] f[1] = "pout" -> [x EXCEPT !.pout[f[2]] = @ + d]
                      [] f[1] = "chroma" -> [x EXCEPT !.chroma[f[2]] = @ + d]
                      [] f[1] = "adjusted" -> [x EXCEPT !.adjusted[f[2]] = @ + d]
Matters(x, f) == CASE f[1] = "pin" -> f[2] <= Params(x.in) [] f[1] = "pout" -> f[2] <= Params(x.out) [] OTHER -> TRUE
=============================================================================
