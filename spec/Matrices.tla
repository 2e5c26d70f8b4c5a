------------------------------ MODULE Matrices ------------------------------
(* What makes a matrix the conversion from RGB to XYZ for given primaries and white, and what makes one the
   Bradford adaptation from one white to another.  Matrices are 3x3 of integers of any size, in units of 1/U;
   chromaticities are pairs of ints in units of 1/Q.  All equations are cross-multiplied, so that nothing is divided. *)
EXTENDS Bigs, FiniteSets

CONSTANT Q            \* an int
I3 == 1..3

(* x, y, z of a chromaticity, in units of 1/Q *)
XYZ(c) == <<c[1], c[2], Q - c[1] - c[2]>>

ZSum3(f(_)) == ZAdd(f(1), ZAdd(f(2), f(3)))
At(m, i, j) == m[i][j]

(* |x| <= tol where both are in the same units *)
Near(x, y, tol) == ZWithin(ZSub(x, y), tol)

(* M * (1, 1, 1) = (wx / wy, 1, wz / wy); U: units of M as a natural; tol in units of M times Q *)
WhiteToWhite(m, U, w, tol) ==
  \A i \in I3 : LET s == ZSum3(LAMBDA j : At(m, i, j)) IN Near(ZMul(s, ZInt(w[2])), ZMul(ZInt(XYZ(w)[i]), ZNat(U)), tol)

(* column j is a multiple of the primary's x, y, z *)
PrimaryToItself(m, j, c, tol) ==
  \A i, k \in I3 : i < k => Near(ZMul(At(m, i, j), ZInt(XYZ(c)[k])), ZMul(At(m, k, j), ZInt(XYZ(c)[i])), tol)
(* and a positive one where the primaries surround the white: the primary adds light *)
Inverse(m, n, U, tol) ==
  \A i, j \in I3 : Near(ZSum3(LAMBDA k : ZMul(At(m, i, k), At(n, k, j))), IF i = j THEN ZNat(Mul(U, U)) ELSE ZInt(0), tol)
IsIdentity(m, U, tol) == \A i, j \in I3 : Near(At(m, i, j), IF i = j THEN ZNat(U) ELSE ZInt(0), tol)

(* Bradford's cone matrix in units of 10^-4 *)
Cone == << <<8951, 2664, -1614>>, <<-7502, 17135, 367>>, <<389, -685, 10296>> >>

(* B * white = adjusted white, both with unit luminance:  sum_k B_ik w_k / w_y = a_i / a_y *)
Adapts(b, U, w, a, tol) ==
  \A i \in I3 : Near(ZMul(ZSum3(LAMBDA k : ZMul(At(b, i, k), ZInt(XYZ(w)[k]))), ZInt(a[2])), ZMul(ZNat(Mul(U, FromInt(w[2]))), ZInt(XYZ(a)[i])), tol)
(* only the cone responses are scaled: Cone * B = D * Cone for a diagonal D *)
ScalesCones(b, tol) ==
  LET cb == [i \in I3 |-> [j \in I3 |-> ZSum3(LAMBDA k : ZMul(ZInt(Cone[i][k]), At(b, k, j)))]]
  IN  \A i \in I3 : \A j, k \in I3 : j < k => Near(ZMul(cb[i][j], ZInt(Cone[i][k])), ZMul(cb[i][k], ZInt(Cone[i][j])), tol)
=============================================================================
