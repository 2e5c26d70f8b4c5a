----------------------------- MODULE ColourTrace -----------------------------
(* Judges matrices of colour conversions.  c holds red, green, blue, white and perhaps adjusted white in 1/100000;
   matrices are in 1e-9.  *)
EXTENDS Common, TLC
Q0 == 100000
INSTANCE Matrices WITH Q <- Q0

U9 == Mul(FromInt(1000000), FromInt(1000))
(* 10^-6 (and 10^-5) in units of 1e-9, times what the equation is multiplied by *)
E6 == 1000
Tol(k) == Mul(FromInt(E6), k)

Z3(m) == [i \in I3 |-> [j \in I3 |-> ZOf(m[i][j])]]
C(ev, k) == <<ev.c[2 * k - 1], ev.c[2 * k]>>

JudgeMatrix(s, ev) ==
  LET m == Z3(ev.m)
      inv == Z3(ev.inv)
      b == Z3(ev.brad)
      asked == Len(ev.c) > 8
  IN  [st |-> s,
       f |-> Clause("white-to-white", WhiteToWhite(m, U9, C(ev, 4), Tol(FromInt(Q0)))) \union
             Clause("primaries-to-themselves", \A k \in I3 : PrimaryToItself(m, k, C(ev, k), Tol(FromInt(Q0)))) \union
             Clause("inverse", Inverse(m, inv, U9, Mul(Tol(FromInt(100)), U9))) \union
             (IF asked THEN Clause("adapts-white", Adapts(b, U9, C(ev, 4), C(ev, 5), Tol(Mul(FromInt(Q0), FromInt(Q0))))) \union
                            Clause("bradford", ScalesCones(b, Tol(FromInt(100000000))))
              ELSE Clause("no-adaptation", IsIdentity(b, U9, <<>>)))]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- 0, Judge <- JudgeMatrix
=============================================================================
