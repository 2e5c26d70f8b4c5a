----------------------------- MODULE MCMatrices -----------------------------
(* The equations have one solution: the matrix built from the primaries and white by Cramer's rule satisfies them,
   and a matrix with one entry changed does not.  Chromaticities are on a coarse grid (quarters).  *)
EXTENDS Integers, Sequences, TLC
Q0 == 4
INSTANCE Matrices WITH Q <- Q0
VARIABLES prim, white, changed
vars == <<prim, white, changed>>

Grid == { c \in (0..Q0) \X (0..Q0) : c[1] + c[2] <= Q0 }
Det2(a, b, c) == (a[1] - c[1]) * (b[2] - c[2]) - (b[1] - c[1]) * (a[2] - c[2])
(* M_ij = s_j X_i(p_j), with s from: sum_j s_j p_j = w / wy.  In barycentric coordinates s_j = t_j Q / wy, t_j = area ratio *)
Area == Det2(prim[1], prim[2], prim[3])
T(j) == CASE j = 1 -> Det2(white, prim[2], prim[3]) [] j = 2 -> Det2(prim[1], white, prim[3]) [] j = 3 -> Det2(prim[1], prim[2], white)
(* units: 1 / (Area * wy) , made positive *)
Sign == IF Area < 0 THEN -1 ELSE 1
M == [i \in I3 |-> [j \in I3 |-> ZInt(Sign * T(j) * XYZ(prim[j])[i])]]
U == FromInt(Sign * Area * white[2])
Valid == Area # 0 /\ white[2] > 0

Init == prim = <<>> /\ white = <<>> /\ changed = <<0, 0>>
Next == \/ prim = <<>> /\ prim' \in (Grid \X Grid \X Grid) /\ white' \in {<<1, 1>>, <<2, 1>>, <<1, 2>>} /\ UNCHANGED changed
        \/ prim # <<>> /\ changed = <<0, 0>> /\ changed' \in (I3 \X I3) /\ UNCHANGED <<prim, white>>
Matrix == IF changed = <<0, 0>> THEN M ELSE [i \in I3 |-> [j \in I3 |-> IF <<i, j>> = changed THEN ZAdd(M[i][j], ZInt(1)) ELSE M[i][j]]]
Good == WhiteToWhite(Matrix, U, white, <<>>) /\ \A k \in I3 : PrimaryToItself(Matrix, k, prim[k], <<>>)
OneSolution == prim # <<>> /\ Valid => (Good <=> changed = <<0, 0>>)
=============================================================================
