----------------------------- MODULE MCSettings -----------------------------
(* Comparing is symmetric, true of equal settings, and sees exactly the differences that matter *)
EXTENDS Settings
VARIABLES x, y, d1, d2, f1, f2
Eps == 1000
Deltas == {0, 500, -500, 2000, -2000}
Bases == { Base(k, m, a) : k \in Kinds, m \in Kinds \union {"none"}, a \in BOOLEAN }
Zero == Base("id", "id", FALSE)
Init == x = Zero /\ y = Zero /\ d1 = 0 /\ d2 = 0 /\ f1 = <<"-", 0>> /\ f2 = <<"-", 0>>
Next == /\ f1 = <<"-", 0>> /\ x = Zero
        /\ x' \in Bases /\ f1' \in { f \in Fields : Has(x', f) } /\ f2' \in { f \in Fields : Has(x', f) }
        /\ d1' \in Deltas /\ d2' \in Deltas
        /\ f1' # f2'
        /\ y' = Shifted(Shifted(x', f1', d1'), f2', d2')
Far(d) == d \in {2000, -2000}
Symmetric == AboutEqual(x, y, Eps) <=> AboutEqual(y, x, Eps)
Reflexive == AboutEqual(x, x, Eps) /\ AboutEqual(y, y, Eps)
Notices == f1[2] > 0 => (AboutEqual(x, y, Eps) <=> ~((Far(d1) /\ Matters(x, f1)) \/ (Far(d2) /\ Matters(x, f2))))
OtherKind == \A k \in Kinds \union {"none"} : (k # x.out => ~AboutEqual(x, [x EXCEPT !.out = k], Eps)) /\ (k # x.in /\ k # "none" => ~AboutEqual(x, [x EXCEPT !.in = k], Eps))
OtherYUV == ~AboutEqual(x, [x EXCEPT !.yuv = 2], Eps)
=============================================================================
