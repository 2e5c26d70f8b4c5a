----------------------------- MODULE GenSettings ----------------------------
(* Pairs of settings: every pair of kinds of curves, with and without adjusted white, other YUV settings, and every
   one of the numbers moved by less or by more than the tolerance.  *)
EXTENDS Settings, TLC, Json, IOUtils, SequencesExt
VARIABLE none
Eps == 1000
Outs == Kinds \union {"none"}
Pair(x, y) == [x |-> x, y |-> y, eps |-> Eps]
Bases == { Base(k, m, a) : k \in Kinds, m \in Outs, a \in BOOLEAN }
Moves == UNION { { Pair(x, Shifted(x, f, d)) : f \in { g \in Fields : Has(x, g) }, d \in {500, -500, 2000, -2000} } : x \in Bases }
KindPairs == { Pair(Base(k, m, FALSE), Base(k2, m2, FALSE)) : k \in Kinds, m \in Outs, k2 \in Kinds, m2 \in Outs }
Whites == { Pair(Base(k, m, a), Base(k, m, b)) : k \in Kinds, m \in Outs, a \in BOOLEAN, b \in BOOLEAN }
YUVs == { Pair([x EXCEPT !.yuv = p], [x EXCEPT !.yuv = q]) : x \in { Base(k, "gamma", a) : k \in Kinds, a \in BOOLEAN }, p \in 0..2, q \in 0..2 }
(* moved in opposite directions, so that sums are as before *)
Opposite == UNION { { Pair(x, Shifted(Shifted(x, f, 2000), g, -2000)) : f \in { h \in Fields : Has(x, h) }, g \in { h \in Fields : Has(x, h) } } : x \in { Base("mod", "gamma", TRUE), Base("gamma", "mod", TRUE) } }
Cases == Moves \union KindPairs \union Whites \union YUVs \union Opposite
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Init == none = 0
Next == UNCHANGED none
=============================================================================
