------------------------------ MODULE GenPackage ------------------------------
(* Packages of every small shape: which roles a reel fills (at most three), where each one's file lies, and how the
   parts are shared.  *)
EXTENDS Package, Json, IOUtils, TLC, SequencesExt

Places == {"in", "sub", "out"}
Sharing == {"one", "reels", "compositions", "packages"}
Upto3(s) == {x \in SUBSET s : Cardinality(x) \in 1..3}
Shapes(std) == UNION {[r -> Places] : r \in Upto3(Roles(std))}
Cases == UNION {{[std |-> std, parts |-> SetToSeq({<<r, shape[r]>> : r \in DOMAIN shape}), sharing |-> sh] : shape \in Shapes(std), sh \in Sharing} : std \in Standards}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
