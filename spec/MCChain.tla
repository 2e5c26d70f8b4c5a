------------------------------ MODULE MCChain ------------------------------
(* Every small world of certificates: who holds which key, who claims to be vouched for by whom, and whose signature it
   really is.  There is at most one way to order a set of them as a chain, walking down from the root finds it exactly
   when there is one, and then every signature in it is by the holder of the key above.  *)
EXTENDS Pki, TLC

CONSTANTS N, People, NamesOnly
Names == 1..N
World == [1..N -> [person : People, name : Names, issuer : 0..N, signer : People, ca : {0, 1}]]
VARIABLES w
(* certificate k's name as the four parts that Pki compares *)
Full(k) == [person |-> w[k].person, issuer |-> w[k].issuer, signer |-> w[k].signer, ca |-> w[k].ca, o |-> w[k].name, ou |-> 0, cn |-> 0, dn |-> 0]
Certs == [k \in 1..N |-> Full(k)]
(* a root signs itself; others are given out by lower numbers, without loss of generality *)
Init == w \in {x \in World : \A k \in 1..N : x[k].issuer < k /\ (x[k].issuer = 0 => x[k].signer = x[k].person)}
Next == UNCHANGED w

Sequenced(S) == {p \in [1..Cardinality(S) -> S] : Elements(p) = S}
Walked(S) == IF NamesOnly THEN LET c == [k \in 1..N |-> [Certs[k] EXCEPT !.signer = IF w[k].issuer = 0 THEN @ ELSE w[w[k].issuer].person]] IN Ordered(c, S) ELSE Ordered(Certs, S)
Sound == \A S \in SUBSET (1..N) : LET ways == {p \in Sequenced(S) : IsChain(Certs, p)} IN ways = IF Walked(S) = <<0>> THEN {} ELSE {Walked(S)}
=============================================================================
