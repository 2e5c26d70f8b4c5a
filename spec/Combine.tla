------------------------------ MODULE Combine ------------------------------
(* Several packages made into one.

   A world W has packages, each in a directory of its own with a standard (W.standards[d]).  Its parts are files, each with a key;
   files with the same `who' are copies of one asset, with one ID.  Compositions belong to a package, and their reels refer to
   assets which may be in that package or in some other (a "version file" uses what is in an "original version").
   W.inputs says which packages are combined, perhaps some of them more than once. *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt

Elements(s) == {s[i] : i \in DOMAIN s}
Given(W) == Elements(W.inputs)
Mixed(W) == Cardinality({W.standards[d] : d \in Given(W)}) > 1

OfPackage(W, d) == {c \in Elements(W.cpls) : c.dir = d}
Keys(c) == UNION {Elements(c.keys[r]) : r \in DOMAIN c.keys}
Refers(c) == UNION {Elements(c.reels[r]) : r \in DOMAIN c.reels}
(* the assets that a package has: those in its directory to which one of its compositions refers *)
Has(W, d) == {p.who : p \in {p \in Elements(W.parts) : p.dir = d /\ \E c \in OfPackage(W, d) : p.key \in Keys(c)}}
There(W) == UNION {Has(W, d) : d \in Given(W)}
Compositions(W) == UNION {OfPackage(W, d) : d \in Given(W)}
Wanted(W) == UNION {Refers(c) : c \in Compositions(W)}
Complete(W) == Wanted(W) \subseteq There(W)

Original(W, who) == CHOOSE p \in Elements(W.parts) : p.who = who /\ p.key = who
Fonts(W) == MapThenSumSet(LAMBDA w : Original(W, w).fonts, Wanted(W))
Signatures(W) == IF W.sign = 1 THEN 1 + Cardinality(Compositions(W)) ELSE 0
=============================================================================
