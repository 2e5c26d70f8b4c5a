------------------------------- MODULE GenKdm -------------------------------
(* Key messages of every shape: formulation, flags, devices, kinds of keys, what is done with the document before it is
   opened, and how the window lies to those of the certificates.  *)
EXTENDS Kdm, Json, IOUtils, TLC, SequencesExt

TypeLists == UNION {[1..n -> KeyTypes] : n \in 1..2}
Ways == {<<>>, <<"text">>, <<"file">>, <<"copy", "text">>, <<"text", "file">>}
Sealed == {[case |-> "seal", f |-> f, picture |-> p, audio |-> a, devices |-> d, types |-> t, ways |-> w] :
             f \in Formulations, p \in {0, 1}, a \in {-1, 0, 1, 6, 12}, d \in 0..2, t \in TypeLists, w \in Ways}
(* days from the edges of the three certificates' windows, root first, to those of the message's *)
Windows == {[case |-> "window", from |-> <<a, b, c>>, to |-> <<d, e, g>>] : a, b, c, d, e, g \in {-1, 0, 1}}
(* parts of a composition: encrypted or not *)
Roles == {"picture", "sound", "atmos", "subtitle", "caption", "csub", "ccap"}
Compositions == {[case |-> "composition", parts |-> SetToSeq({<<r, e[r]>> : r \in s}), how |-> h] : h \in {"cpl", "map"}, s \in {x \in SUBSET Roles : Cardinality(x) \in 1..2}, e \in [Roles -> {0, 1}]}
Cases == Sealed \union Windows \union Compositions
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
