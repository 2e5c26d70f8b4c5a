------------------------------- MODULE GenReel -------------------------------
(* Reels of up to three roles, each encrypted or not, with every short history of finding the contents and giving
   their keys; and for every role every way in which its part can differ between two reels.  *)
EXTENDS Reel, Json, IOUtils, TLC, SequencesExt

FileRoles == {"picture", "sound", "atmos", "subtitle", "caption", "csub", "ccap"}
(* histories for two contents: give and find, singly or together *)
Steps == {<<"give", <<1>>>>, <<"give", <<2>>>>, <<"give", <<1, 2>>>>, <<"find", <<1>>>>, <<"find", <<2>>>>, <<"find", <<1, 2>>>>}
Histories == UNION {[1..n -> Steps] : n \in 1..3}
Pairs == {<<a, b>> \in FileRoles \X FileRoles : a # b \/ a \in Many}
Keyed == {[case |-> "keys", roles |-> p, enc |-> e, steps |-> h] : p \in Pairs, e \in {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>}, h \in Histories}
Variations(role) == {"absent", "annotation", "annotation-allowed", "duration", "entry"} \union (IF role = "markers" THEN {"marker"} ELSE {"hash", "hash-allowed", "content"})
Compared == {[case |-> "compare", roles |-> <<a, b>>, enc |-> e, steps |-> <<<<v, <<w>>>>>>] :
               a \in FileRoles \union {"markers"}, b \in FileRoles \union {"markers"}, e \in {<<0, 0>>, <<1, 1>>},
               v \in {"absent", "annotation", "annotation-allowed", "duration", "entry", "marker", "hash", "hash-allowed", "content", "same"}, w \in {1, 2, 3}}
Sensible(c) == /\ c.roles[1] # c.roles[2] \/ c.roles[1] \in Many
               /\ LET v == c.steps[1][1]
                      changed == IF c.steps[1][2][1] = 1 THEN {c.roles[1]} ELSE IF c.steps[1][2][1] = 2 THEN {c.roles[2]} ELSE {c.roles[1], c.roles[2]}
                  IN  v # "same" => \A r \in changed : v \in Variations(r)
Cases == Keyed \union {c \in Compared : Sensible(c)}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
