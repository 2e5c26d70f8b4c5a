---------------------------- MODULE MCNameFormat ----------------------------
(* Every template over a small alphabet with every map of values: the name is built left to right, one piece
   per step, and must come out as the function says, whatever the values contain *)
EXTENDS NameFormat, FiniteSets

CONSTANTS MaxLen, Alphabet, Keys, Values, Suffixes

MCValues == { <<>>, <<37, 99>>, <<47, 120>> }
MCSuffixes == { <<>>, <<47, 37, 99>> }

VARIABLES spec, values, ignore, left, made
vars == <<spec, values, ignore, left, made>>

Texts == UNION { [1..n -> Alphabet] : n \in 0..MaxLen }
Maps == { m \in UNION { [1..n -> Keys \X Values] : n \in 0..Cardinality(Keys) } : \A i, j \in DOMAIN m : i # j => m[i][1] # m[j][1] }

Init == /\ spec \in Texts
        /\ values \in Maps
        /\ ignore \in {<<>>} \union { <<k>> : k \in Keys }
        /\ left = spec /\ made = <<>>

Replace == /\ Fillable(left, values, ignore)
           /\ made' = made \o SafeText(Value(values, left[2]), FALSE)
           /\ left' = SubSeq(left, 3, Len(left))
           /\ UNCHANGED <<spec, values, ignore>>
Copy == /\ left # <<>> /\ ~Fillable(left, values, ignore)
        /\ made' = Append(made, Safe(left[1], FALSE))
        /\ left' = Tail(left)
        /\ UNCHANGED <<spec, values, ignore>>
Next == Replace \/ Copy
Spec == Init /\ [][Next]_vars

(* one left-to-right pass gives the function's result *)
OnePass == \A x \in Suffixes : made \o Fill(left, values, ignore, FALSE) \o x = Name(spec, values, x, ignore, FALSE)
NothingUnsafe == \A i \in 1..Len(made) : made[i] \notin Unsafe
(* without values, or with all ignored, only unsafe characters are replaced *)
PlainCopy == values = <<>> => Name(spec, values, <<>>, ignore, FALSE) = SafeText(spec, FALSE)
Ignored == \A k \in Keys : ignore = <<k>> => Name(spec, values, <<>>, ignore, FALSE) = Name(spec, SelectSeq(values, LAMBDA p : p[1] # k), <<>>, <<>>, FALSE)
=============================================================================
