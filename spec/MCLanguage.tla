---------------------------- MODULE MCLanguage ----------------------------
EXTENDS Language, TLC

T(s, ks) == [s |-> s, k |-> [k \in DOMAIN Empty |-> IF k \in ks THEN <<s, s>> ELSE <<>>]]
All == {T("de", {"language"}), T("ltg", {"language", "extlang"}), T("Latn", {"script"}), T("GB", {"region"}), T("1901", {"variant"}), T("rozaj", {"variant"}),
        T("yue", {"language", "extlang"}), T("none", {})}
Lists(n) == UNION {[1 .. i -> All] : i \in 0 .. n}
VARIABLE t
Init == t = Empty
DoSet == \E k \in DOMAIN Empty, xs \in Lists(2) : CanSet(k, xs) /\ t' = Set(t, k, xs)
DoAdd == \E k \in {"variant", "extlang"}, x \in All : CanAdd(t, k, x) /\ t' = Add(t, k, x)
DoParse == \E xs \in Lists(3) : CanParse(xs) /\ t' = Parsed(xs).t
Next == DoSet \/ DoAdd \/ DoParse
Spec == Init /\ [][Next]_t

Proper == /\ \A k \in DOMAIN Empty : \A i \in DOMAIN t[k] : Is(t[k][i], k)
          /\ Unique(t) /\ Len(t.language) <= 1 /\ Len(t.script) <= 1 /\ Len(t.region) <= 1
(* what is written can be read, as the same *)
RoundTrip == t.language # <<>> => CanParse(AllOf(t)) /\ Parsed(AllOf(t)).t = t
Whole == Len(Subtags(t)) = Len(AllOf(t))

(* what was done before: tags that are read may say a thing twice (see MCLanguageTwice.cfg) *)
Unasked(xs) == LET p == Parsed(xs) IN p.left = <<>> /\ p.t.language # <<>>
=============================================================================
