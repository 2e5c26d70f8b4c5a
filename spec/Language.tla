------------------------------ MODULE Language ------------------------------
(* Language tags: a language and perhaps a script, a region, variants and extensions, each from a list of those that there are.

   A subtag x is something written, x.s, and for each kind of subtag that it may be x.k[kind] is <<>> if it is not one
   or <<as it is in the list, what it stands for>>. *)
EXTENDS Naturals, Sequences

Kinds == <<"language", "script", "region", "variant", "extlang">>
Empty == [k \in {Kinds[i] : i \in DOMAIN Kinds} |-> <<>>]
Is(x, k) == x.k[k] # <<>>
Once(xs) == \A i, j \in DOMAIN xs : xs[i].s = xs[j].s => i = j
Many(k) == k \in {"variant", "extlang"}

(* The ways to change a tag t: what is asked for, and whether it can be *)
CanSet(k, xs) == (\A i \in DOMAIN xs : Is(xs[i], k)) /\ (Many(k) \/ Len(xs) = 1) /\ Once(xs)
Set(t, k, xs) == [t EXCEPT ![k] = xs]
CanAdd(t, k, x) == Is(x, k) /\ Once(Append(t[k], x))
Add(t, k, x) == [t EXCEPT ![k] = Append(@, x)]

(* All of it, in order *)
AllOf(t) == t.language \o t.script \o t.region \o t.variant \o t.extlang
RECURSIVE Run(_, _, _)
Run(xs, k, i) == IF i <= Len(xs) /\ Is(xs[i], k) /\ (Many(k) \/ i = 1) THEN Run(xs, k, i + 1) ELSE i - 1
(* As much of xs as can be a k, and so on for the rest of the kinds *)
RECURSIVE Taken(_, _, _)
Taken(t, xs, n) ==
  IF n > Len(Kinds) THEN [t |-> t, left |-> xs]
  ELSE LET r == Run(xs, Kinds[n], 1) IN Taken(Set(t, Kinds[n], SubSeq(xs, 1, r)), SubSeq(xs, r + 1, Len(xs)), n + 1)
Unique(t) == Once(t.variant) /\ Once(t.extlang)
Parsed(xs) == Taken(Empty, xs, 1)
CanParse(xs) == LET p == Parsed(xs) IN p.left = <<>> /\ p.t.language # <<>> /\ Unique(p.t)

RECURSIVE Joined(_)
Joined(ss) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "-" \o Joined(Tail(ss))
AsString(t) == Joined([i \in DOMAIN AllOf(t) |-> AllOf(t)[i].s])
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))
Means(t, k, before, after) == Concat([i \in DOMAIN t[k] |-> before \o t[k][i].k[k][2] \o after])
Description(t) ==
  Means(t, "variant", "", " dialect of ") \o Means(t, "language", "", "") \o Means(t, "script", " written using the ", " script")
  \o Means(t, "region", " for ", "") \o Means(t, "extlang", ", ", "")
Listed(t, k) == [i \in DOMAIN t[k] |-> <<k, t[k][i].k[k][1], t[k][i].k[k][2]>>]
Subtags(t) == Listed(t, "language") \o Listed(t, "script") \o Listed(t, "region") \o Listed(t, "variant") \o Listed(t, "extlang")
=============================================================================
