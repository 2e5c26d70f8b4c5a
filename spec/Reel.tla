-------------------------------- MODULE Reel --------------------------------
(* A reel is a sequence of parts [role, c, dur]: each shows a content c (0 for markers, which need none) and lasts dur.
   Whatever its role, a part is resolved once its content has been found, encrypted if its content is, and open if it
   is resolved and the last key given for its content, before or after it was found, is the right one.  *)
EXTENDS Sequences, FiniteSets, Integers

Parts(reel) == {reel[i] : i \in DOMAIN reel}
Filed(reel) == {p \in Parts(reel) : p.c # 0}
Least(s) == CHOOSE x \in s : \A y \in s : x <= y

Single == {"picture", "sound", "atmos", "subtitle", "caption", "markers"}
Many == {"csub", "ccap"}

(* enc(c): is content c encrypted? *)
AnyEncrypted(reel, enc(_)) == \E p \in Filed(reel) : enc(p.c)
AllEncrypted(reel, enc(_)) == \A p \in Filed(reel) : enc(p.c)
(* the picture's length, or without a picture the length of the shortest part *)
DurationOf(reel) ==
  LET pictures == {p \in Parts(reel) : p.role = "picture"}
  IN  Least({p.dur : p \in IF pictures # {} THEN pictures ELSE Parts(reel)})

(* keys: for each content "none", "right" or "wrong"; messages are given one by one, the last word counts.
   message: a sequence of numbers, k the key of content k, -k a wrong key for it, 0 a key for something unknown *)
RECURSIVE After(_, _)
After(keys, message) ==
  IF message = <<>> THEN keys
  ELSE LET k == Head(message)
           c == IF k < 0 THEN -k ELSE k
       IN  After(IF c \in DOMAIN keys THEN [keys EXCEPT ![c] = IF k < 0 THEN "wrong" ELSE "right"] ELSE keys, Tail(message))

Open(c, found, keys, enc(_)) == c \in found /\ (enc(c) => keys[c] = "right")

(* two reels are equal if they have the same parts; a variation is how a part of one differs from the other's, and some
   can be allowed *)
Tolerated == {"same", "annotation-allowed", "hash-allowed"}
(* allowing something for one part allows it for all *)
SameReel(variations) ==
  LET vs == {variations[i] : i \in DOMAIN variations}
      fine == Tolerated \union (IF "annotation-allowed" \in vs THEN {"annotation"} ELSE {}) \union (IF "hash-allowed" \in vs THEN {"hash"} ELSE {})
  IN  vs \subseteq fine
=============================================================================
