------------------------------- MODULE MCReel -------------------------------
(* How a reel comes by its keys.  Keys come in messages, contents are found bit by bit, in any order; a content that is
   found again is a new object that knows nothing.  A message reaches the contents that are there when it comes; the
   reel remembers the messages (unless Remember is FALSE) and repeats them, oldest first, whenever contents are found.  *)
EXTENDS Reel, TLC

CONSTANTS Contents, Encrypted, MaxMessages, MaxFinds, Remember, Messages

VARIABLES found, holds, said, finds, ideal

vars == <<found, holds, said, finds, ideal>>

Enc(c) == c \in Encrypted
NoKeys == [c \in Contents |-> "none"]

Init == found = {} /\ holds = NoKeys /\ said = <<>> /\ finds = 0 /\ ideal = NoKeys

(* what the objects that are there know after hearing a message *)
Hear(h, f, message) ==
  LET a == After(h, message) IN [c \in Contents |-> IF c \in f THEN a[c] ELSE h[c]]
RECURSIVE HearAll(_, _, _)
HearAll(h, f, ms) == IF ms = <<>> THEN h ELSE HearAll(Hear(h, f, Head(ms)), f, Tail(ms))

Give(m) ==
  /\ Len(said) < MaxMessages
  /\ holds' = Hear(holds, found, m)
  /\ said' = Append(said, m)
  /\ ideal' = After(ideal, m)
  /\ UNCHANGED <<found, finds>>

Find(s) ==
  /\ finds < MaxFinds
  /\ finds' = finds + 1
  /\ found' = found \union s
  /\ LET fresh == [c \in Contents |-> IF c \in s THEN "none" ELSE holds[c]]
     IN  holds' = IF Remember THEN HearAll(fresh, found \union s, said) ELSE fresh
  /\ UNCHANGED <<said, ideal>>

Next == (\E m \in Messages : Give(m)) \/ (\E s \in SUBSET Contents : Find(s))

Spec == Init /\ [][Next]_vars

(* order does not matter: what is there has the last key given for it *)
KeysReach == \A c \in found : holds[c] = ideal[c]
NothingElse == \A c \in Contents \ found : holds[c] = "none"
OpenRight == \A c \in found : Open(c, found, holds, Enc) = Open(c, found, ideal, Enc)
MessagesMC == {<<>>, <<0>>, <<1>>, <<2>>, <<-1>>, <<1, 2>>, <<2, -1>>, <<0, 3, 1>>, <<-3>>}
=============================================================================
