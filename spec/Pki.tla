-------------------------------- MODULE Pki --------------------------------
(* Certificates and chains of them.  A certificate is [person, issuer, o, ou, cn, dn, ...]: person's public key under the
   name (o, ou, cn, dn), vouched for by certificate issuer (0: by itself).  Text is a sequence of character codes, and
   where it is compared with a document a string of hex digits.  *)
EXTENDS Sequences, FiniteSets, Integers

HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Upper == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70>>
Byte(c) == HexDigits[(c \div 16) + 1] \o HexDigits[(c % 16) + 1]
RECURSIVE Hex(_)
Hex(s) == IF s = <<>> THEN "" ELSE Byte(Head(s)) \o Hex(Tail(s))

(* RFC 2253: a name written backwards, with some characters escaped *)
Special == {44, 43, 34, 92, 60, 62, 59}
EscapeAt(s, i) ==
  LET c == s[i]
  IN  IF c \in Special \/ (i = 1 /\ c \in {32, 35}) \/ (i = Len(s) /\ c = 32) THEN <<92, c>>
      ELSE IF c < 32 \/ c > 126 THEN <<92, Upper[(c \div 16) + 1], Upper[(c % 16) + 1]>>
      ELSE <<c>>
RECURSIVE EscapeFrom(_, _)
EscapeFrom(s, i) == IF i > Len(s) THEN <<>> ELSE EscapeAt(s, i) \o EscapeFrom(s, i + 1)
Escape(s) == EscapeFrom(s, 1)

NameText(c) ==
  <<100, 110, 81, 117, 97, 108, 105, 102, 105, 101, 114, 61>> \o Escape(c.dn) \o <<44, 67, 78, 61>> \o Escape(c.cn)
    \o <<44, 79, 85, 61>> \o Escape(c.ou) \o <<44, 79, 61>> \o Escape(c.o)
SameName(a, b) == a.o = b.o /\ a.ou = b.ou /\ a.cn = b.cn /\ a.dn = b.dn

(* the certificate that vouches for k *)
Above(certs, k) == IF certs[k].issuer = 0 THEN k ELSE certs[k].issuer
(* a really vouches for b: it may, b names it, and the signature is a's *)
Link(certs, a, b) ==
  certs[a].ca = 1 /\ ~SameName(certs[a], certs[b]) /\ certs[b].issuer # 0 /\ SameName(certs[certs[b].issuer], certs[a]) /\ certs[b].signer = certs[a].person
Root(certs, k) == certs[k].issuer = 0
Elements(ks) == {ks[i] : i \in DOMAIN ks}
(* ks, a sequence of certificates, runs from a root to a leaf.  One by itself always does *)
IsChain(certs, ks) ==
  Len(ks) < 2 \/ (Root(certs, ks[1]) /\ \A i \in 1..(Len(ks) - 1) : Link(certs, ks[i], ks[i + 1]))
(* the order in which these are a chain, found by walking down from the only root; <<0>> if there is none *)
RECURSIVE Downwards(_, _, _)
Downwards(certs, set, k) ==
  LET below == {x \in set \ {k} : Link(certs, k, x)}
  IN  IF below = {} THEN <<k>> ELSE <<k>> \o Downwards(certs, set \ {k}, CHOOSE x \in below : TRUE)
Ordered(certs, set) ==
  IF set = {} THEN <<>>
  ELSE IF Cardinality(set) = 1 THEN <<CHOOSE k \in set : TRUE>>
  ELSE LET roots == {k \in set : Root(certs, k)}
           ks == Downwards(certs, set, CHOOSE k \in roots : TRUE)
       IN  IF Cardinality(roots) = 1 /\ Elements(ks) = set THEN ks ELSE <<0>>
(* of a list, which is no chain if anything is in it twice *)
OrderedList(certs, ks) == IF Cardinality(Elements(ks)) # Len(ks) THEN <<0>> ELSE Ordered(certs, Elements(ks))
Reversed(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
=============================================================================
