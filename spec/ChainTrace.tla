----------------------------- MODULE ChainTrace -----------------------------
(* Judges what certificates say of themselves, which lists of them are chains, chains the library makes, and documents
   signed by them.  *)
EXTENDS Pki, Common, TLC

S0C == [certs |-> <<>>, chains |-> <<>>]
Put(f, k, v) == [i \in (DOMAIN f) \union {k} |-> IF i = k THEN v ELSE f[i]]

KeyFits(s, order, person) == order = <<>> \/ (order # <<0>> /\ person # 0 /\ s.certs[order[Len(order)]].person = person)
SignerOf(s, k) == <<k, Hex(NameText(s.certs[Above(s.certs, k)])), s.certs[k].serial>>
Method(standard) == IF standard = "interop" THEN "http://www.w3.org/2000/09/xmldsig#rsa-sha1" ELSE "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256"

JudgeChain(s, ev) ==
  LET fine == Clause("no failure", ev.error = "")
      keep(f) == [st |-> s, f |-> f]
  IN  CASE ev.op = "cert" ->
             [st |-> [s EXCEPT !.certs = Put(@, ev.k, [person |-> ev.person, issuer |-> ev.issuer, ca |-> ev.ca, signer |-> ev.signer, o |-> ev.o, ou |-> ev.ou, cn |-> ev.cn, dn |-> ev.dn,
                                                      serial |-> ev.serial, thumb |-> ev.thumb, before |-> ev.before, after |-> ev.after, utf8 |-> ev.utf8])], f |-> {}]
        [] ev.op = "look" ->
             LET c == s.certs[ev.k]
                 a == s.certs[Above(s.certs, ev.k)]
             IN  IF ev.error # "" THEN keep({"no failure"})
                 ELSE keep(Clause("names are told", ev.subject = Hex(NameText(c)) /\ ev.issuer = Hex(NameText(a)))
                           \union Clause("parts of names are told", <<ev.cn, ev.o, ev.ou, ev.dn>> = <<c.cn, c.o, c.ou, c.dn>> /\ <<ev.icn, ev.io, ev.iou>> = <<a.cn, a.o, a.ou>>)
                           \union Clause("number and thumbprint are told", ev.serial = c.serial /\ ev.thumb = c.thumb)
                           \union Clause("the window is told", ev.before = c.before /\ ev.after = c.after)
                           \union Clause("kinds of text are told", ev.utf8 = c.utf8)
                           \union Clause("the certificate's text is kept", ev.same = 1))
        [] ev.op = "chain" ->
             LET order == OrderedList(s.certs, ev.ks)
                 good == order # <<0>>
                 fits == KeyFits(s, order, ev.person)
                 yes(b) == IF b THEN 1 ELSE 0
             IN  IF ev.error # "" \/ (ev.how = "text" /\ ~good) THEN keep(Clause("text is read as a chain exactly when it is one", ev.how = "text" /\ ~good /\ ev.error = "chain"))
                 ELSE [st |-> [s EXCEPT !.chains = Put(@, ev.c, [ks |-> ev.ks, person |-> ev.person])],
                       f |-> Clause("certificates are held as given", ev.held = ev.ks)
                             \union Clause("certificates are ordered by who vouches for whom",
                                           ev.down = order /\ (IF good THEN ev.up = Reversed(order) ELSE TRUE) /\ ev.again = order
                                           /\ (IF good /\ order # <<>> THEN ev.root = order[1] /\ ev.leaf = order[Len(order)] ELSE TRUE))
                             \union Clause("a list in the right order is known for it", ev.inorder = yes(good /\ order = ev.ks))
                             \union Clause("a chain is valid if its certificates make one and the key is its leaf's", ev.valid = yes(good /\ fits) /\ ev.why = 1 - ev.valid /\ (good => ev.keyed = yes(fits)))]
        [] ev.op = "remove" ->
             IF ev.c \notin DOMAIN s.chains THEN keep({}) ELSE
             LET c == s.chains[ev.c]
                 at == {i \in DOMAIN c.ks : c.ks[i] = ev.k}
                 first == CHOOSE i \in at : \A k \in at : i <= k
                 left == IF at = {} THEN c.ks ELSE SubSeq(c.ks, 1, first - 1) \o SubSeq(c.ks, first + 1, Len(c.ks))
                 order == OrderedList(s.certs, left)
             IN  IF ev.error # "" THEN keep({"no failure"})
                 ELSE [st |-> [s EXCEPT !.chains = Put(@, ev.c, [c EXCEPT !.ks = left])],
                       f |-> Clause("a removed certificate has gone", ev.held = left /\ ev.valid = (IF order # <<0>> /\ KeyFits(s, order, c.person) THEN 1 ELSE 0))]
        [] ev.op = "made" ->
             IF ev.error # "" THEN keep({"no failure"})
             ELSE keep(Clause("a new chain is a chain", ev.valid = 1 /\ Len(ev.certs) = 3)
                       \union Clause("nothing is left behind", ev.tidy = 1)
                       \union (IF Len(ev.certs) # 3 THEN {} ELSE
                          Clause("a new chain has the names asked for", \A i \in 1..3 : LET c == ev.certs[i] IN c.o = ev.o /\ c.ou = ev.ou /\ c.cn = (CASE i = 1 -> ev.names0 [] i = 2 -> ev.names1 [] OTHER -> ev.names2))
                          \union Clause("a new chain's certificates vouch for each other, with names qualified by keys", \A i \in 1..3 : SubSeq(ev.certs[i].facts, 1, 3) = <<1, 1, 1>> /\ ev.certs[i].facts[4] = (IF i = 3 THEN 0 ELSE 1) /\ ev.certs[i].facts[5] = 1)
                          \union Clause("a new chain lasts as long as asked, those below for less", \A i \in 1..3 : ev.certs[i].facts[6] = ev.days + 1 - i)))
        [] ev.op = "sign" ->
             LET c == s.chains[ev.c]
                 order == OrderedList(s.certs, c.ks)
                 n == Len(order)
             IN  IF ev.error # "" THEN keep({"no failure"})
                 ELSE keep(Clause("documents are signed by the leaf's key", ev.signed = 1 /\ ev.others = 0 /\ ev.method = Method(ev.standard))
                           \union Clause("signatures cover documents", ev.covers = 1)
                           \union Clause("signed documents say who signed them", ev.signer = <<SignerOf(s, order[n])[2], SignerOf(s, order[n])[3], Hex(NameText(s.certs[order[n]]))>>)
                           \union Clause("signed documents carry the chain, leaf first", ev.signers = [i \in 1..n |-> SignerOf(s, order[n + 1 - i])])
                           \union Clause("signed documents can be read", ev.read = 1))
        [] OTHER -> keep({"unknown event"})

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- S0C, Judge <- JudgeChain
=============================================================================
