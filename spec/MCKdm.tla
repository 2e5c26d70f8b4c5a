------------------------------- MODULE MCKdm -------------------------------
(* Key messages with symbolic encryption and signatures.  Messages are sealed for one person and signed; anybody can
   read a document and write it out again, or change what it says.  Whoever reads a document and writes it again keeps
   only the parts in Kept.  *)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS People, Secrets, Parts, Values, Kept, MaxMail

VARIABLES mail, knows, made

vars == <<mail, knows, made>>

Blank == "-"
(* says: what the document says in each of its parts; locked: the secrets inside, for their reader; sig: who signed what;
   honest: it was only ever read and written again *)
Init == mail = {} /\ made = {} /\ knows = [p \in People |-> {}]

Seal(p, r, ss, says) ==
  /\ Cardinality(mail) < MaxMail
  /\ LET m == [says |-> says, for |-> r, locked |-> ss, by |-> p, signed |-> <<says, r, ss>>, honest |-> TRUE]
     IN  mail' = mail \union {m} /\ made' = made \union {<<p, says, r, ss>>}
  /\ knows' = [knows EXCEPT ![p] = @ \union ss]

Rewrite(m) ==
  /\ Cardinality(mail) < MaxMail
  /\ mail' = mail \union {[m EXCEPT !.says = [x \in Parts |-> IF x \in Kept THEN @[x] ELSE Blank]]}
  /\ UNCHANGED <<knows, made>>

Change(m, x, v) ==
  /\ Cardinality(mail) < MaxMail
  /\ mail' = mail \union {[m EXCEPT !.says[x] = v, !.honest = FALSE]}
  /\ UNCHANGED <<knows, made>>

(* one message's secrets put in another's place *)
Swap(m, n) ==
  /\ Cardinality(mail) < MaxMail
  /\ mail' = mail \union {[m EXCEPT !.locked = n.locked, !.for = n.for, !.honest = FALSE]}
  /\ UNCHANGED <<knows, made>>

Read(p, m) ==
  /\ m.for = p
  /\ knows' = [knows EXCEPT ![p] = @ \union m.locked]
  /\ UNCHANGED <<mail, made>>

Says == [Parts -> Values]
Next ==
  \/ \E p, r \in People, ss \in (SUBSET Secrets) \ {{}}, says \in Says : Seal(p, r, ss, says)
  \/ \E m \in mail : Rewrite(m) \/ (\E x \in Parts, v \in Values : Change(m, x, v)) \/ (\E p \in People : Read(p, m)) \/ (\E n \in mail : Swap(m, n))

Spec == Init /\ [][Next]_vars

Right(m) == m.signed = <<m.says, m.for, m.locked>>

(* secrets are known only to those who sealed them and those they were sealed for *)
Confidential == \A p \in People : \A s \in knows[p] : \E x \in made : s \in x[4] /\ p \in {x[1], x[3]}
(* a signature that is right says what its maker said *)
Authentic == \A m \in mail : Right(m) => <<m.by, m.says, m.for, m.locked>> \in made
(* reading and writing does no harm *)
Preserved == \A m \in mail : m.honest => Right(m)
=============================================================================
