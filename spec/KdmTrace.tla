------------------------------ MODULE KdmTrace ------------------------------
(* Judges key messages: what their documents say, whether the signatures are right, and who can open them.  *)
EXTENDS Kdm, Common

S0K == [certs |-> <<>>, chains |-> <<>>, msgs |-> <<>>, sealed |-> <<>>, cpls |-> <<>>]

Put(f, k, v) == [i \in (DOMAIN f) \union {k} |-> IF i = k THEN v ELSE f[i]]

Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
RECURSIVE NumberOf(_, _)
NumberOf(s, n) == IF n = 0 THEN 0 ELSE 10 * NumberOf(s, n - 1) + Digit[SubSeq(s, n, n)]
(* YYYYMMDD... *)
CertDay(s) == NumberOf(s, 8)
(* hex of YYYY-MM-DD...: every other digit, the dashes left out *)
MessageDay(h) ==
  LET d(i) == SubSeq(h, 2 * i, 2 * i)
  IN  NumberOf(d(1) \o d(2) \o d(3) \o d(4) \o d(6) \o d(7) \o d(9) \o d(10), 8)

(* pairs that a document must hold *)
Fields(s, x) ==
  LET msg == x.msg
      leaf == x.signers[Len(x.signers)]
      Name(k) == Hex(NameText(s.certs[k]))
      Serial(k) == s.certs[k].serial
  IN  {<<"MessageType", Hex(<<104, 116, 116, 112, 58, 47, 47, 119, 119, 119, 46, 115, 109, 112, 116, 101, 45, 114, 97, 46, 111, 114, 103, 47, 52, 51, 48, 45, 49, 47, 50, 48, 48, 54, 47, 75, 68, 77, 35, 107, 100, 109, 45, 107, 101, 121, 45, 116, 121, 112, 101>>)>>,
       <<"Signer/X509IssuerName", Name(Above(s.certs, leaf))>>,
       <<"Signer/X509SerialNumber", Serial(leaf)>>,
       <<"Recipient/X509IssuerSerial/X509IssuerName", Name(Above(s.certs, x.r))>>,
       <<"Recipient/X509IssuerSerial/X509SerialNumber", Serial(x.r)>>,
       <<"Recipient/X509SubjectName", Name(x.r)>>,
       <<"ContentTitleText", msg.title>>,
       <<"ContentKeysNotValidBefore", msg.before>>,
       <<"ContentKeysNotValidAfter", msg.after>>}
      \union (IF msg.annotated = 1 THEN {<<"AnnotationText", msg.annotation>>} ELSE {})
      \union (IF x.f \in {"any", "specific"} THEN {<<"ContentAuthenticator", s.certs[leaf].thumb>>} ELSE {})

JudgeDocument(s, x, ev) ==
  LET msg == x.msg
      said == {ev.fields[i] : i \in DOMAIN ev.fields}
      Named == {f \in said : f[1] # "CompositionPlaylistId"}
      n == Len(x.signers)
      leaf == x.signers[n]
  IN  Clause("the document says what it should", Named = Fields(s, x) /\ Len(ev.fields) = Cardinality(said) /\ Cardinality(said) = Cardinality(Named) + 1)
      \union Clause("the document is for the composition", ev.cpl = msg.keys[1][4])
      \union Clause("the document lists the keys", ev.keyids = KeyIds(msg) /\ Len(ev.blocks) = Len(msg.keys))
      \union Clause("the recipient's blocks have the keys", ev.blocks = [i \in DOMAIN msg.keys |-> Block(s.certs[leaf].print, msg.before, msg.after, msg.keys[i])])
      \union Clause("the document lists the devices", ev.devices = Devices(x.f, x.given) /\ ev.trusted = ev.devices)
      \union Clause("the document has the marking flags", ev.flags = Flags(x.picture, x.audio, ToString(x.audio)))
      \union Clause("the document carries the signing chain, leaf first",
                    ev.signers = [i \in 1..n |-> LET k == x.signers[n + 1 - i] IN <<k, Hex(NameText(s.certs[Above(s.certs, k)])), s.certs[k].serial>>])
      \union Clause("the signature is right", ev.signed = 1)
      \union Clause("the signature covers the message", ev.covers = 1)
      \union Clause("the message is read as written",
                    /\ <<ev.title, ev.before, ev.after>> = <<msg.title, msg.before, msg.after>>
                    /\ ev.annotated = msg.annotated /\ (msg.annotated = 1 => ev.annotation = msg.annotation)
                    /\ ev.subject = Hex(NameText(s.certs[x.r]))
                    /\ ev.chain = x.signers)

KeysOf(ev) == [i \in DOMAIN ev.keys |-> <<ev.keys[i][1], ev.keys[i][2], ev.keys[i][3], ev.keys[i][4]>>]
Smpte(ev) == \A i \in DOMAIN ev.keys : ev.keys[i][5] = "smpte"

JudgeKdm(s, ev) ==
  LET fine == Clause("no failure", ev.error = "")
      keep(f) == [st |-> s, f |-> f]
  IN  CASE ev.op = "cert" ->
             [st |-> [s EXCEPT !.certs = Put(@, ev.k, [person |-> ev.person, issuer |-> ev.issuer, ca |-> ev.ca, signer |-> ev.signer, o |-> ev.o, ou |-> ev.ou, cn |-> ev.cn, dn |-> ev.dn, serial |-> ev.serial, thumb |-> ev.thumb, print |-> ev.print, from |-> CertDay(ev.before), to |-> CertDay(ev.after)])], f |-> {}]
        [] ev.op = "chain" -> [st |-> [s EXCEPT !.chains = Put(@, ev.c, OrderedList(s.certs, ev.ks))], f |-> fine]
        [] ev.op = "message" ->
             [st |-> [s EXCEPT !.msgs = Put(@, ev.m, [before |-> ev.before, after |-> ev.after, title |-> ev.title, annotation |-> ev.annotation, annotated |-> 1, keys |-> <<>>])], f |-> fine]
        [] ev.op = "key" -> [st |-> [s EXCEPT !.msgs[ev.m].keys = Append(@, <<ev.type, ev.id, ev.key, ev.cpl>>)], f |-> fine]
        [] ev.op = "composition" ->
             [st |-> IF ev.error # "" THEN s ELSE [s EXCEPT !.cpls = Put(@, ev.c, [parts |-> ev.parts, id |-> ev.id, key |-> ev.key])], f |-> fine]
        [] ev.op = "forall" ->
             LET c == s.cpls[ev.c]
                 locked == {p \in Elements(c.parts) : p.enc = 1}
                 want == {<<TypeOf(p.role), p.id, c.key, c.id>> : p \in locked}
             IN  IF locked = {} /\ ev.how = "cpl" THEN keep(Clause("a composition without encryption has no keys", ev.error = "unencrypted"))
                 ELSE IF ev.error # "" THEN keep({"no failure"})
                 ELSE [st |-> [s EXCEPT !.msgs = Put(@, ev.m, [before |-> ev.before, after |-> ev.after, title |-> ev.title, annotation |-> ev.annotation, annotated |-> 1, keys |-> KeysOf(ev)])],
                       f |-> Clause("a composition's message has the keys of its encrypted parts", Elements(KeysOf(ev)) = want /\ Len(ev.keys) = Cardinality(want) /\ Smpte(ev))]
        [] ev.op = "seal" ->
             LET msg == s.msgs[ev.m]
                 down == s.chains[ev.c]
                 x == [msg |-> msg, r |-> ev.r, f |-> ev.f, given |-> ev.given, picture |-> ev.picture, audio |-> ev.audio, signers |-> down, windows |-> {}]
                 refused == IF down = <<0>> THEN "chain" ELSE Outside(s.certs, Reversed(down), <<MessageDay(msg.before), MessageDay(msg.after)>>)
             IN  IF refused # "" \/ ev.error # "" THEN keep(Clause("messages are sealed exactly when the signer may", ev.error = refused))
                 ELSE [st |-> [s EXCEPT !.sealed = Put(@, ev.e, x)],
                       f |-> JudgeDocument(s, x, ev) \union Clause("keys are not shown", ev.leaked = 0)]
        [] ev.op = "reread" ->
             IF ev.error # "" THEN keep({"no failure"})
             ELSE [st |-> [s EXCEPT !.sealed = Put(@, ev.f, s.sealed[ev.e])],
                   f |-> JudgeDocument(s, s.sealed[ev.e], ev) \union Clause("writing what was read changes nothing", ev.same = 1 /\ ev.equal = 1 /\ ev.id = 1)]
        [] ev.op = "foreign" ->
             LET x == s.sealed[ev.e]
                 ks == [i \in DOMAIN ev.blocks |-> Opened(ev.blocks[i])]
             IN  [st |-> [s EXCEPT !.sealed = Put(@, ev.f, [x EXCEPT !.msg.keys = ks, !.msg.annotated = ev.annotated, !.windows = {WindowIn(ev.blocks[i]) : i \in DOMAIN ev.blocks}])],
                  f |-> fine]
        [] ev.op = "open" ->
             LET x == s.sealed[ev.e]
                 msg == x.msg
             IN  IF s.certs[x.r].person # ev.person THEN keep(Clause("only the recipient can open it", ev.error = "locked"))
                 ELSE IF Cardinality(x.windows) > 1 THEN keep(Clause("keys of one message have one window", ev.error = "inconsistent"))
                 ELSE IF ev.error # "" THEN keep({"no failure"})
                 ELSE [st |-> [s EXCEPT !.msgs = Put(@, ev.n, msg)],
                       f |-> Clause("the recipient gets the keys", IF x.windows = {} THEN KeysOf(ev) = msg.keys /\ Smpte(ev) ELSE ev.keys = msg.keys)
                             \union Clause("the recipient gets the rest", ev.title = msg.title /\ ev.annotated = msg.annotated /\ (msg.annotated = 1 => ev.annotation = msg.annotation) /\ ev.date = 1)]
        [] OTHER -> keep({"unknown event"})

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- S0K, Judge <- JudgeKdm
=============================================================================
