----------------------------- MODULE SoundTrace -----------------------------
(* Judges sound track files: what was given to the writer against what comes back from the file *)
EXTENDS Sound, Common

B == INSTANCE Bitstream WITH W <- 16
F == INSTANCE Fsk

S0S == <<>>

Put(f, k, v) == [i \in (DOMAIN f) \union {k} |-> IF i = k THEN v ELSE f[i]]
SetOf(q) == {q[i] : i \in DOMAIN q}

Length(a) == UnitLength(a.sampling, a.num, a.den)
Duration(a) == Units(Len(a.rows), Length(a))

(* ---- the bits of edit unit u of the synchronisation track, and the samples they make *)
Bytes(bs) == B!LowBits(bs[1], 8) \o B!LowBits(bs[2], 8) \o B!LowBits(bs[3], 8) \o B!LowBits(bs[4], 8)
Packet(a, u, p) ==
  LET q == Quarter(a.num, u, p)
      body == B!LowBits(RateCode(a.num), 4) \o <<0, 0>> \o B!LowBits(q, 2) \o Bytes([i \in 1..4 |-> a.id[q * 4 + i]]) \o B!LowBits(u, 24)
  IN  B!LowBits(77, 8) \o B!LowBits(86, 8) \o body \o B!Checksum(body, 4129) \o B!Zeros(PacketBits(a.num) - 96)
RECURSIVE PacketsFrom(_, _, _)
PacketsFrom(a, u, p) == IF p = PacketsIn(a.num) THEN <<>> ELSE Packet(a, u, p) \o PacketsFrom(a, u, p + 1)
(* the sign with which each bit begins, given the sign and the value of the bit before it *)
RECURSIVE Signs(_, _, _, _)
Signs(bits, sign, last, acc) ==
  IF bits = <<>> THEN acc
  ELSE LET g == IF last = 0 THEN -sign ELSE sign IN Signs(Tail(bits), g, Head(bits), Append(acc, g))
(* the tone of edit units u.., n rows in all, in pieces of an edit unit; before it went a bit of value last that began
   with sign *)
RECURSIVE Tones(_, _, _, _, _)
Tones(a, sign, last, u, n) ==
  IF n <= 0 THEN <<>>
  ELSE LET bits == PacketsFrom(a, u, 0)
           signs == Signs(bits, sign, last, <<>>)
           unit == [i \in 1..Length(a) |-> IF i > n THEN 0 ELSE LET b == (i + 3) \div 4 IN signs[b] * F!Shape(bits[b], (i - 1) % 4)]
       IN  <<unit>> \o Tones(a, signs[Len(signs)], bits[Len(bits)], u + 1, n - Length(a))

(* ---- *)
Fits(a, frames) ==
  \A u \in DOMAIN frames : \A i \in DOMAIN frames[u] : \A c \in DOMAIN frames[u][i] :
    LET at == (u - 1) * Length(a) + i
    IN  frames[u][i][c] \in IF at <= Len(a.rows) THEN a.rows[at][c] ELSE {0}

LabelsRight(a, ev) ==
  IF a.std = "smpte" /\ a.mca = 1 /\ a.started
  THEN LET field == SoundField(a.extra)
           wanted == Labels(a.channels, a.extra)
       IN  /\ ev.field = field
           /\ ev.fieldlang = a.lang
           /\ Len(ev.labels) = Cardinality(wanted)
           /\ {ev.labels[i].channel : i \in DOMAIN ev.labels} = {c + 1 : c \in wanted}
           /\ \A i \in DOMAIN ev.labels : LET b == ev.labels[i] IN b.symbol = Symbol(b.channel - 1, field) /\ b.ul = b.symbol /\ b.name = Name(b.channel - 1, field) /\ b.lang = a.lang /\ b.group = 1
  ELSE ev.field = "" /\ ev.labels = <<>>
Active(a) == IF a.std = "smpte" /\ a.mca = 1 THEN Cardinality(Labels(a.channels, a.extra)) ELSE a.channels

JudgeRead(a, ev) ==
  Clause("the file can be read", ev.error = "") \union
  IF ev.error # "" THEN {}
  ELSE Clause("the file says what it is", /\ ev.num = a.num /\ ev.den = a.den /\ ev.sampling = a.sampling /\ ev.channels = a.channels
                                          /\ ev.std = a.std /\ ev.bits = a.bits /\ ev.sameid = 1)
       \union Clause("it lasts as long as what was written", ev.duration = Duration(a) /\ Len(ev.frames) = Duration(a))
       \union Clause("edit units are all of one length", \A u \in DOMAIN ev.frames : Len(ev.frames[u]) = Length(a) /\ \A i \in DOMAIN ev.frames[u] : Len(ev.frames[u][i]) = a.channels)
       \union Clause("samples come back as given", Len(ev.frames) # Duration(a) \/ Fits(a, ev.frames))
       \union Clause("it is encrypted if it was meant to be", ev.enc = a.enc)
       \union Clause("only the key opens it", IF a.enc = 1 THEN ev.nokey # "same" /\ ev.wrongkey # "same" ELSE ev.nokey = "same")
       \union Clause("channels are labelled", a.foreign = 1 \/ LabelsRight(a, ev))
       \union Clause("the language is kept", a.foreign = 1 \/ ev.lang = IF a.std = "smpte" /\ a.mca = 1 THEN a.lang ELSE "")
       \union Clause("labelled channels are active", a.foreign = 1 \/ ev.active = Active(a))

JudgeSync(a, ev) ==
  Clause("no failure", ev.error = "") \union
  IF ev.error # "" THEN {}
  ELSE LET n == a.tone
           units == Units(n, Length(a))
       IN  Clause("it lasts as long as what was written", ev.duration = units)
           \union Clause("the synchronisation track says when and of what", ev.tone = Tones(a, F!Fresh.sign, F!Fresh.last, 0, n))
           \union Clause("samples come back as given",
                \A c \in DOMAIN ev.others :
                  /\ Len(ev.others[c]) = units
                  /\ \A u \in 1..units :
                       LET m == IF u < units THEN Length(a) ELSE n - (units - 1) * Length(a)
                           v == c
                       IN  ev.others[c][u] = IF c = 14 THEN <<>> ELSE IF m = Length(a) THEN <<<<v, m>>>> ELSE <<<<v, m>>, <<0, Length(a) - m>>>>)

Close(a, b, tolerance) ==
  /\ \A i \in 1..(Duration(a) * Length(a)) : \A c \in 1..a.channels :
       LET x == IF i <= Len(a.rows) THEN CHOOSE v \in a.rows[i][c] : TRUE ELSE 0
           y == IF i <= Len(b.rows) THEN CHOOSE v \in b.rows[i][c] : TRUE ELSE 0
       IN  AbsS(x - y) <= tolerance
SameSound(a, b, tolerance) ==
  /\ a.num = b.num /\ a.den = b.den /\ a.sampling = b.sampling /\ a.channels = b.channels /\ a.bits = b.bits
  /\ Duration(a) = Duration(b)
  /\ Close(a, b, tolerance)

(* storing fails just when the file does, and says so if there is no room *)
Failure(ev) == IF ev.fault = "" THEN "" ELSE IF ev.fault \in {"ENOSPC", "EDQUOT"} THEN "full" ELSE "error"
Stored(ev) == Clause("a failure to store is told as what it is", ev.error = Failure(ev))

JudgeSound(s, ev) ==
  CASE ev.op = "new" ->
         [st |-> Put(s, ev.k, [num |-> ev.num, den |-> ev.den, sampling |-> ev.sampling, channels |-> ev.channels, std |-> ev.std, lang |-> ev.lang,
                               enc |-> ev.enc, sync |-> ev.sync, mca |-> ev.mca, extra |-> SetOf(ev.extra), rows |-> <<>>, started |-> FALSE, bits |-> 24,
                               foreign |-> 0, id |-> ev.id, tone |-> 0]),
          f |-> Clause("a writer is made exactly when what is asked for makes sense",
                       (ev.error = "") = (/\ SetOf(ev.extra) \subseteq Labelled
                                          /\ ev.sync = 1 => ev.channels >= 14 /\ ev.std = "smpte"))]
    [] ev.op = "foreign" ->
         [st |-> Put(s, ev.k, [num |-> ev.num, den |-> ev.den, sampling |-> ev.sampling, channels |-> ev.channels, std |-> "smpte", lang |-> "",
                               enc |-> 0, sync |-> 0, mca |-> 0, extra |-> {}, rows |-> [i \in DOMAIN ev.rows |-> [c \in DOMAIN ev.rows[i] |-> {ev.rows[i][c]}]],
                               started |-> TRUE, bits |-> ev.bits, foreign |-> 1, id |-> <<>>, tone |-> 0]),
          f |-> Clause("no failure", ev.error = "")]
    [] ev.op = "write" ->
         LET a == s[ev.k]
         IN  [st |-> [s EXCEPT ![ev.k].rows = @ \o [i \in DOMAIN ev.rows |-> Row(ev.rows[i], ev.kind, a.channels)], ![ev.k].started = TRUE],
              f |-> Stored(ev)]
    [] ev.op = "tone" ->
         [st |-> [s EXCEPT ![ev.k].tone = @ + ev.n, ![ev.k].started = TRUE], f |-> Stored(ev)]
    [] ev.op = "finalize" ->
         LET a == s[ev.k]
             n == IF a.sync = 1 THEN Units(a.tone, Length(a)) ELSE Duration(a)
         IN  [st |-> s,
              f |-> Stored(ev) \union IF ev.error # "" THEN {} ELSE
                    Clause("finishing says whether there is anything", (ev.made = 1) = a.started /\ ev.there = ev.made)
                    \union Clause("the writer knows how long it is", ev.duration = n)]
    [] ev.op = "read" -> [st |-> s, f |-> JudgeRead(s[ev.k], ev)]
    [] ev.op = "sync" -> [st |-> s, f |-> JudgeSync(s[ev.k], ev)]
    [] ev.op = "compare" ->
         [st |-> s, f |-> Clause("no failure", ev.error = "")
                          \union Clause("sounds are equal exactly when their samples are close enough",
                                        ev.error # "" \/ (ev.same = 1) = (ev.allow = 1 \/ SameSound(s[ev.a], s[ev.b], ev.tolerance)))
                          \union Clause("a difference is said to be one", ev.error # "" \/ (ev.errors > 0) = (ev.same = 0))]
    [] OTHER -> [st |-> s, f |-> {"unknown event"}]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- S0S, Judge <- JudgeSound
=============================================================================
