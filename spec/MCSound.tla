------------------------------- MODULE MCSound -------------------------------
(* A writer with a buffer of one edit unit.  Rows come in calls of any length; whenever the buffer is full it goes to the
   file.  Rows are numbers, 0 is silence.  Along with it the packets of a synchronisation track are numbered as they go
   by; ByUnit numbers the quarters of the identifier afresh in every edit unit instead, and
   without Keep the rest of the last edit unit is whatever the buffer held before.  *)
EXTENDS Sound, TLC

CONSTANTS Lengths, MaxRows, Rates, ByUnit, Keep

VARIABLES Length, given, buffer, file, done, rate, quarters, next

vars == <<Length, given, buffer, file, done, rate, quarters, next>>

Silence(n) == [i \in 1..n |-> 0]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

Init == /\ Length \in Lengths /\ given = <<>> /\ buffer = <<>> /\ file = <<>> /\ done = FALSE /\ rate \in Rates /\ quarters = <<>> /\ next = 0

(* what rows do to the buffer and the file *)
RECURSIVE Put(_, _, _)
Put(b, f, rows) ==
  IF rows = <<>> THEN <<b, f>>
  ELSE LET b2 == Append(b, Head(rows))
       IN  IF Len(b2) = Length THEN Put(<<>>, Append(f, b2), Tail(rows)) ELSE Put(b2, f, Tail(rows))

Write(n) ==
  /\ ~done /\ Len(given) + n <= MaxRows
  /\ LET rows == [i \in 1..n |-> Len(given) + i]
         r == Put(buffer, file, rows)
     IN  /\ given' = given \o rows
         /\ buffer' = r[1]
         /\ file' = r[2]
         /\ LET new == Len(r[2]) - Len(file)
                RECURSIVE Tags(_, _)
                Tags(k, from) == IF k = 0 THEN <<>>
                                 ELSE [p \in 1..PacketsIn(rate) |-> <<(from + p - 1) % 4, IF ByUnit THEN p - 1 ELSE (from + p - 1) % 4>>]
                                      \o Tags(k - 1, (from + PacketsIn(rate)) % 4)
            IN  /\ quarters' = quarters \o Tags(new, next)
                /\ next' = (next + new * PacketsIn(rate)) % 4
  /\ UNCHANGED <<Length, done, rate>>

Finish ==
  /\ ~done
  /\ done' = TRUE
  /\ file' = IF buffer = <<>> THEN file
             ELSE Append(file, buffer \o IF Keep THEN Silence(Length - Len(buffer))
                                         ELSE IF file = <<>> THEN Silence(Length - Len(buffer)) ELSE SubSeq(file[Len(file)], Len(buffer) + 1, Length))
  /\ buffer' = <<>>
  /\ UNCHANGED <<Length, given, rate, quarters, next>>

Next == (\E n \in 1..(2 * Length + 1) : Write(n)) \/ Finish

Spec == Init /\ [][Next]_vars

(* nothing is lost, added or moved *)
Kept == ~done => Flat(file) \o buffer = given
InUnits == \A i \in DOMAIN file : Len(file[i]) = Length
Complete == done => /\ Len(file) = Units(Len(given), Length)
                    /\ SubSeq(Flat(file), 1, Len(given)) = given
                    /\ \A i \in (Len(given) + 1)..(Len(file) * Length) : Flat(file)[i] = 0
(* a receiver that hears any four packets one after another knows the whole identifier *)
Identified == \A i \in 1..(Len(quarters) - 3) : {quarters[i + k][2] : k \in 0..3} = 0..3
Tagged == \A i \in DOMAIN quarters : quarters[i][1] = quarters[i][2]
Stored == \A n \in {-2147483647, -8388609, -8388608, -8388607, -1, 0, 1, 8388606, 8388607, 8388608, 16777215, 2147483647} :
            /\ \A x \in OfInteger(n) : Bottom <= x /\ x <= Top /\ (Bottom <= n /\ n <= Top => x = n) /\ (n > 0 => x > 0) /\ (n < 0 => x < 0)
            /\ \A x \in OfReal(n) : Bottom <= x /\ x <= Top /\ (n > 0 => x > 0) /\ (n < 0 => x < 0)
Fills == \A r \in SyncRates : PacketBits(r) * 4 * PacketsIn(r) = UnitLength(48000, r, 1)
ASSUME Stored /\ Fills
=============================================================================
