--------------------------- MODULE LocalTimeTrace ---------------------------
(* Judges what dcp::LocalTime was seen to do.  The state is the timestamp under construction. *)
EXTENDS LocalTime, Common

VARIABLES l, dead, cur, zone
vars == <<l, dead, cur, zone>>

(* An observed object shows its fields, its text with milliseconds and zone, and whether it equals a
   timestamp made from those *)
Shows(ev, t) == Clause("fields", ev.f = Fields(t)) \union Clause("text", ev.text = Text(t, TRUE, TRUE)) \union Clause("offset", t[1] \in 1401..9998 => ev.same = 1)

Bools(s) == [i \in 1..Len(s) |-> s[i] = 1]

Fails(ev) ==
  CASE ev.op = "parse" ->
         LET p == Parse(ev.s)
         IN  IF ev.ok = 1
             THEN Clause("must-refuse", p.verdict # "refuse") \union
                  (IF p.verdict = "refuse" THEN {}
                   ELSE Clause("parsed-fields", ev.f = Fields(p.value)) \union
                        (IF p.verdict = "accept" THEN Shows(ev, p.value) ELSE {}))
             ELSE Clause("must-accept", p.verdict # "accept")
    [] ev.op = "make" ->
         Shows(ev, ev.t) \union
         Clause("plain-text", ev.texts = <<Text(ev.t, FALSE, FALSE), Text(ev.t, FALSE, TRUE), Text(ev.t, TRUE, FALSE), Text(ev.t, TRUE, TRUE)>>) \union
         Clause("date", ev.date = DateText(ev.t)) \union
         Clause("time-of-day", ev.tod = <<TimeText(ev.t, FALSE, FALSE), TimeText(ev.t, TRUE, FALSE), TimeText(ev.t, TRUE, TRUE)>>) \union
         Clause("reread", ev.reread = <<Fields(ev.t), ZoneText(ev.t[8])>>) \union
         Clause("reread-seconds", ev.reread0 = <<[Fields(ev.t) EXCEPT ![7] = 0], ZoneText(ev.t[8])>>)
    [] ev.op = "local" ->
         (* made from a time without a zone, in a process whose zone is off *)
         Shows(ev, ev.t)
    [] ev.op = "cmp" ->
         Clause("comparison", Bools(ev.r) = Compare(ev.a, ev.b)) \union
         Clause("reverse-comparison", Bools(ev.rr) = Compare(ev.b, ev.a)) \union
         Clause("operands-unchanged", ev.before = ev.after)
    [] ev.op = "asn1" ->
         LET t == IF ev.kind = "utc" THEN AsnUtc(ev.s) ELSE AsnGeneralized(ev.s)
         IN  Clause("fields", ev.f = Fields(t)) \union Clause("utc", ev.zone = ev.utc)
    [] ev.op = "epoch" -> Clause("seconds-since-epoch", <<ev.day, ev.sec>> = SecondsSinceEpoch(ev.t))
    [] OTHER -> {"unknown-event"}

Stateful == {"new", "add_days", "add_months", "add_minutes", "add", "set_offset", "set_day", "set_month", "set_year"}

Next1(ev) ==
  CASE ev.op = "new" -> ev.t
    [] ev.op = "add_days" -> AddDays(cur, ev.n)
    [] ev.op = "add_months" -> AddMonths(cur, ev.n)
    [] ev.op = "add_minutes" -> AddMinutes(cur, ev.n)
    [] ev.op = "add" -> AddDayMs(cur, ev.days, ev.ms)
    [] ev.op = "set_offset" -> WithOff(cur, ev.n)
    [] ev.op = "set_day" -> [cur EXCEPT ![3] = ev.n]
    [] ev.op = "set_month" -> [cur EXCEPT ![2] = ev.n]
    [] ev.op = "set_year" -> [cur EXCEPT ![1] = ev.n]

(* Additions leave the displacement alone: the zone reads as it did before *)
StatefulFails(ev, n) ==
  IF ev.ok # 1 THEN {"threw"}
  ELSE Clause("fields", ev.f = Fields(n)) \union
       Clause("zone", ev.op \in {"new", "set_offset"} \/ ev.zone = zone)

Init == l = 1 /\ dead = FALSE /\ cur = <<>> /\ zone = <<>>

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l]
     IN  IF ev.op = "reset" THEN dead' = FALSE /\ cur' = <<>> /\ zone' = <<>>
         ELSE IF dead THEN UNCHANGED <<dead, cur, zone>>
         ELSE LET n == IF ev.op \in Stateful THEN Next1(ev) ELSE cur
                  f == IF ev.op \in Stateful THEN StatefulFails(ev, n) ELSE Fails(ev)
              IN  /\ IF f = {} THEN TRUE ELSE Report(l, f)
                  /\ dead' = (f # {})
                  /\ cur' = n
                  /\ zone' = IF ev.op \in Stateful THEN ev.zone ELSE zone

Spec == Init /\ [][Consume]_vars
=============================================================================
