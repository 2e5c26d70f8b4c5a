---------------------------- MODULE TimecodeTrace ----------------------------
(* Judges arithmetic on the library's film times.  The state is a row of registers, so that a history of additions,
   subtractions and changes of rate is judged step by step.  *)
EXTENDS Timecode, Common

T(x) == [h |-> x[1], m |-> x[2], s |-> x[3], e |-> x[4], tcr |-> x[5]]
Set(regs, k, t) == [i \in (DOMAIN regs) \union {k} |-> IF i = k THEN t ELSE regs[i]]

Compared(ev, a, b) ==
  LET lt == Before(a, b)
      gt == Before(b, a)
      eq == SameTime(a, b)
  IN  Clause("less-than agrees with the times denoted", (ev.lt = 1) = lt)
      \union Clause("greater-than agrees with the times denoted", (ev.gt = 1) = gt)
      \union Clause("equality agrees with the times denoted", (ev.eq = 1) = eq /\ (ev.ne = 1) = ~eq)
      \union Clause("at-most and at-least agree with the times denoted", (ev.le = 1) = ~gt /\ (ev.ge = 1) = ~lt)

(* thousandths of a second, for times in thousandths *)
Million == <<0, 100>>
Ratio(a, b, r) ==
  LET x == Mul(FromInt(Units(a)), Mul(FromInt(b.tcr), Million))
      y == Mul(FromInt(Units(b)), Mul(FromInt(a.tcr), FromInt(r)))
      d == IF Less(x, y) THEN Sub(y, x) ELSE Sub(x, y)
      (* one millionth of the whole and 1/100000 of the value *)
      slack == Add(Mul(FromInt(Units(b)), FromInt(a.tcr)), Mul(FromInt(Units(a)), Mul(FromInt(b.tcr), FromInt(10))))
  IN  AtMost(d, slack)

JudgeTime(s0, ev) ==
  LET reg(i) == s0[i]
      same(i, x) == T(x) = s0[i]
      keep(f) == [st |-> s0, f |-> f]
      put(k, f) == [st |-> Set(s0, k, T(ev.r)), f |-> f]
  IN  CASE ev.op = "set" -> put(ev.k, {})
        [] ev.op = "compare" -> keep(Compared(ev, reg(ev.i), reg(ev.j)))
        [] ev.op = "add" -> put(ev.k, Clause("the sum is exact", IsSum(reg(ev.i), reg(ev.j), T(ev.r))))
        [] ev.op = "sub" -> put(ev.k, Clause("the difference is exact", IsDifference(reg(ev.i), reg(ev.j), T(ev.r))))
        [] ev.op = "rebase" -> put(ev.k, Clause("a change of rate gives the nearest time", IsRebase(reg(ev.i), ev.q, T(ev.r))))
        [] ev.op = "frames" -> put(ev.k, Clause("frame counts become the nearest time", IsOfFrames(ev.n, ev.num, ev.den, ev.q, T(ev.r))))
        [] ev.op = "millis" -> put(ev.k, Clause("seconds become the nearest time", IsOfFrames(ev.n, 1000, 1, ev.q, T(ev.r))))
        [] ev.op = "units" ->
             LET t == reg(ev.i)
             IN  keep(Clause("unit counts are exact", ev.own = Units(t))
                      \union Clause("unit counts at another rate round down", ev.down = UnitsFloor(t, ev.q))
                      \union Clause("unit counts at another rate round up", ev.up = UnitsCeil(t, ev.q))
                      \union Clause("the length in seconds is the one denoted",
                                    ev.secs - Secs(t) \in {-1, 0} /\ Abs(((ev.secs - Secs(t)) * 1000000 + ev.micros) - ((t.e * 1000000) \div t.tcr)) <= 2))
        [] ev.op = "ratio" -> keep(Clause("ratios are those of the lengths", Secs(reg(ev.j)) >= 1 /\ Secs(reg(ev.i)) < 1000 * Secs(reg(ev.j)) => ev.finite = 1 /\ Ratio(reg(ev.i), reg(ev.j), ev.r)))
        [] ev.op = "write" -> keep(Clause("times are written in full", ev.s = Written(reg(ev.i), ev.interop = 1)))
        [] ev.op = "parse" ->
             LET p == Parsed(ev.s, ev.q)
             IN  [st |-> IF ev.ok = 1 THEN Set(s0, ev.k, T(ev.r)) ELSE s0,
                  f |-> Clause("well-formed times are read as what they say", p.k = "ok" => ev.ok = 1 /\ T(ev.r) = p.t)
                        \union Clause("malformed times are refused", p.k = "bad" => ev.ok = 0)
                        \union Clause("refusals are the library's own", ev.ok = 0 => (ev.own = 1 \/ p.k = "free"))]
        [] OTHER -> keep({"unknown event"})

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- <<>>, Judge <- JudgeTime
=============================================================================
