--------------------------- MODULE BitstreamTrace ---------------------------
(* Judges what dcp::Bitstream was seen to do: every event shows all the bits so far *)
EXTENDS Bitstream, Common

After(s, ev) ==
  CASE ev.op = "bit" -> Write(s, <<ev.v>>)
    [] ev.op = "byte" -> Write(s, LowBits(ev.v, ev.n))
    [] ev.op = "word" -> Write(s, WordBits(ev.hi, ev.lo, ev.n))
    [] ev.op = "start" -> Start(s, ev.poly)
    [] ev.op = "crc" -> WriteChecksum(s)

JudgeBits(s, ev) ==
  IF ev.threw = 1 THEN [st |-> s, f |-> {"threw"}]
  ELSE LET n == After(s, ev)
       IN  [st |-> n, f |-> Clause("earlier-bits-unchanged", Len(ev.bits) >= Len(s.bits) /\ SubSeq(ev.bits, 1, Len(s.bits)) = s.bits) \union
                            Clause(IF ev.op = "crc" THEN "checksum" ELSE "new-bits", ev.bits = n.bits)]

VARIABLES l, dead, st
INSTANCE TraceRun WITH S0 <- Empty, Judge <- JudgeBits
=============================================================================
