---------------------------- MODULE MCBitstream -----------------------------
(* Every history of a few operations on a stream with a W-bit checksum, W small *)
EXTENDS Bitstream, FiniteSets

CONSTANTS MaxBits, Polys

VARIABLES s, written, sums
(* history: everything asked to be written; for each checksum <<generator, bits covered, where it ended>> *)
vars == <<s, written, sums>>

Init == s = Empty /\ written = <<>> /\ sums = {}

WriteSome ==
  \E n \in 0..3 : \E v \in 0..(Pow2(n + 1) - 1) :
    /\ Len(s.bits) + n <= MaxBits
    /\ s' = Write(s, LowBits(v, n))
    /\ written' = written \o LowBits(v % Pow2(n), n)
    /\ UNCHANGED sums

StartSum == /\ s.mark = <<>>
            /\ \E p \in Polys : s' = Start(s, p)
            /\ UNCHANGED <<written, sums>>

EndSum == /\ s.mark # <<>>
          /\ Len(s.bits) + W <= MaxBits
          /\ s' = WriteChecksum(s)
          /\ sums' = sums \union {<<s.mark[2], Covered(s), Len(s'.bits)>>}
          /\ written' = written \o Checksum(Covered(s), s.mark[2])

Next == WriteSome \/ StartSum \/ EndSum
Spec == Init /\ [][Next]_vars

(* the stream is what was asked for, in order *)
InOrder == s.bits = written
(* the two definitions of the checksum agree *)
Forms == \A q \in sums : Register(q[2], q[1]) = Checksum(q[2], q[1])
(* a receiver that divides the covered bits followed by the checksum gets no remainder *)
Detects == \A q \in sums : Checksum(SubSeq(s.bits, q[3] - W - Len(q[2]) + 1, q[3]), q[1]) = Zeros(W)
(* damage to a single bit is noticed if the generator has a constant term *)
Single == \A q \in sums : q[1] % 2 = 1 =>
            \A i \in 1..Len(q[2]) : Checksum([q[2] EXCEPT ![i] = 1 - @], q[1]) # Checksum(q[2], q[1])
(* nothing written is ever changed *)
AppendOnly == [][Len(s'.bits) >= Len(s.bits) /\ SubSeq(s'.bits, 1, Len(s.bits)) = s.bits]_vars
=============================================================================
