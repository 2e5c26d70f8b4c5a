----------------------------- MODULE Bitstream ------------------------------
(* A stream of bits with checksums in it.

   The stream is a sequence of 0s and 1s.  While a checksum is being accumulated, `mark' is the pair
   <<number of bits before it started, generator>>; otherwise <<>>.  The generator of a W-bit checksum is
   given by its W low-order coefficients, the leading one being implied.  *)
EXTENDS Integers, Sequences

CONSTANT W

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

BitOf(v, i) == (v \div Pow2(i)) % 2
(* the n low-order bits of v, most significant first; v below 2^31 *)
LowBits(v, n) == [i \in 1..n |-> BitOf(v, n - i)]
(* the n low-order bits of a 32-bit word given as two halves *)
WordBits(hi, lo, n) == IF n <= 16 THEN LowBits(lo, n) ELSE LowBits(hi, n - 16) \o LowBits(lo, 16)

Zeros(n) == [i \in 1..n |-> 0]

(* Remainder of the polynomial with coefficients m (any length, most significant first) times x^W on
   division by x^W + poly, by long division: W bits *)
RECURSIVE Divide(_, _)
Divide(m, g) ==
  IF Len(m) < Len(g) THEN m
  ELSE Divide(Tail(IF Head(m) = 0 THEN m ELSE [i \in 1..Len(m) |-> IF i <= Len(g) THEN (m[i] + g[i]) % 2 ELSE m[i]]), g)
Generator(poly) == <<1>> \o LowBits(poly, W)
Checksum(m, poly) == Divide(m \o Zeros(W), Generator(poly))

(* The shift-register form of the same thing, fed one bit at a time *)
Shift(r, b, poly) == LET q == Tail(r) \o <<0>>
                         g == LowBits(poly, W)
                     IN  IF (Head(r) + b) % 2 = 1 THEN [i \in 1..W |-> (q[i] + g[i]) % 2] ELSE q
RECURSIVE Register(_, _)
Register(m, poly) == IF m = <<>> THEN Zeros(W) ELSE Shift(Register(SubSeq(m, 1, Len(m) - 1), poly), m[Len(m)], poly)

(* What each operation makes of a stream s = [bits, mark] *)
Empty == [bits |-> <<>>, mark |-> <<>>]
Write(s, b) == [s EXCEPT !.bits = @ \o b]
Start(s, poly) == [s EXCEPT !.mark = <<Len(s.bits), poly>>]
Covered(s) == SubSeq(s.bits, s.mark[1] + 1, Len(s.bits))
WriteChecksum(s) == [bits |-> s.bits \o Checksum(Covered(s), s.mark[2]), mark |-> <<>>]
=============================================================================
