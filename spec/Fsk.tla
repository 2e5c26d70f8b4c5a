-------------------------------- MODULE Fsk ---------------------------------
(* The synchronisation tone.  Each bit of the data becomes four samples.  The state is what is left to do
   (data, index of the bit, number of samples of it already taken) and what went before: the sign the last
   bit began with, and its value.  Signs are 1 and -1. *)
EXTENDS Integers, Sequences

(* 24-bit magnitudes, 2^23 times 0.03827, 0.09239 and 0.07071 rounded down *)
Outer == 321032
Inner == 775023
Flat == 593158

Magnitude(bit, k) == IF bit = 1 THEN Flat ELSE IF k \in {1, 2} THEN Inner ELSE Outer
(* the shape of a bit: a 1 changes sign half-way through *)
Shape(bit, k) == (IF bit = 1 /\ k \in {2, 3} THEN -1 ELSE 1) * Magnitude(bit, k)

Fresh == [data |-> <<>>, at |-> 1, k |-> 0, sign |-> -1, last |-> 0]

SetData(s, d) == [s EXCEPT !.data = d, !.at = 1, !.k = 0]

HasMore(s) == s.at <= Len(s.data)
Bit(s) == s.data[s.at]
(* A bit starts with the opposite sign to that with which the bit before ended *)
Sign(s) == IF s.k = 0 /\ s.last = 0 THEN -s.sign ELSE s.sign
Sample(s) == Sign(s) * Shape(Bit(s), s.k)
Advance(s) == [s EXCEPT !.sign = Sign(s), !.last = Bit(s), !.k = (s.k + 1) % 4, !.at = IF s.k = 3 THEN @ + 1 ELSE @]
=============================================================================
