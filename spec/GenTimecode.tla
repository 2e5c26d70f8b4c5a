---------------------------- MODULE GenTimecode ----------------------------
(* Pairs of times at and around every carry, at rates that do and do not divide one another; texts of times and one-character damage of them *)
EXTENDS Timecode, FiniteSets, Json, IOUtils, SequencesExt
Rates == {1, 24, 25, 48, 250, 1000}
Es(r) == {0, 1, r \div 2, r - 2, r - 1} \cap (0..(r - 1))
Small == UNION { { <<h, m, s, e, r>> : h \in {0, 9}, m \in {0, 59}, s \in {0, 59}, e \in Es(r) } : r \in Rates }
Pairs == { [kind |-> "pair", a |-> x, b |-> y] : x \in Small, y \in { z \in Small : z[1] = 0 /\ (z[2] = 59 \/ z[3] = 59 \/ z[4] # 0) } }
Texts == { Codes("01:23:45:123"), Codes("01:23:45.678"), Codes("1:2:3:4"), Codes("00:00:00:00"), Codes("99:59:59:249"), Codes("23:59:59.999") }
Cut(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Put(t, i, c) == SubSeq(t, 1, i - 1) \o <<c>> \o SubSeq(t, i, Len(t))
Damaged == Texts \union UNION { { Cut(t, i) : i \in 1..Len(t) } : t \in Texts } \union UNION { { Put(t, i, c) : i \in 1..Len(t), c \in {48, 58, 46} } : t \in Texts }
Cases == Pairs \union { [kind |-> "text", s |-> t] : t \in Damaged }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
