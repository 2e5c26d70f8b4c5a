-------------------------------- MODULE Text --------------------------------
(* Text as sequences of character codes *)
EXTENDS Integers, Sequences, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == TLCEval([i \in 1..Len(Printable) |-> <<SubSeq(Printable, i, i), 31 + i>>])
CharMap == TLCEval([c \in { CodeOf[i][1] : i \in DOMAIN CodeOf } |-> (CHOOSE i \in DOMAIN CodeOf : CodeOf[i][1] = c) + 31])

(* the codes of a string constant *)
Codes(s) == TLCEval([i \in 1..Len(s) |-> CharMap[SubSeq(s, i, i)]])

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
LowerText(s) == TLCEval([i \in 1..Len(s) |-> Lower(s[i])])
UpperText(s) == TLCEval([i \in 1..Len(s) |-> Upper(s[i])])

IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in (65..90) \union (97..122)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

RECURSIVE Decimal(_)
Decimal(n) == IF n < 0 THEN <<45>> \o Decimal(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
=============================================================================
