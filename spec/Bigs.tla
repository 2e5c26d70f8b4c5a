-------------------------------- MODULE Bigs --------------------------------
(* Natural and integer numbers of any size.  A natural is the sequence of its digits in base 10000, least
   significant first, without leading zeros; an integer is [neg, m].  *)
EXTENDS Integers, Sequences

Base == 10000

RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o FromInt(n \div Base)

Digit(a, k) == IF k >= 1 /\ k <= Len(a) THEN a[k] ELSE 0
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

RECURSIVE CarryFrom(_, _, _, _)
(* digits f(k), k in 1..n, each below 2^31 - 2^18, made into proper ones *)
CarryFrom(f, n, k, acc) ==
  IF k > n /\ acc.carry = 0 THEN acc.d
  ELSE LET v == (IF k <= n THEN f[k] ELSE 0) + acc.carry
       IN  CarryFrom(f, n, k + 1, [d |-> Append(acc.d, v % Base), carry |-> v \div Base])
Carry(f, n) == Trim(CarryFrom(f, n, 1, [d |-> <<>>, carry |-> 0]))

Add(a, b) == LET n == MaxOf(Len(a), Len(b)) IN Carry([k \in 1..n |-> Digit(a, k) + Digit(b, k)], n)

RECURSIVE BorrowFrom(_, _, _, _, _)
BorrowFrom(a, b, k, borrow, d) ==
  IF k > Len(a) THEN d
  ELSE LET v == a[k] - Digit(b, k) - borrow
       IN  BorrowFrom(a, b, k + 1, IF v < 0 THEN 1 ELSE 0, Append(d, IF v < 0 THEN v + Base ELSE v))
(* a >= b *)
Sub(a, b) == Trim(BorrowFrom(a, b, 1, 0, <<>>))

(* one of them has at most 20 digits *)
RECURSIVE SumProducts(_, _, _, _, _)
SumProducts(a, b, k, j, to) == IF j > to THEN 0 ELSE a[j] * b[k - j + 1] + SumProducts(a, b, k, j + 1, to)
Mul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET n == Len(a) + Len(b) - 1
       IN  Carry([k \in 1..n |-> SumProducts(a, b, k, MaxOf(1, k - Len(b) + 1), MinOf(k, Len(a)))], n)

RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN <<1>> ELSE Mul(Power(a, n - 1), a)

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, k) == IF k = 0 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LessFrom(a, b, k - 1)
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessFrom(a, b, Len(a))
AtMost(a, b) == ~Less(b, a)

(* ---- integers *)
ZNat(m) == [neg |-> FALSE, m |-> m]
ZInt(n) == [neg |-> n < 0, m |-> FromInt(IF n < 0 THEN -n ELSE n)]
ZNeg(x) == [neg |-> ~x.neg, m |-> x.m]
ZAdd(x, y) == IF x.neg = y.neg THEN [neg |-> x.neg, m |-> Add(x.m, y.m)]
              ELSE IF Less(x.m, y.m) THEN [neg |-> y.neg, m |-> Sub(y.m, x.m)]
              ELSE [neg |-> x.neg, m |-> Sub(x.m, y.m)]
ZSub(x, y) == ZAdd(x, ZNeg(y))
ZMul(x, y) == [neg |-> x.neg # y.neg, m |-> Mul(x.m, y.m)]
(* |x| <= n *)
ZWithin(x, n) == AtMost(x.m, n)
ZAtMost(x, y) == LET d == ZSub(y, x) IN ~d.neg \/ d.m = <<>>
(* what a driver writes: [neg |-> 0 or 1, m |-> digits] *)
ZOf(j) == [neg |-> j.neg = 1, m |-> j.m]
=============================================================================
