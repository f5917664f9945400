-------------------------------- MODULE Seqs --------------------------------
(* Small vocabulary shared by the specifications: exact rationals are pairs  *)
(* <<num, den>> (den > 0); NaN is <<0,0>>, +Inf <<1,0>>, -Inf <<-1,0>>.      *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSeq(_)
SumSeq(s) == IF Len(s) = 0 THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumF(_, _)
(* sum of f[x] over a finite set of the domain *)
SumF(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + SumF(f, D \ {x})
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SetToSortedSeq(S \ {m})
Rep(x, n) == [i \in 1..n |-> x]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(q) == IF q[2] = 0 THEN q ELSE LET s == IF q[2] < 0 THEN -1 ELSE 1
                                       g == Gcd(AbsI(q[1]), AbsI(q[2]))
                                   IN <<(s * q[1]) \div g, (s * q[2]) \div g>>
QEq(a, b) == a[1] * b[2] = b[1] * a[2] /\ (a[2] = 0 <=> b[2] = 0)
QI(n) == <<n, 1>>
QAdd(a, b) == Norm(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
QSub(a, b) == Norm(<<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>)
QMul(a, b) == Norm(<<a[1] * b[1], a[2] * b[2]>>)
QDiv(a, b) == Norm(<<a[1] * b[2], a[2] * b[1]>>)
QLt(a, b) == a[1] * b[2] < b[1] * a[2]
QLe(a, b) == a[1] * b[2] <= b[1] * a[2]
QFin(a) == a[2] # 0
FloorDiv(a, b) == a \div b   \* TLC's \div is floor division for b > 0
RECURSIVE SumQ(_)
SumQ(s) == IF Len(s) = 0 THEN <<0, 1>> ELSE QAdd(Head(s), SumQ(Tail(s)))
(* Gaussian integers <<re, im>> *)
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a) == <<a[1], -a[2]>>
CScale(k, a) == <<k * a[1], k * a[2]>>
C0 == <<0, 0>>
RECURSIVE CSum(_)
CSum(s) == IF Len(s) = 0 THEN C0 ELSE CAdd(Head(s), CSum(Tail(s)))
=============================================================================
