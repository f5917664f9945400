------------------------------ MODULE RebinOps ------------------------------
(* Resizing by whole factors.  A matrix is a sequence of rows of rationals;   *)
(* r: [a (rows of integers), shape <<rows, cols>>, sample, integer].          *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
NR(m) == Len(m)
NC(m) == Len(m[1])
Mat(a) == [i \in 1..Len(a) |-> [j \in 1..Len(a[1]) |-> <<a[i][j], 1>>]]
WholeFactor(x, y) == Max2(x, y) % Min2(x, y) = 0
Refused(r) == ~(WholeFactor(Len(r.a), r.shape[1]) /\ WholeFactor(Len(r.a[1]), r.shape[2]))
QFloor(q) == <<q[1] \div q[2], 1>>
QTrunc(q) == IF q[1] >= 0 THEN <<q[1] \div q[2], 1>> ELSE <<-((-q[1]) \div q[2]), 1>>
(* linear interpolation towards the next line, flat after the last one *)
Between(x, y, j, k, int) ==
   LET d == QMul(QSub(y, x), <<j, k>>) IN QAdd(x, IF int THEN QFloor(d) ELSE d)
ExpandRows(m, k, int) ==
   [i \in 1..(NR(m) * k) |-> LET s == (i - 1) \div k + 1  j == (i - 1) % k IN
      [c \in 1..NC(m) |-> IF s = NR(m) THEN m[s][c] ELSE Between(m[s][c], m[s + 1][c], j, k, int)]]
ExpandCols(m, k, int) ==
   [i \in 1..NR(m) |-> [c \in 1..(NC(m) * k) |->
      LET s == (c - 1) \div k + 1  j == (c - 1) % k IN
      IF s = NC(m) THEN m[i][s] ELSE Between(m[i][s], m[i][s + 1], j, k, int)]]
ShrinkCols(m, k, int) ==
   [i \in 1..NR(m) |-> [c \in 1..(NC(m) \div k) |->
      LET q == QDiv(SumQ([t \in 1..k |-> m[i][(c - 1) * k + t]]), <<k, 1>>) IN IF int THEN QTrunc(q) ELSE q]]
ShrinkRows(m, k, int) ==
   [i \in 1..(NR(m) \div k) |-> [c \in 1..NC(m) |->
      LET q == QDiv(SumQ([t \in 1..k |-> m[(i - 1) * k + t][c]]), <<k, 1>>) IN IF int THEN QTrunc(q) ELSE q]]
RepRows(m, k) == [i \in 1..(NR(m) * k) |-> m[(i - 1) \div k + 1]]
RepCols(m, k) == [i \in 1..NR(m) |-> [c \in 1..(NC(m) * k) |-> m[i][(c - 1) \div k + 1]]]
PickRows(m, k) == [i \in 1..(NR(m) \div k) |-> m[(i - 1) * k + 1]]
PickCols(m, k) == [i \in 1..NR(m) |-> [c \in 1..(NC(m) \div k) |-> m[i][(c - 1) * k + 1]]]
Result(r) ==
  LET m == Mat(r.a)  R == NR(m)  C == NC(m)  rr == r.shape[1]  cc == r.shape[2]
      m1 == IF rr > R THEN (IF r.sample THEN RepRows(m, rr \div R) ELSE ExpandRows(m, rr \div R, r.integer)) ELSE m
      m2 == IF cc > C THEN (IF r.sample THEN RepCols(m1, cc \div C) ELSE ExpandCols(m1, cc \div C, r.integer)) ELSE m1
      m3 == IF cc < C THEN (IF r.sample THEN PickCols(m2, C \div cc) ELSE ShrinkCols(m2, C \div cc, r.integer)) ELSE m2
      m4 == IF rr < R THEN (IF r.sample THEN PickRows(m3, R \div rr) ELSE ShrinkRows(m3, R \div rr, r.integer)) ELSE m3
  IN m4
BClauses == {"refused-iff-not-whole", "shape", "values", "integers-stay", "input-kept"}
BHolds(c, rec) ==
  LET r == rec.req IN
  CASE c = "refused-iff-not-whole" -> IF Refused(r) THEN rec.out = "refused" ELSE rec.out = "ok"
    [] c = "shape" -> rec.out = "ok" => Len(rec.res) = r.shape[1] /\ \A i \in 1..Len(rec.res) : Len(rec.res[i]) = r.shape[2]
    [] c = "values" -> rec.out = "ok" /\ ~Refused(r) /\ Len(rec.res) = r.shape[1] /\ (\A i \in 1..Len(rec.res) : Len(rec.res[i]) = r.shape[2]) =>
          LET e == Result(r) IN \A i \in 1..Len(e) : \A j \in 1..Len(e[1]) : QEq(e[i][j], rec.res[i][j])
    [] c = "integers-stay" -> rec.out = "ok" /\ r.integer => rec.isint
    [] c = "input-kept" -> rec.kept
BVerdict(rec) == {c \in BClauses : ~BHolds(c, rec)}
=============================================================================
