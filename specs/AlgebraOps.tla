----------------------------- MODULE AlgebraOps -----------------------------
(* Guarded inversion, Hermitian mirror, cross-polarisation reformatting and   *)
(* splitting, index grids, derivative coefficients.                           *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
(* ---- guarded inverse: a sample is <<re, im, tag>>, tag 0 finite, 1 NaN, 2 +inf, 3 -inf *)
Norm2(x) == x[1] * x[1] + x[2] * x[2]
(* thr is <<num, den>> or <<>> for none; magnitudes are compared when asked to or when data are complex *)
Selected(x, thr, mag) ==
  IF x[3] # 0 THEN FALSE
  ELSE IF thr = <<>> THEN Norm2(x) # 0
  ELSE IF mag THEN (thr[1] <= 0 \/ Norm2(x) * thr[2] * thr[2] >= thr[1] * thr[1])
  ELSE x[1] * thr[2] >= thr[1]
Inverse(x, thr, mag) ==
  IF ~Selected(x, thr, mag) \/ Norm2(x) = 0 THEN <<<<0, 1>>, <<0, 1>>>>
  ELSE <<Norm(<<x[1], Norm2(x)>>), Norm(<<-x[2], Norm2(x)>>)>>
(* ---- planes are sequences of rows of Gaussian integers <<re, im>> *)
NRow(m) == Len(m)
NCol(m) == Len(m[1])
Opp(i, n) == IF i = 1 THEN 1 ELSE n + 2 - i
Conj(z) == <<z[1], -z[2]>>
Mirror(m) == [i \in 1..NRow(m) |-> [j \in 1..NCol(m) |-> Conj(m[Opp(i, NRow(m))][Opp(j, NCol(m))])]]
MirrorReal(m) == [i \in 1..NRow(m) |-> [j \in 1..NCol(m) |-> m[Opp(i, NRow(m))][Opp(j, NCol(m))]]]
(* planes hold doubled values where halves can appear: Half is exact on even parts *)
HalfDiff(a, b) == [i \in 1..NRow(a) |-> [j \in 1..NCol(a) |-> <<(a[i][j][1] - b[i][j][1]) \div 2, (a[i][j][2] - b[i][j][2]) \div 2>>]]
Reformat(p) == LET x == HalfDiff(p[3], Mirror(p[4])) IN <<p[1], p[2], x, Mirror(x)>>
Split(p) == <<p[1], p[2], [i \in 1..NRow(p[3]) |-> [j \in 1..NCol(p[3]) |-> <<p[3][i][j][1], 0>>]],
                          [i \in 1..NRow(p[3]) |-> [j \in 1..NCol(p[3]) |-> <<p[3][i][j][2], 0>>]]>>
(* ---- polynomial x(x-1)...(x-n+1) at small integers *)
RECURSIVE Falling(_, _), PolyAt(_, _, _)
Falling(x, n) == IF n = 0 THEN 1 ELSE x * Falling(x - 1, n - 1)
PolyAt(c, x, acc) == IF c = <<>> THEN acc ELSE PolyAt(Tail(c), x, acc * x + Head(c))
AlgClauses == {"returns", "input-kept", "inverse", "scalar-for-one", "mirror", "mirror-twice", "reformat", "split", "split-names",
               "grid", "derivative"}
AlgHolds(c, rec) ==
  CASE c = "returns" -> rec.ok
    [] c = "input-kept" -> rec.kept
    [] c = "inverse" -> rec.ok /\ rec.kind = "inverse" =>
         /\ Len(rec.out) = Len(rec.vals)
         /\ \A i \in 1..Len(rec.vals) : LET w == Inverse(rec.vals[i], rec.thr, rec.mag) IN
               QEq(w[1], rec.out[i][1]) /\ QEq(w[2], rec.out[i][2])
    [] c = "scalar-for-one" -> rec.ok /\ rec.kind = "inverse" => (rec.scalar <=> Len(rec.vals) = 1) /\ rec.shape_ok
    [] c = "mirror" -> rec.ok /\ rec.kind = "mirror" => rec.out = (IF rec.cplx THEN Mirror(rec.m) ELSE MirrorReal(rec.m))
    [] c = "mirror-twice" -> rec.ok /\ rec.kind = "mirror" => rec.out2 = rec.m
    [] c = "reformat" -> rec.ok /\ rec.kind = "reformat" => rec.out = Reformat(rec.p)
    [] c = "split" -> rec.ok /\ rec.kind = "split" => rec.out = Split(rec.p)
    [] c = "split-names" -> rec.ok /\ rec.kind = "split" /\ rec.names # <<>> =>
         rec.outnames = <<rec.names[1], rec.names[2], rec.names[3] \o "_real", rec.names[3] \o "_imag">>
    [] c = "grid" -> rec.ok /\ rec.kind = "grid" =>
         rec.out = [i \in 1..rec.el |-> [j \in 1..rec.dim |-> IF rec.axis = 2 THEN i - 1 ELSE j - 1]]
    [] c = "derivative" -> rec.ok /\ rec.kind = "deriv" =>
         IF rec.n <= 0 THEN rec.out = <<0>>
         ELSE Len(rec.out) = rec.n /\ \A x \in 0..5 : PolyAt(rec.out, x, 0) * x = Falling(x, rec.n)
AlgVerdict(rec) == {c \in AlgClauses : ~AlgHolds(c, rec)}
=============================================================================
