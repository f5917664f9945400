------------------------------- MODULE SplitOps -------------------------------
(* Even and odd samplings.  A case has nt integrations of nb rows each, mu      *)
(* (usable integrations), w (pol, channel, row; rows in order of time), im      *)
(* (imaginary parts of the data).  Integrations are numbered from 0.            *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
Use(x, t) == x.mu[t + 1] # 0
Starts(x) == MinOf({t \in 0..(x.nt - 1) : Use(x, t)})
(* consecutive pairs from the first usable integration on, both usable *)
PairSet(x) == LET s == Starts(x) IN {t \in s..(x.nt - 2) : (t - s) % 2 = 0 /\ Use(x, t) /\ Use(x, t + 1)}
TimesUsed(x) == {t \in 0..(x.nt - 1) : t \in PairSet(x) \/ (t - 1) \in PairSet(x)}
Mate(x, t) == IF t \in PairSet(x) THEN t + 1 ELSE t - 1
TimeOf(x, r) == (r - 1) \div x.nb
RowsOf(x, t) == {t * x.nb + i : i \in 1..x.nb}
(* the row of the same baseline in the other integration of the pair *)
MateRow(x, r) == r + (Mate(x, TimeOf(x, r)) - TimeOf(x, r)) * x.nb
Even(x) == {r \in 1..(x.nt * x.nb) : TimeOf(x, r) \in TimesUsed(x) /\ TimeOf(x, r) % 2 = 0}
Odd(x) == {r \in 1..(x.nt * x.nb) : TimeOf(x, r) \in TimesUsed(x) /\ TimeOf(x, r) % 2 = 1}
SplitW(x, p, c, r) == IF r \notin Even(x) \cup Odd(x) THEN 0 ELSE Max2(0, Min2(x.w[p][c][r], Min2(x.w[p][c][MateRow(x, r)], 1)))
(* pairs of rows that contribute to the noise *)
Good(x, p, c) == {r \in Even(x) : x.w[p][c][r] > 0 /\ x.w[p][c][MateRow(x, r)] > 0}
(* twice the squared noise: the variance of the differences *)
Noise2(x, p, c) ==
  LET G == Good(x, p, c)  n == Cardinality(G)
      d == [r \in G |-> x.im[p][c][r] - x.im[p][c][MateRow(x, r)]]
      s == SumF(d, G)  q == SumF([r \in G |-> d[r] * d[r]], G)
  IN IF n = 0 THEN <<0, 1>> ELSE Norm(<<n * q - s * s, n * n>>)

SClauses == {"returns", "even", "odd", "weights", "disjoint", "noise", "noise-given", "noise-keeps-weights"}
SHolds(k, rec) ==
  LET x == rec.x IN
  IF k = "returns" THEN rec.ok ELSE IF ~rec.ok THEN TRUE ELSE
  CASE k = "even" -> rec.even = SetToSortedSeq(Even(x))
    [] k = "odd" -> rec.odd = SetToSortedSeq(Odd(x))
    [] k = "disjoint" -> Len(rec.even) = Len(rec.odd) /\ {TimeOf(x, r) : r \in Range(rec.even)} \cap {TimeOf(x, r) : r \in Range(rec.odd)} = {}
    [] k = "weights" -> \A p \in DOMAIN x.w, c \in DOMAIN x.w[1], r \in 1..(x.nt * x.nb) : Max2(rec.w[p][c][r], 0) = SplitW(x, p, c, r)
    [] k = "noise" -> \A p \in DOMAIN x.w, c \in DOMAIN x.w[1] : QEq(rec.noise[p][c], Noise2(x, p, c))
    [] k = "noise-given" -> \A p \in DOMAIN x.w, c \in DOMAIN x.w[1] : QEq(rec.noise2[p][c], Noise2(x, p, c))
    [] k = "noise-keeps-weights" -> rec.kept
SVerdict(rec) == {k \in SClauses : ~SHolds(k, rec)}
=============================================================================
