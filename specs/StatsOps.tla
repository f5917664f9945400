------------------------------ MODULE StatsOps ------------------------------
(* The two-cut resistant mean and the IDL medians, on small integers.         *)
(* A sample is <<re, im>>.  Cuts compare squares, scaled to stay inside       *)
(* 32 bits; a comparison too close to call in that scale is "undecided".      *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
RECURSIVE InsertS(_, _), SortS(_)
InsertS(x, s) == IF s = <<>> THEN <<x>> ELSE IF x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o InsertS(x, Tail(s))
SortS(s) == IF s = <<>> THEN <<>> ELSE InsertS(Head(s), SortS(Tail(s)))
(* twice the median, lower/upper middle averaged for even lengths *)
Med2(s) == LET t == SortS(s)  n == Len(t) IN IF n % 2 = 1 THEN 2 * t[(n + 1) \div 2] ELSE t[n \div 2] + t[n \div 2 + 1]
Re(d) == [i \in 1..Len(d) |-> d[i][1]]
(* squared doubled deviation from the median of the real parts *)
Dev2All(d) == LET m == Med2(Re(d)) IN [i \in 1..Len(d) |-> (2 * d[i][1] - m) * (2 * d[i][1] - m) + 4 * d[i][2] * d[i][2]]
RECURSIVE ISqrt(_, _)
ISqrt(n, k) == IF k * k >= n THEN k ELSE ISqrt(n, k + 1)
(* mad as <<num, den>> squared, of the doubled deviations *)
AllReal(d) == \A i \in 1..Len(d) : d[i][2] = 0
MadOf(dv) ==
  LET sq == SortS(dv)  n == Len(dv) IN
  IF n % 2 = 1 THEN <<sq[(n + 1) \div 2], 1>>
  ELSE LET a == ISqrt(sq[n \div 2], 0)  b == ISqrt(sq[n \div 2 + 1], 0) IN <<(a + b) * (a + b), 4>>   \* real data only: exact roots
Representable(d) == AllReal(d) \/ Len(d) % 2 = 1
Close(a, b) == \/ (a # b /\ AbsI(a - b) <= Max2(a, b) \div 200) \/ (a = b /\ a # 0)
(* n^2 * variance of one part over an index set *)
RECURSIVE SumOn(_, _), SumSqOn(_, _)
SumOn(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOn(f, S \ {x})
SumSqOn(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] * f[x] + SumSqOn(f, S \ {x})
NVar(f, S) == Cardinality(S) * SumSqOn(f, S) - SumOn(f, S) * SumOn(f, S)
Var(d, S) == NVar([i \in 1..Len(d) |-> d[i][1]], S) + NVar([i \in 1..Len(d) |-> d[i][2]], S)
(* 1000 * (truncation correction)^2 for k/2 deviations; there is none above 4.5 *)
Poly2(k) == CASE k <= 2 -> 289 [] k = 3 -> 554 [] k = 4 -> 771 [] k = 5 -> 912 [] k = 6 -> 978 [] k = 7 -> 992 [] k = 8 -> 981 [] k = 9 -> 976 [] OTHER -> 1000
(* both cuts; k is the doubled number of deviations, so that 4.5 can be asked for.
   First cut: |dev| <= k/2 * mad / 0.6745; second: |dev| <= k/2 * (corrected deviation of the survivors of the first) *)
Cuts(d, k) ==
  LET dv == Dev2All(d)
      mad == MadOf(dv)
      l1 == [i \in 1..Len(d) |-> dv[i] * mad[2] * 455 * 4]
      r1 == k * k * mad[1] * 1000
      keep1 == {i \in 1..Len(d) : l1[i] <= r1}
      n == Cardinality(keep1)
      l2 == [i \in 1..Len(d) |-> dv[i] * n * n * Poly2(k)]
      r2 == k * k * Var(d, keep1) * 1000
      keep2 == {i \in 1..Len(d) : l2[i] <= r2}
  IN [dev |-> dv, keep1 |-> keep1, keep2 |-> keep2,
      undecided |-> (\E i \in 1..Len(d) : Close(l1[i], r1) \/ Close(l2[i], r2)) \/ keep1 = {} \/ keep2 = {}]
Dev2(d, i) == Dev2All(d)[i]
Keep1(d, k) == Cuts(d, k).keep1
Keep2(d, k) == Cuts(d, k).keep2
Undecided(d, k) == Cuts(d, k).undecided
MeanOf(d, S) == <<Norm(<<SumOn([i \in 1..Len(d) |-> d[i][1]], S), Cardinality(S)>>),
                  Norm(<<SumOn([i \in 1..Len(d) |-> d[i][2]], S), Cardinality(S)>>)>>
(* medians *)
UpperMid(s) == SortS(s)[Len(s) \div 2 + 1]
Half(w) == w \div 2
(* a sliding median: window of w samples starting Half(w) before, edges kept *)
Slide(s, w) == [i \in 1..Len(s) |->
   IF Half(w) = 0 \/ i <= Half(w) \/ i > Len(s) - Half(w) THEN s[i]
   ELSE SortS([j \in 1..w |-> s[i - Half(w) + j - 1]])[w \div 2 + 1]]
SClauses == {"returns", "resistant-mean", "median", "sliding-median", "input-kept"}
SHolds(c, rec) ==
  CASE c = "returns" -> rec.ok
    [] c = "resistant-mean" -> rec.ok /\ rec.kind = "rmean" /\ Representable(rec.d) => 
           LET cuts == Cuts(rec.d, rec.k)  m == MeanOf(rec.d, cuts.keep2) IN cuts.undecided \/ (QEq(m[1], rec.res[1]) /\ QEq(m[2], rec.res[2]))
    [] c = "median" -> rec.ok /\ rec.kind = "median" =>
           QEq(rec.res[1], IF rec.even THEN Norm(<<Med2(rec.s), 2>>) ELSE <<UpperMid(rec.s), 1>>)
    [] c = "sliding-median" -> rec.ok /\ rec.kind = "slide" => rec.out = Slide(rec.s, rec.w)
    [] c = "input-kept" -> rec.kept
SVerdict(rec) == {c \in SClauses : ~SHolds(c, rec)}
=============================================================================
