------------------------------- MODULE CalOps -------------------------------
(* Applying gains.  A gain is <<re, im, ok>> (ok = 0: not a number); a sample  *)
(* of product p (1 XX, 2 YY, 3 XY, 4 YX) of tiles a and b measures             *)
(* g[first feed][a] * conj(g[second feed][b]) times the sky.                   *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
Feed1 == <<1, 2, 1, 2>>
Feed2 == <<1, 2, 2, 1>>
GC(g) == <<g[1], g[2]>>
(* x: [ta, tb: tiles of the rows (from 1), g: gains [feed][channel][tile], v: samples [product][channel][row]] *)
GA(x, p, f, r) == x.g[Feed1[p]][f][x.ta[r]]
GB(x, p, f, r) == x.g[Feed2[p]][f][x.tb[r]]
Factor(x, p, f, r) == CMul(GC(GA(x, p, f, r)), CConj(GC(GB(x, p, f, r))))
Usable(x, p, f, r) == GA(x, p, f, r)[3] = 1 /\ GB(x, p, f, r)[3] = 1 /\ Factor(x, p, f, r) # C0
(* division of Gaussian integers that is exact *)
CAbs2(a) == a[1] * a[1] + a[2] * a[2]
CDivisible(a, b) == LET q == CMul(a, CConj(b)) IN q[1] % CAbs2(b) = 0 /\ q[2] % CAbs2(b) = 0
CDiv(a, b) == LET q == CMul(a, CConj(b)) IN <<q[1] \div CAbs2(b), q[2] \div CAbs2(b)>>
Applied(x, p, f, r) == IF Usable(x, p, f, r) THEN CDiv(x.v[p][f][r], Factor(x, p, f, r)) ELSE C0
(* the quotient given as a pair of rationals *)
QuotientOk(res, v, h) ==
  /\ res[1][2] # 0 /\ res[2][2] # 0
  /\ QEq(QSub(QMul(res[1], <<h[1], 1>>), QMul(res[2], <<h[2], 1>>)), <<v[1], 1>>)
  /\ QEq(QAdd(QMul(res[1], <<h[2], 1>>), QMul(res[2], <<h[1], 1>>)), <<v[2], 1>>)
(* the phase between the two feeds: the direction of the sum over the samples of conj(xy) model xy + yx conj(model yx), *)
(* integrations averaged first with weights clipped to [0, 1] *)
NB(x) == Len(x.ta) \div x.nt
Row(x, t, b) == (t - 1) * NB(x) + b
Clip(w) == Max2(0, Min2(1, w))
TimeSum(x, s, f, b) == CSum([t \in 1..x.nt |-> CScale(Clip(x.w[1][f][Row(x, t, b)]), s[f][Row(x, t, b)])])
RECURSIVE CSumPairs(_, _, _, _, _, _)
CrossTerm(x, xy, yx, f, b) ==
   CAdd(CMul(CConj(TimeSum(x, xy, f, b)), TimeSum(x, x.m[3], f, b)), CMul(TimeSum(x, yx, f, b), CConj(TimeSum(x, x.m[4], f, b))))
CSumPairs(x, xy, yx, f, b, acc) ==
   IF f > Len(xy) THEN acc
   ELSE IF b > NB(x) THEN CSumPairs(x, xy, yx, f + 1, 1, acc)
   ELSE CSumPairs(x, xy, yx, f, b + 1, CAdd(acc, CrossTerm(x, xy, yx, f, b)))
Plane(x, p) == [f \in 1..Len(x.v[p]) |-> [r \in 1..Len(x.ta) |-> Applied(x, p, f, r)]]
CrossSum(x) == CSumPairs(x, Plane(x, 3), Plane(x, 4), 1, 1, C0)
(* u is a unit vector times 1000, rounded; s a sum that is not tiny *)
SameDirection(u, s) == LET d == CMul(s, <<u[1], -u[2]>>) IN d[1] > 0 /\ AbsI(d[2]) <= 2 * (AbsI(s[1]) + AbsI(s[2]))
(* eighths of a turn *)
Eighth(a) == CASE a[1] > 0 /\ a[2] = 0 -> 0 [] a[1] > 0 /\ a[2] = a[1] -> 1 [] a[1] = 0 /\ a[2] > 0 -> 2 [] a[1] < 0 /\ a[2] = -a[1] -> 3
               [] a[1] < 0 /\ a[2] = 0 -> 4 [] a[1] < 0 /\ a[2] = a[1] -> 5 [] a[1] = 0 /\ a[2] < 0 -> 6 [] a[1] > 0 /\ a[2] = -a[1] -> 7
AClauses == {"returns", "own-gains", "unusable-zero", "gains-kept", "cross-phase", "mixing-phase"}
Samples(x) == {<<p, f, r>> : p \in 1..Len(x.v), f \in 1..Len(x.v[1]), r \in 1..Len(x.ta)}
AHolds(c, rec) ==
  CASE c = "returns" -> rec.ok
    [] c = "own-gains" -> rec.ok /\ rec.kind = "apply" => \A s \in Samples(rec.x) :
           Usable(rec.x, s[1], s[2], s[3]) => QuotientOk(rec.res[s[1]][s[2]][s[3]], rec.x.v[s[1]][s[2]][s[3]], Factor(rec.x, s[1], s[2], s[3]))
    [] c = "unusable-zero" -> rec.ok /\ rec.kind = "apply" => \A s \in Samples(rec.x) :
           ~Usable(rec.x, s[1], s[2], s[3]) => rec.res[s[1]][s[2]][s[3]] = <<<<0, 1>>, <<0, 1>>>>
    [] c = "gains-kept" -> rec.ok /\ rec.kind = "apply" => rec.kept
    [] c = "cross-phase" -> rec.ok /\ rec.kind = "apply" /\ rec.exact /\ Len(rec.x.v) = 4 =>
           LET s == CrossSum(rec.x) IN (AbsI(s[1]) + AbsI(s[2]) > 50 /\ AbsI(s[1]) + AbsI(s[2]) < 400000) => SameDirection(rec.cross, s)
    [] c = "mixing-phase" -> rec.ok /\ rec.kind = "mix" => rec.turn = (Eighth(rec.sm) - Eighth(rec.sd)) % 8
AVerdict(rec) == {c \in AClauses : ~AHolds(c, rec)}
=============================================================================
