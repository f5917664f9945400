----------------------------- MODULE SolverOps ------------------------------
(* The per-channel gain solver: which samples make equations, what becomes of  *)
(* every tile, one iteration in exact arithmetic, and when it stops.           *)
(* x: [ta, tb: tiles of the baselines, nt, tu, fu: masks, w, v, m: [channel]   *)
(* [row] (rows are integrations of all baselines), u, vv: baseline coordinates,*)
(* f: channels, dim, el, omn, omx: baseline limits of the observation, cmn,    *)
(* cmx: of the calibration (0: none), avg: average in time, g: start gains]    *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
MinEq == 5
NB(x) == Len(x.ta)
NTile(x) == Len(x.tu)
Chans(x) == 1..Len(x.f)
Tiles(x) == 1..NTile(x)
Row(x, t, b) == (t - 1) * NB(x) + b
BaseOf(x, r) == ((r - 1) % NB(x)) + 1
Clip(w) == Max2(0, Min2(1, w))
Lo(x) == IF x.cmn # 0 THEN Max2(x.cmn, x.omn) ELSE x.omn
Hi(x) == IF x.cmx # 0 THEN Min2(x.cmx, x.omx) ELSE x.omx
InRange(x, f, b) == LET d == (x.u[b] * x.u[b] + x.vv[b] * x.vv[b]) * x.f[f] * x.f[f] IN
   d >= Lo(x) * Lo(x) /\ d <= Hi(x) * Hi(x) /\ 2 * AbsI(x.u[b]) * x.f[f] <= x.dim /\ 2 * AbsI(x.vv[b]) * x.f[f] <= x.el
TilesOk(x, b) == x.tu[x.ta[b]] = 1 /\ x.tu[x.tb[b]] = 1
(* samples of the equations: baselines when averaging in time, rows otherwise *)
Items(x) == IF x.avg THEN 1..NB(x) ELSE 1..(NB(x) * x.nt)
WSum(x, f, b) == SumSeq([t \in 1..x.nt |-> Clip(x.w[f][Row(x, t, b)])])
Takes(x, f, i) == LET b == BaseOf(x, i) IN InRange(x, f, b) /\ TilesOk(x, b) /\ (IF x.avg THEN WSum(x, f, b) > 0 ELSE Clip(x.w[f][i]) > 0)
(* averages are exact: the samples are multiples of six and there are at most three integrations *)
Avg(x, s, f, b) == LET n == WSum(x, f, b)
                       t == CSum([k \in 1..x.nt |-> CScale(Clip(x.w[f][Row(x, k, b)]), s[f][Row(x, k, b)])])
                   IN <<t[1] \div n, t[2] \div n>>
Val(x, s, f, i) == IF x.avg THEN Avg(x, s, f, i) ELSE s[f][i]
As(x, f, t) == {i \in Items(x) : x.ta[BaseOf(x, i)] = t /\ Takes(x, f, i)}
Bs(x, f, t) == {i \in Items(x) : x.tb[BaseOf(x, i)] = t /\ Takes(x, f, i)}
Count(x, f, t) == Cardinality(As(x, f, t)) + Cardinality(Bs(x, f, t))
(* what becomes of the tiles *)
ChanUsed(x, f) == x.fu[f] = 1 /\ \E i \in Items(x) : Takes(x, f, i)
Anywhere(x, t) == x.tu[t] = 1 /\ \E f \in Chans(x) : Count(x, f, t) > 0
Used(x) == {t \in Tiles(x) : Anywhere(x, t)}
Ref(x) == IF 2 \in Used(x) THEN 2 ELSE MinOf(Used(x))
Enough(x, f, t) == Count(x, f, t) >= MinEq
(* "flagged": not a number, "start": untouched, "zero": not enough equations, *)
(* "lost": no reference in the channel, "solved" *)
Class(x, ref, f, t) ==
  IF x.tu[t] = 0 THEN "flagged"
  ELSE IF ~ChanUsed(x, f) THEN "start"
  ELSE IF ref /\ ~Enough(x, f, Ref(x)) /\ (\E s \in Used(x) : Enough(x, f, s)) THEN "lost"
  ELSE IF ~Anywhere(x, t) THEN "start"
  ELSE IF Enough(x, f, t) THEN "solved" ELSE "zero"
(* one full iteration without a phase reference *)
Start(x, f, t) == IF x.tu[t] = 1 /\ Enough(x, f, t) THEN x.g[f][t] ELSE C0
Abs2(a) == a[1] * a[1] + a[2] * a[2]
CSumOn(h(_), S) == LET RECURSIVE go(_)
                       go(T) == IF T = {} THEN C0 ELSE LET i == CHOOSE j \in T : TRUE IN CAdd(h(i), go(T \ {i}))
                   IN go(S)
XA(x, f, i) == CMul(Val(x, x.m, f, i), CConj(Start(x, f, x.tb[BaseOf(x, i)])))
XB(x, f, i) == CMul(CConj(Val(x, x.m, f, i)), CConj(Start(x, f, x.ta[BaseOf(x, i)])))
Num(x, f, t) == CAdd(CSumOn(LAMBDA i : CMul(CConj(XA(x, f, i)), Val(x, x.v, f, i)), As(x, f, t)),
                     CSumOn(LAMBDA i : CMul(CConj(XB(x, f, i)), CConj(Val(x, x.v, f, i))), Bs(x, f, t)))
Den(x, f, t) == CSumOn(LAMBDA i : <<Abs2(XA(x, f, i)), 0>>, As(x, f, t))[1] + CSumOn(LAMBDA i : <<Abs2(XB(x, f, i)), 0>>, Bs(x, f, t))[1]
NewQ(x, f, t) == IF ~Enough(x, f, t) \/ Den(x, f, t) = 0 THEN <<QI(0), QI(0)>>
                 ELSE LET n == Num(x, f, t)  d == Den(x, f, t) IN <<Norm(<<n[1], d>>), Norm(<<n[2], d>>)>>
Mean(x, f, t, k) == LET n == NewQ(x, f, t)  o == Start(x, f, t) IN
   [j \in 1..2 |-> QDiv(QAdd(n[j], QI(k * o[j])), QI(k + 1))]
(* the new gain has the weight of the old one, half of it when the amplitude falls below half of the old gain squared *)
Small(x, f, t) == LET n == IF Den(x, f, t) = 0 THEN C0 ELSE Num(x, f, t)
                      d == IF Den(x, f, t) = 0 THEN 1 ELSE Den(x, f, t)
                      o == Start(x, f, t)  a == Abs2(o)
                      c == CAdd(n, CScale(d, o))    \* twice d times the mean
                      q == Abs2(c)
                  IN a > 0 /\ q \div (d * d) < a * a
AllZero(x, f) == \A t \in Used(x) : NewQ(x, f, t) = <<QI(0), QI(0)>>
(* all new gains are sums that cancel exactly: not decidable in floating point *)
Cancels(x, f) == AllZero(x, f) /\ \E t \in Used(x) : Enough(x, f, t) /\ Den(x, f, t) > 0 /\ \E i \in As(x, f, t) \cup Bs(x, f, t) : Val(x, x.v, f, i) # C0
(* too close to the limit for the whole numbers above *)
Edge(x, f, t) == LET n == IF Den(x, f, t) = 0 THEN C0 ELSE Num(x, f, t)
                     d == IF Den(x, f, t) = 0 THEN 1 ELSE Den(x, f, t)
                     o == Start(x, f, t)  a == Abs2(o)
                     q == Abs2(CAdd(n, CScale(d, o)))
                 IN (a > 0 /\ q = a * a * d * d) \/ Cancels(x, f)
Step(x, f, t) == IF AllZero(x, f) THEN <<QI(0), QI(0)>> ELSE IF Small(x, f, t) THEN Mean(x, f, t, 2) ELSE Mean(x, f, t, 1)
(* a channel in which every solved tile has an equation with another solved tile *)
Partner(x, t, i) == IF x.ta[BaseOf(x, i)] = t THEN x.tb[BaseOf(x, i)] ELSE x.ta[BaseOf(x, i)]
Supported(x, f) == \A t \in Used(x) : Enough(x, f, t) =>
   \E i \in As(x, f, t) \cup Bs(x, f, t) : Partner(x, t, i) # t /\ Enough(x, f, Partner(x, t, i)) /\ Val(x, x.m, f, i) # C0
(* stopping: the first iteration at which a solution may count as converged *)
PhaseIters(p, mx) == IF p # 0 THEN p ELSE Min2(mx \div 4, 4)
FirstStop(p, mx) == PhaseIters(p, mx) + 4
StopsAt(p, mx) == Min2(FirstStop(p, mx), mx - 1)
ConvergesAt(p, mx) == FirstStop(p, mx) <= mx - 1
Solvable(x, f) == ChanUsed(x, f) /\ Class(x, TRUE, f, Ref(x)) = "solved"
(* ---- judging ---- *)
NaNQ == <<<<0, 0>>, <<0, 0>>>>
FT(x) == Chans(x) \X Tiles(x)
Near(a, b, e) == AbsI(a[1] - b[1]) <= e /\ AbsI(a[2] - b[2]) <= e
(* ---- the end of a channel's iterations ---- *)
(* h: [s, l: the largest and the mean relative change of every iteration (in units small enough to compare), P: iterations *)
(* of the phases only, thr, mx]; iterations are counted from zero *)
At(q, i) == q[i + 1]
LeastTo(q, n) == MinOf({q[k] : k \in 1..n})
UpperMedian4(a, b, c, d) == LET t == <<a, b, c, d>>  R(k) == Cardinality({j \in 1..4 : t[j] < t[k] \/ (t[j] = t[k] /\ j < k)}) IN t[CHOOSE k \in 1..4 : R(k) = 2]
Strictly(h, i) == At(h.s, i) <= h.thr
NotBetter(h, i) == At(h.l, i) >= At(h.l, i - 1)
Loosely(h, i) == At(h.l, i) <= h.thr \/ At(h.l, i - 1) <= h.thr
Worse(h, i) == \/ At(h.s, i) >= UpperMedian4(At(h.s, i - 4), At(h.s, i - 3), At(h.s, i - 2), At(h.s, i - 1))
               \/ 2 * At(h.s, i) >= 3 * LeastTo(h.s, i)
EndOf(h, i) == IF i <= h.P + 3 THEN "no"
             ELSE IF Strictly(h, i) THEN "converged"
             ELSE IF ~NotBetter(h, i) THEN "no"
             ELSE IF Loosely(h, i) THEN "settled"
             ELSE IF Worse(h, i) THEN "diverged" ELSE "no"
LastIt(h) == LET S == {i \in 0..(h.mx - 1) : EndOf(h, i) # "no"} IN IF S = {} THEN h.mx - 1 ELSE MinOf(S)
EndKind(h) == IF EndOf(h, LastIt(h)) = "no" THEN "limit" ELSE EndOf(h, LastIt(h))
NearTo(a, b) == AbsI(a - b) <= 4
(* comparisons that cannot be decided with the digits kept *)
Vague(h) == LET n == LastIt(h) IN \E i \in Max2(4, h.P + 4)..Min2(h.mx - 1, n + 1) :
   NearTo(At(h.s, i), h.thr) \/ NearTo(At(h.l, i), At(h.l, i - 1)) \/ NearTo(At(h.l, i), h.thr) \/ NearTo(At(h.l, i - 1), h.thr)
   \/ (\E k \in (i - 4)..(i - 1) : NearTo(At(h.s, i), At(h.s, k))) \/ AbsI(2 * At(h.s, i) - 3 * LeastTo(h.s, i)) <= 12
(* the number of iterations whose gains are the result; when the mean change is small enough the one before the last is taken *)
Kept(h) == LET n == LastIt(h) IN CASE EndKind(h) = "diverged" -> {n} [] EndKind(h) = "settled" -> {n, n + 1} [] OTHER -> {n + 1}
Told(h) == IF EndKind(h) = "diverged" THEN LastIt(h) - 1 ELSE LastIt(h)
EndOk(c) == LET h == c.h IN Vague(h) \/ (/\ \E k \in 1..Len(c.match) : c.match[k] \in Kept(h)
                                           /\ \A t \in 1..Len(c.it) : c.it[t] = Told(h))
JClauses == {"returns", "classes", "iteration", "fixed-point", "stops", "recovers", "same", "sky", "ends"}
ClassOk(rec, f, t) == LET x == rec.x  c == Class(x, rec.ref, f, t)  g == rec.cls[f][t] IN
   CASE c = "flagged" -> g = "nan" [] c = "start" -> g = "start" [] c = "zero" -> g = "zero" [] c = "lost" -> g = "zero" [] c = "solved" -> g # "nan"
JHolds(c, rec) ==
  CASE c = "returns" -> rec.ok
    [] c = "classes" -> rec.ok /\ rec.kind \in {"step", "fixed", "recover"} => \A p \in FT(rec.x) : ClassOk(rec, p[1], p[2]) \/ (rec.ref /\ ~Supported(rec.x, p[1]))
    [] c = "iteration" -> rec.ok /\ rec.kind = "step" => \A p \in FT(rec.x) :
          (Class(rec.x, FALSE, p[1], p[2]) = "solved" /\ ~Edge(rec.x, p[1], p[2])) => rec.q[p[1]][p[2]] = Step(rec.x, p[1], p[2])
    [] c = "fixed-point" -> rec.ok /\ rec.kind = "fixed" => \A p \in FT(rec.x) :
          (Class(rec.x, TRUE, p[1], p[2]) = "solved" /\ Supported(rec.x, p[1])) =>
             LET g == rec.x.g[p[1]][p[2]] IN rec.q[p[1]][p[2]] = <<QI(g[1]), QI(g[2])>> /\ rec.still[p[1]][p[2]]
    [] c = "stops" -> rec.ok /\ rec.kind \in {"fixed", "recover"} =>
          /\ \A p \in FT(rec.x) : rec.it[p[1]][p[2]] >= 0 /\ rec.it[p[1]][p[2]] <= rec.mx - 1
          /\ (rec.kind = "fixed" /\ \A f \in Chans(rec.x) : ChanUsed(rec.x, f) => Supported(rec.x, f)) =>
                /\ rec.nconv = (IF ConvergesAt(rec.p, rec.mx) THEN Cardinality({f \in Chans(rec.x) : Solvable(rec.x, f)}) ELSE 0)
                /\ \A p \in FT(rec.x) : rec.it[p[1]][p[2]] = (IF Class(rec.x, TRUE, p[1], p[2]) = "solved" THEN StopsAt(rec.p, rec.mx)
                                                               ELSE IF Solvable(rec.x, p[1]) /\ Class(rec.x, TRUE, p[1], p[2]) = "zero" THEN StopsAt(rec.p, rec.mx) ELSE 0)
    [] c = "recovers" -> rec.ok /\ rec.kind = "recover" =>
          /\ \A p \in FT(rec.x) : Class(rec.x, TRUE, p[1], p[2]) = "solved" => Near(rec.mil[p[1]][p[2]], rec.truth[p[1]][p[2]], 4)
          /\ rec.nconv = Cardinality({f \in Chans(rec.x) : Solvable(rec.x, f)})
    [] c = "ends" -> rec.ok /\ rec.kind = "end" => (\A i \in 1..Len(rec.chans) : EndOk(rec.chans[i])) /\
          ((\E i \in 1..Len(rec.chans) : Vague(rec.chans[i].h)) \/ rec.nconv = Cardinality({i \in 1..Len(rec.chans) : EndKind(rec.chans[i].h) \in {"converged", "settled"}}))
    [] c = "same" -> rec.ok /\ rec.kind = "same" => rec.a = rec.b \/
          (Len(rec.a) = Len(rec.b) /\ \A i \in 1..Len(rec.a) : rec.a[i][3] = rec.b[i][3] /\ Near(rec.a[i], rec.b[i], 3))
    [] c = "sky" -> rec.ok /\ rec.kind = "sky" => \A i \in 1..Len(rec.got) : Near(rec.got[i], rec.want[i], 5)
JVerdict(rec) == {c \in JClauses : ~JHolds(c, rec)}
=============================================================================
