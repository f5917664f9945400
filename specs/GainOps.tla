------------------------------ MODULE GainOps -------------------------------
(* What the calibration makes of the solved gains: auto-correlations, ratios, *)
(* bandpass, polynomial, auto-correlation fit.                                *)
EXTENDS Integers, Sequences, FiniteSets, Seqs, StatsOps
Idx(s) == 1..Len(s)
On(m) == {i \in Idx(m) : m[i] # 0}
(* ---- auto-correlations: x: [ta, tb, nt, v: [pol][freq][row] real parts, tu: times used, avg] ---- *)
AutoRows(x) == SelectSeq([r \in Idx(x.ta) |-> r], LAMBDA r : x.ta[r] = x.tb[r])
AutoTiles(x) == SetToSortedSeq({x.ta[r] : r \in {AutoRows(x)[i] : i \in Idx(AutoRows(x))}})
(* the row of a tile at a time: every tile has its row at every time *)
RowAt(x, t, k) == LET rs == SelectSeq(AutoRows(x), LAMBDA r : x.ta[r] = t) IN rs[k]
AutoOut(x) == IF x.avg THEN [i \in Idx(AutoTiles(x)) |-> AutoTiles(x)[i]] ELSE [i \in Idx(AutoRows(x)) |-> x.ta[AutoRows(x)[i]]]
AutoAvg(x, p, f, t) == Norm(<<SumF([k \in 1..x.nt |-> x.v[p][f][RowAt(x, t, k)]], On(x.tu)), Cardinality(On(x.tu))>>)
AutoVal(x, p, f) == IF x.avg THEN [i \in Idx(AutoTiles(x)) |-> AutoAvg(x, p, f, AutoTiles(x)[i])]
                    ELSE [i \in Idx(AutoRows(x)) |-> QI(x.v[p][f][AutoRows(x)[i]])]
(* ---- gains relative to the auto-correlations: x: [nt, root: [pol][freq][entry], ti: tile of an entry, ref, g] ---- *)
LastEntry(x, t) == MaxOf({i \in Idx(x.ti) : x.ti[i] = t})
HasAuto(x, t) == \E i \in Idx(x.ti) : x.ti[i] = t
RefOf(x) == IF HasAuto(x, x.ref) THEN x.ref ELSE x.ti[1]
RatioQ(x, p, f, t) == IF HasAuto(x, t) THEN Norm(<<x.root[p][f][LastEntry(x, t)], x.root[p][f][LastEntry(x, RefOf(x))]>>) ELSE QI(1)
Divided(x, p, f, t) == LET r == RatioQ(x, p, f, t)  g == x.g[p][f][t] IN <<Norm(<<g[1] * r[2], r[1]>>), Norm(<<g[2] * r[2], r[1]>>)>>
Same2(x, p, f, t) == <<QI(x.g[p][f][t][1]), QI(x.g[p][f][t][2])>>
(* starting gains from the auto-correlations; s: root of the data over the model *)
InitRoot(x, p, f, t) == IF HasAuto(x, t) THEN Norm(<<x.root[p][f][LastEntry(x, t)], x.mroot[p][f][LastEntry(x, t)]>>) ELSE QI(1)
InitMean(x, p) == LET F == Len(x.root[p])  s == SumQ([k \in 1..(F * x.ntile) |-> InitRoot(x, p, ((k - 1) \div x.ntile) + 1, ((k - 1) % x.ntile) + 1)])
                  IN Norm(<<s[1], s[2] * F * x.ntile>>)
InitQ(x, p, f, t) == QDiv(QMul(InitRoot(x, p, f, t), QI(x.s[p])), InitMean(x, p))
(* ---- bandpass: x: [b: [pol][group][freq], grp: group of a tile, fu, tu, odd: tiles with gains of their own, global] ---- *)
(* tiles of a group share the shape of their amplitudes, the odd ones are a minority *)
Shape(x, p, k) == [i \in Idx(SetToSortedSeq(On(x.fu))) |-> <<x.b[p][k][SetToSortedSeq(On(x.fu))[i]], 0>>]
(* ---- polynomials: amplitude x.a[p][t] and phase coefficients x.ph[p][t] (eighths of a radian), x.a2: above the jump ---- *)
Pow(b, e) == IF e = 0 THEN 1 ELSE IF e = 1 THEN b ELSE IF e = 2 THEN b * b ELSE b * b * b
Poly(c, f) == SumSeq([i \in Idx(c) |-> c[i] * Pow(f - 1, i - 1)])
JumpAt == 187515
Below(x) == {f \in On(x.fu) : x.khz[f] < JumpAt}
Jumps(x) == x.jump /\ Below(x) # {} /\ Below(x) # On(x.fu)
Part(x, f) == IF ~Jumps(x) THEN "one"
              ELSE IF f >= MinOf(On(x.fu)) /\ f <= MaxOf(Below(x)) THEN "one"
              ELSE IF f >= MinOf(On(x.fu) \ Below(x)) /\ f <= MaxOf(On(x.fu)) THEN "two" ELSE "none"
PolyAmp(x, p, f, t) == CASE Part(x, f) = "one" -> QI(Poly(x.a[p][t], f)) [] Part(x, f) = "two" -> QI(Poly(x.a2[p][t], f)) [] OTHER -> QI(0)
Pad(c, n) == [i \in 1..n |-> IF i <= Len(c) THEN c[i] ELSE 0]
AmpPar(x, p, t) == IF Jumps(x) THEN <<Pad(x.a[p][t], x.deg), Pad(x.a2[p][t], x.deg)>> ELSE <<Pad(x.a[p][t], x.deg + 1)>>
(* ---- auto-correlation fit: cross amplitude is s * auto + o away from flagged channels ---- *)
(* ---- differences by baseline length: bins of five wavelengths ---- *)
Bins(x) == ((x.hi - x.lo) \div 5) + 1
BinOf(x, d) == ((d - x.lo) \div 5) + 1
InBin(x, b) == {<<f, r>> \in Idx(x.f) \X Idx(x.u) : LET d == x.f[f] * x.u[r] IN d >= x.lo /\ d <= x.hi /\ BinOf(x, d) = b}
Real2(x, p, b) == {q \in InBin(x, b) : x.m[p][q[1]][q[2]] # 0}
SumOver(h(_), S) == LET RECURSIVE go(_)
                        go(T) == IF T = {} THEN 0 ELSE LET i == CHOOSE j \in T : TRUE IN h(i) + go(T \ {i})
                    IN go(S)
Diff(x, p, q) == AbsI(x.c[p][q[1]][q[2]] - x.m[p][q[1]][q[2]])
HistMean(x, p, b) == LET S == Real2(x, p, b) IN IF S = {} THEN QI(0)
                     ELSE Norm(<<SumOver(LAMBDA q : Diff(x, p, q), S), SumOver(LAMBDA q : AbsI(x.m[p][q[1]][q[2]]), S)>>)
HistVar(x, p, b) == LET S == Real2(x, p, b)  n == Cardinality(S)  m == SumOver(LAMBDA q : AbsI(x.m[p][q[1]][q[2]]), S)
                        d1 == SumOver(LAMBDA q : Diff(x, p, q), S)  d2 == SumOver(LAMBDA q : Diff(x, p, q) * Diff(x, p, q), S)
                    IN IF S = {} THEN QI(0) ELSE Norm(<<n * d2 - d1 * d1, m * m>>)
(* ---- judging ---- *)
FClauses == {"returns", "autos", "ratio", "restored", "start", "bandpass", "recombines", "polynomial", "parameters", "auto-fit", "histogram", "same", "sky", "reflection", "inputs"}
CloseTo(a, b, e) == AbsI(a[1] - b[1]) <= e /\ AbsI(a[2] - b[2]) <= e
PFT(y) == {<<p, f, t>> \in Idx(y) \X Idx(y[1]) \X Idx(y[1][1]) : TRUE}
FHolds(c, rec) == LET x == rec.x IN
  CASE c = "returns" -> rec.ok
    [] c = "autos" -> rec.ok /\ rec.kind = "auto" => rec.tiles = AutoOut(x) /\ (AutoOut(x) # <<>> => \A p \in Idx(x.v), f \in Idx(x.v[1]) : rec.val[p][f] = AutoVal(x, p, f))
    [] c = "ratio" -> rec.ok /\ rec.kind = "ratio" => \A i \in PFT(x.g) : LET p == i[1]  f == i[2]  t == i[3] IN
          rec.ratio[p][f][t] = RatioQ(x, p, f, t) /\ rec.div[p][f][t] = Divided(x, p, f, t)
    [] c = "restored" -> rec.ok /\ rec.kind = "ratio" => \A i \in PFT(x.g) : rec.back[i[1]][i[2]][i[3]] = Same2(x, i[1], i[2], i[3])
    [] c = "start" -> rec.ok /\ rec.kind = "init" => \A p \in Idx(rec.val) : \A f \in Idx(rec.val[p]) : \A t \in Idx(rec.val[p][f]) : rec.val[p][f][t] = InitQ(x, p, f, t)
    [] c = "bandpass" -> rec.ok /\ rec.kind = "band" => \A p \in Idx(rec.band) : \A k \in {x.grp[t] : t \in On(x.tu)} :
          LET k1 == IF x.global THEN 1 ELSE k
              sh == Shape(x, p, k1)
              m == MeanOf(sh, Keep2(sh, 4))[1]
          IN (Undecided(sh, 4) \/ ~Representable(sh)) \/
             LET want == [f \in Idx(x.fu) |-> IF x.fu[f] # 0 THEN QDiv(QI(x.b[p][k1][f]), m) ELSE QI(0)]
             IN \A t \in On(x.tu) : x.grp[t] = k => \A f \in Idx(x.fu) : rec.band[p][f][t] = want[f]
    [] c = "recombines" -> rec.ok /\ rec.kind \in {"band", "chain"} => \A p \in Idx(rec.prod) : \A f \in On(x.fu) : \A t \in On(x.tu) : CloseTo(rec.prod[p][f][t], rec.gain[p][f][t], 2)
    [] c = "polynomial" -> rec.ok /\ rec.kind = "poly" => \A p \in Idx(rec.amp) : \A t \in On(x.tu) : \A f \in Idx(x.fu) : rec.amp[p][f][t] = PolyAmp(x, p, f, t)
    [] c = "parameters" -> rec.ok /\ rec.kind = "poly" => \A p \in Idx(rec.amp) : \A t \in On(x.tu) :
          /\ rec.apar[p][t] = [k \in Idx(AmpPar(x, p, t)) |-> [i \in Idx(AmpPar(x, p, t)[k]) |-> QI(AmpPar(x, p, t)[k][i])]]
          /\ rec.ppar[p][t] = [i \in 1..(x.pdeg + 1) |-> QI(Pad(x.ph[p][t], x.pdeg + 1)[i])]
    [] c = "auto-fit" -> rec.ok /\ rec.kind = "afit" =>
          /\ \A p \in Idx(rec.amp) : \A f \in Idx(rec.amp[p]) : \A t \in Idx(rec.amp[p][f]) :
               rec.amp[p][f][t] = (IF HasAuto(x, t) THEN QI(x.s[p][t] * x.root[p][f][LastEntry(x, t)] + x.o[p][t]) ELSE QI(x.keep[p][f][t]))
          /\ \A p \in Idx(rec.amp) : \A t \in Idx(x.s[p]) : rec.par[p][t] = (IF HasAuto(x, t) THEN <<QI(x.o[p][t]), QI(x.s[p][t])>> ELSE <<QI(0), QI(0)>>)
          /\ \A p \in Idx(rec.amp) : LET T == {t \in Idx(x.s[p]) : HasAuto(x, t)} IN rec.scale[p] = Norm(<<SumF(x.s[p], T), Cardinality(T)>>)
    [] c = "histogram" -> rec.ok /\ rec.kind = "hist" => \A p \in Idx(rec.mean) : \A b \in Idx(rec.mean[p]) : rec.mean[p][b] = HistMean(x, p, b) /\ rec.var[p][b] = HistVar(x, p, b)
    [] c = "same" -> rec.ok /\ rec.kind = "same" => Len(rec.a) = Len(rec.b) /\ \A i \in Idx(rec.a) : CloseTo(rec.a[i], rec.b[i], 1)
    [] c = "sky" -> rec.ok /\ rec.kind = "sky" => \A i \in Idx(rec.got) : CloseTo(rec.got[i], rec.want[i], 8)
    [] c = "reflection" -> rec.ok /\ rec.kind = "mode" => \A i \in Idx(rec.got) : CloseTo(rec.got[i], rec.want[i], rec.tol)
    [] c = "inputs" -> rec.ok => rec.kept
FVerdict(rec) == {c \in FClauses : ~FHolds(c, rec)}
=============================================================================
