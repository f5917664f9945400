------------------------------ MODULE VisGridOps ------------------------------
(* Gridding: what the planes hold.  A layout o (GridOps) is extended by        *)
(*   fb   kernel group of every channel (from 1)                               *)
(*   vis  visibilities vis[c][b] (Gaussian integers), mod likewise or <<>>     *)
(*   K    kernels K[group][yoff][xoff][p], p = row * psf + column + 1          *)
(* and a call s (GridOps) by conj (fill the mirrored half), uni (count plane), *)
(* gu (uniform weighting), gs (spectral planes).                               *)
(* A plane is rows of cells; cell (x, y) counted from 0.                       *)
EXTENDS GridOps
Value(o, A, c, b) == IF Flip(o, b) THEN CConj(A[c][b]) ELSE A[c][b]
(* powers of i *)
IPow(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 1>> [] n % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
(* beam made per baseline from an image of one point: o.bp = [kl, km] direction of the point in quarter turns per unit, *)
(* [tx, ty] its place in the image in quarters of the image; summed over the res subcells of a cell *)
Comb(o, t, c) == CSum([r \in 1..o.res |-> IPow(-t * (c * o.res + r - 1 - (o.psf \div 2) * o.res))])
KPoint(o, c, b, p) ==
  LET jx == (XC(o, c, b) % o.U) - o.U  jy == (YC(o, c, b) % o.U) - o.U
      turn == IPow(o.bp.kl * jx + o.bp.km * jy)
  IN CMul(turn, CMul(Comb(o, o.bp.tx, (p - 1) % o.psf), Comb(o, o.bp.ty, (p - 1) \div o.psf)))
(* U * U times the kernel of a sample at position p of its footprint *)
KU(o, s, c, b, p) ==
  IF s.bpb THEN CScale(o.U * o.U, KPoint(o, c, b, p)) ELSE
  LET g == o.K[o.fb[c]]  i == XOff(o, c, b) + 1  j == YOff(o, c, b) + 1
  IN IF ~s.interp THEN CScale(o.U * o.U, g[j][i][p])
     ELSE LET x == DX(o, c, b)  y == DY(o, c, b)
          IN CAdd(CAdd(CScale((o.U - x) * (o.U - y), g[j][i][p]), CScale(x * (o.U - y), g[j][i + 1][p])),
                  CAdd(CScale((o.U - x) * y, g[j + 1][i][p]), CScale(x * y, g[j + 1][i + 1][p])))
(* the samples of a call: positions in the selection *)
Kps(o, s) == {i \in 0..(NFlat(o, s) - 1) : Kept(o, s, FlatC(o, s, i), FlatB(o, s, i))}
(* one sample's contribution to cell (x, y): <<value, unit, squared kernel, count>> or nothing *)
Covers(o, c, b, x, y) == x - XMin(o, c, b) \in 0..(o.psf - 1) /\ y - YMin(o, c, b) \in 0..(o.psf - 1)
Pos(o, c, b, x, y) == (y - YMin(o, c, b)) * o.psf + (x - XMin(o, c, b)) + 1
Abs2(z) == z[1] * z[1] + z[2] * z[2]
RECURSIVE CSumF(_, _)
CSumF(f, D) == IF D = {} THEN C0 ELSE LET x == CHOOSE y \in D : TRUE IN CAdd(f[x], CSumF(f, D \ {x}))
RECURSIVE SumG(_, _)
SumG(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + SumG(f, D \ {x})
Cells(o) == (0..(o.dim - 1)) \X (0..(o.el - 1))
At(o, s, S, x, y) == {i \in S : Covers(o, FlatC(o, s, i), FlatB(o, s, i), x, y)}
KAt(o, s, i, x, y) == CConj(KU(o, s, FlatC(o, s, i), FlatB(o, s, i), Pos(o, FlatC(o, s, i), FlatB(o, s, i), x, y)))
(* sums over a set of samples at one cell (all scaled by U * U, the squares by its square) *)
RawV(o, s, A, S, x, y) == CSumF([i \in At(o, s, S, x, y) |-> CMul(KAt(o, s, i, x, y), Value(o, A, FlatC(o, s, i), FlatB(o, s, i)))], At(o, s, S, x, y))
RawW(o, s, S, x, y) == CSumF([i \in At(o, s, S, x, y) |-> KAt(o, s, i, x, y)], At(o, s, S, x, y))
RawQ(o, s, S, x, y) == SumG([i \in At(o, s, S, x, y) |-> Abs2(KAt(o, s, i, x, y))], At(o, s, S, x, y))
RawN(o, s, S, x, y) == Cardinality(At(o, s, S, x, y))
(* spectral sums: the position of the channel in the selection (from 0) is the lever *)
Lev(o, s, i) == i \div Len(SelB(o, s))
RawA(o, s, A, S, x, y) == CSumF([i \in At(o, s, S, x, y) |-> CScale(Lev(o, s, i), CMul(KAt(o, s, i, x, y), Value(o, A, FlatC(o, s, i), FlatB(o, s, i))))], At(o, s, S, x, y))
RawB(o, s, S, x, y) == SumG([i \in At(o, s, S, x, y) |-> Lev(o, s, i) * KAt(o, s, i, x, y)[1]], At(o, s, S, x, y))
RawD(o, s, S, x, y) == SumG([i \in At(o, s, S, x, y) |-> Lev(o, s, i) * Lev(o, s, i) * KAt(o, s, i, x, y)[1]], At(o, s, S, x, y))
Mir(o, p) == <<(o.dim - p[1]) % o.dim, (o.el - p[2]) % o.el>>
(* the planes as functions of the cell, scaled: values and units by n U^2 (and 2 with conj), squares by n U^4 (and 4), counts by 2 with conj *)
Raws(o, s, S) == [v |-> [p \in Cells(o) |-> RawV(o, s, o.vis, S, p[1], p[2])],
                  m |-> [p \in Cells(o) |-> IF o.mod = <<>> THEN C0 ELSE RawV(o, s, o.mod, S, p[1], p[2])],
                  w |-> [p \in Cells(o) |-> RawW(o, s, S, p[1], p[2])],
                  q |-> [p \in Cells(o) |-> RawQ(o, s, S, p[1], p[2])],
                  n |-> [p \in Cells(o) |-> RawN(o, s, S, p[1], p[2])]]
HermC(o, f) == [p \in DOMAIN f |-> CAdd(f[p], CConj(f[Mir(o, p)]))]
HermI(o, f) == [p \in DOMAIN f |-> f[p] + f[Mir(o, p)]]
Finish(o, s, r) == IF ~s.conj THEN r ELSE [v |-> HermC(o, r.v), m |-> HermC(o, r.m), w |-> HermC(o, r.w), q |-> HermI(o, r.q), n |-> HermI(o, r.n)]
(* uniform weighting multiplies by the count and the mean inverse count: Inv12 / (12 * Cnt) *)
Filled(o, n) == {p \in Cells(o) : n[p] > 0}
Inv12(o, n) == SumG([p \in Filled(o, n) |-> 12 \div n[p]], Filled(o, n))
Uniformable(o, n) == Filled(o, n) # {} /\ \A p \in Filled(o, n) : 12 % n[p] = 0
Uniform(o, r) == LET k == Inv12(o, r.n) IN [r EXCEPT !.v = [p \in DOMAIN r.v |-> CScale(r.n[p] * k, r.v[p])], !.m = [p \in DOMAIN r.v |-> CScale(r.n[p] * k, r.m[p])],
                                                    !.w = [p \in DOMAIN r.v |-> CScale(r.n[p] * k, r.w[p])], !.q = [p \in DOMAIN r.v |-> r.n[p] * k * r.q[p]]]

(* ---- judging visibility_grid ---- *)
(* rec: o, s, ok, none (nothing was gridded), n, img, mod, wts, var, cnt (rows), gus (scale used for uniform weighting), nf, spec *)
C2(rows, p) == rows[p[2] + 1][p[1] + 1]
(* spectral = n (A - B I) / (n D - B^2), zero without leverage; never combined with interp fractions or mirroring *)
SpecOk(rec, got, A, S, I, p) ==
  LET o == rec.o  s == rec.s  n == Cardinality(S)  q == o.U * o.U
      a == RawA(o, s, A, S, p[1], p[2])  b == RawB(o, s, S, p[1], p[2]) \div q  d == RawD(o, s, S, p[1], p[2]) \div q
      ai == <<a[1] \div q, a[2] \div q>>  ii == <<I[p][1] \div q, I[p][2] \div q>>
      num == CSub(CScale(n, ai), CScale(n * b, ii))  den == n * d - b * b
  IN IF den = 0 THEN TRUE
     ELSE QEq(got[p[2] + 1][p[1] + 1][1], Norm(<<num[1], den>>)) /\ QEq(got[p[2] + 1][p[1] + 1][2], Norm(<<num[2], den>>))
GClauses == {"returns", "nothing-usable", "number", "data", "model", "weights", "variance", "counts", "uniform-scale", "channel-counts", "spectral", "spectral-model", "inputs-kept"}
GHolds(k, rec, S, R, F) ==
  LET o == rec.o  s == rec.s  E == IF s.gu THEN Uniform(o, R) ELSE F
      live == rec.ok /\ ~rec.none /\ S # {}
      good == live /\ (s.gu => Uniformable(o, R.n))
  IN CASE k = "returns" -> rec.ok
       [] k = "inputs-kept" -> rec.kept
       [] k = "nothing-usable" -> rec.ok => (rec.none <=> S = {})
       [] k = "number" -> live => rec.n = Cardinality(S)
       [] k = "data" -> good => \A p \in Cells(o) : C2(rec.img, p) = E.v[p]
       [] k = "model" -> (good /\ o.mod # <<>>) => \A p \in Cells(o) : C2(rec.mod, p) = E.m[p]
       [] k = "weights" -> good => \A p \in Cells(o) : C2(rec.wts, p) = (IF s.gw THEN E.w[p] ELSE C0)
       [] k = "variance" -> good => \A p \in Cells(o) : C2(rec.var, p) = (IF s.gv THEN E.q[p] ELSE 0)
       [] k = "counts" -> good => \A p \in Cells(o) : C2(rec.cnt, p) = (IF s.uni \/ s.gu THEN F.n[p] ELSE 0)
       [] k = "uniform-scale" -> (good /\ s.gu) => rec.gus = 12 * Cardinality(Filled(o, R.n))
       [] k = "channel-counts" -> live => \A c \in DOMAIN o.f :
              rec.nf[c] = (IF c \in Range(SelF(o, s)) THEN Cardinality({i \in S : FlatC(o, s, i) = c}) ELSE -7)
       [] k = "spectral" -> (live /\ s.gs) => \A p \in Cells(o) : SpecOk(rec, rec.spec, o.vis, S, R.v, p)
       [] k = "spectral-model" -> (live /\ s.gs /\ o.mod # <<>>) => \A p \in Cells(o) : SpecOk(rec, rec.specm, o.mod, S, R.m, p)
GVerdict(rec) == LET S == Kps(rec.o, rec.s)  R == Raws(rec.o, rec.s, S)  F == Finish(rec.o, rec.s, R) IN {k \in GClauses : ~GHolds(k, rec, S, R, F)}
(* ---- counting visibilities ---- *)
NVerdict(rec) == LET o == rec.o  s == rec.s  S == Kps(o, s)
                     n == [p \in Cells(o) |-> RawN(o, s, S, p[1], p[2])]
                     h == IF s.conj THEN HermI(o, n) ELSE n
                 IN (IF rec.ok THEN {} ELSE {"returns"}) \cup (IF rec.ok /\ \E p \in Cells(o) : C2(rec.cnt, p) # h[p] THEN {"counts"} ELSE {})
(* ---- related executions ---- *)
(* rec.whole and rec.parts hold scaled planes (rows of <<re, im>> or integers): the parts add up within tol *)
Rows(r) == DOMAIN r
PlaneSum(parts, k, y, x) == CSum([i \in DOMAIN parts |-> parts[i][k][y][x]])
Near(a, b, t) == AbsI(a[1] - b[1]) <= t /\ AbsI(a[2] - b[2]) <= t
ASums(rec, k) == \A y \in Rows(rec.whole[k]), x \in Rows(rec.whole[k][1]) : Near(rec.whole[k][y][x], PlaneSum(rec.parts, k, y, x), rec.tol)
AVerdict(rec) == (IF rec.ok THEN {} ELSE {"returns"})
   \cup (IF rec.ok THEN {k \in DOMAIN rec.whole \ {"n"} : ~ASums(rec, k)} ELSE {})
   \cup (IF rec.ok /\ rec.whole.n # SumSeq([i \in DOMAIN rec.parts |-> rec.parts[i].n]) THEN {"number"} ELSE {})
(* same planes, whatever the order, grouping, storage *)
SameVerdict(rec) == (IF rec.ok THEN {} ELSE {"returns"})
   \cup (IF rec.ok THEN {k \in DOMAIN rec.a \ {"n"} : ~(\A y \in Rows(rec.a[k]), x \in Rows(rec.a[k][1]) : Near(rec.a[k][y][x], rec.b[k][y][x], rec.tol))} ELSE {})
   \cup (IF rec.ok /\ rec.a.n # rec.b.n THEN {"number"} ELSE {})
(* z * plane(a) + w * plane(b) = plane(c) for integer z, w *)
LinVerdict(rec) == (IF rec.ok THEN {} ELSE {"returns"})
   \cup (IF rec.ok /\ \E y \in Rows(rec.c), x \in Rows(rec.c[1]) : ~Near(rec.c[y][x], CAdd(CScale(rec.z, rec.a[y][x]), CScale(rec.w, rec.b[y][x])), rec.tol) THEN {"linear"} ELSE {})
(* every plane is its own conjugate mirror image *)
HermVerdict(rec) == IF \A y \in Rows(rec.a), x \in Rows(rec.a[1]) :
      Near(rec.a[y][x], CConj(rec.a[((Len(rec.a) + 1 - y) % Len(rec.a)) + 1][((Len(rec.a[1]) + 1 - x) % Len(rec.a[1])) + 1]), rec.tol) THEN {} ELSE {"hermitian"}
(* ---- frequency cubes: slice j (from 0) holds the channels with (c - 1) \div avg = j ---- *)
SliceF(o, avg, j) == SetToSortedSeq({c \in DOMAIN o.f : o.fu[c] # 0 /\ (c - 1) \div avg = j})
NSlices(o, avg) == ((Len(o.f) - 1) \div avg) + 1
SliceSel(rec, j) == [rec.s EXCEPT !.fi = SliceF(rec.o, rec.avg, j), !.bi = rec.bi]
SliceEmpty(rec, j) == SliceF(rec.o, rec.avg, j) = <<>> \/ Kps(rec.o, SliceSel(rec, j)) = {}
SliceN(rec, j) == IF SliceEmpty(rec, j) THEN 0 ELSE Cardinality(Kps(rec.o, SliceSel(rec, j)))
\* rec.bi: the baselines every slice uses (the seen ones unless given); rec.seen: those with weight in either polarisation
SplitVerdict(rec) ==
  LET o == rec.o  J == 0..(NSlices(o, rec.avg) - 1)
      E == [j \in J |-> IF SliceEmpty(rec, j) THEN <<>> ELSE Finish(o, SliceSel(rec, j), Raws(o, SliceSel(rec, j), Kps(o, SliceSel(rec, j))))]
      Is(k, j, p) == LET g == C2(rec.sl[j + 1][k], p) IN g = (IF E[j] = <<>> THEN C0 ELSE IF k = "var" THEN <<E[j].q[p], 0>> ELSE IF k = "img" THEN E[j].v[p] ELSE IF k = "wts" THEN E[j].w[p] ELSE E[j].m[p])
  IN IF ~rec.ok THEN {"returns"}
     ELSE (IF Len(rec.sl) = NSlices(o, rec.avg) THEN {} ELSE {"slices"})
       \cup (IF Len(rec.sl) = NSlices(o, rec.avg) THEN {k \in {"img", "mod", "wts", "var"} : \E j \in J, p \in Cells(o) : ~Is(k, j, p)} ELSE {})
       \cup (IF rec.n = SumG([j \in J |-> SliceN(rec, j)], J) THEN {} ELSE {"number"})
AllVerdict(rec) == CASE rec.kind = "grid" -> GVerdict(rec.r) [] rec.kind = "count" -> NVerdict(rec.r) [] rec.kind = "parts" -> AVerdict(rec.r)
                     [] rec.kind = "same" -> SameVerdict(rec.r) [] rec.kind = "linear" -> LinVerdict(rec.r) [] rec.kind = "herm" -> HermVerdict(rec.r)
                     [] rec.kind = "split" -> SplitVerdict(rec.r)
=============================================================================
