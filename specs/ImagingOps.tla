----------------------------- MODULE ImagingOps ------------------------------
(* Images of gridded planes and the snapshot images made of them.               *)
(* Planes are N by N (1, 2 or 4), flat by rows, of Gaussian integers.           *)
EXTENDS ImageOps, TLC
None == <<0, 0>>
(* product of fractions, reduced before it is taken *)
Times(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN QMul(a, b) ELSE LET c == Norm(<<a[1], b[2]>>) d == Norm(<<b[1], a[2]>>) IN <<c[1] * d[1], c[2] * d[2]>>
Over(a, b) == Times(a, <<IF b[1] < 0 THEN -b[2] ELSE b[2], AbsI(b[1])>>)
(* fractions finer than what floats are read as are not compared *)
Same(a, b) == LET e == Norm(a) IN e[2] > 40000 \/ e = Norm(b)
(* values beyond what is compared exactly come in as a mark *)
Capped(q) == LET n == Norm(q) IN IF AbsI(n[1]) \div n[2] >= 400000 THEN <<1999999999, 1>> ELSE n
(* a grown by whole factors with straight lines between, times k*k *)
Grow(N, k, a) ==
  LET M == N * k
      Row(s, c) == a[(s - 1) * N + c]
      Mid(x, y, j) == CAdd(CScale(k - j, x), CScale(j, y))
      At(i, c) == LET s == (i - 1) \div k + 1 j == (i - 1) % k IN Mid(Row(s, c), IF s = N THEN Row(s, c) ELSE Row(s + 1, c), j)
  IN [p \in 1..(M * M) |-> LET i == (p - 1) \div M + 1 c == ((p - 1) % M) + 1 s == (c - 1) \div k + 1 j == (c - 1) % k
                           IN Mid(At(i, s), IF s = N THEN At(i, s) ELSE At(i, s + 1), j)]
GrowInt(N, k, a) == LET g == Grow(N, k, [p \in DOMAIN a |-> <<a[p], 0>>]) IN [p \in DOMAIN g |-> g[p][1]]
(* a in the middle of zeros *)
Pad(N, k, a) ==
  LET M == N * k o == (M - N) \div 2
  IN [p \in 1..(M * M) |-> LET i == (p - 1) \div M - o c == ((p - 1) % M) - o
                           IN IF i \in 0..(N - 1) /\ c \in 0..(N - 1) THEN a[i * N + c + 1] ELSE C0]
(* --- the cut of short (t2 >= 0) or long (t2 < 0) spacings; t2 is twice the limit --- *)
Cut(N, t2) == [p \in 1..(N * N) |-> LET d == 4 * (RowOf(N, p) * RowOf(N, p) + ColOf(N, p) * ColOf(N, p)) IN
                 IF (t2 >= 0 /\ d < t2 * t2) \/ (t2 < 0 /\ d > t2 * t2) THEN 0 ELSE 1]
(* w*w times the cut smoothed by a box of w cells, where it fits *)
Width(w) == LET v == Max2(w, 1) IN IF v % 2 = 0 THEN v + 1 ELSE v
Smooth(N, w, m) ==
  LET h == w \div 2 IN
  [p \in 1..(N * N) |-> LET i == (p - 1) \div N c == (p - 1) % N IN
     IF i >= h /\ i < N - h /\ c >= h /\ c < N - h
     THEN SumSeq([q \in 1..(w * w) |-> m[(i - h + ((q - 1) \div w)) * N + c - h + ((q - 1) % w) + 1]])
     ELSE w * w * m[p]]
(* --- uniform weighting: 48 times the inverse count; counts are given in halves --- *)
Inverse(cnt) == [p \in DOMAIN cnt |-> IF cnt[p] >= 2 THEN 96 \div cnt[p] ELSE 0]
FromWeights(w) == LET P == {w[p][1] : p \in DOMAIN w} \ {0} IN [p \in DOMAIN w |-> IF w[p][1] > 0 THEN (48 * MinOf(P)) \div w[p][1] ELSE 0]
(* the cells whose mean is one *)
Within(F, w) == IF Len(w) = Len(F) THEN {p \in DOMAIN F : w[p] # C0} ELSE {p \in DOMAIN F : F[p] # 0}
MeanOf(F, w) == LET I == IF Within(F, w) = {} THEN DOMAIN F ELSE Within(F, w) IN <<SumF(F, I), Cardinality(I)>>
(* x: n, plane, cut [on, t2, w], mask, filt, given, cnt, wts, resize, pad, r (radians per pixel), real, norm, opt, beam (eighths) *)
Filter(x) == IF x.filt = "given" THEN x.given ELSE IF x.cnt = <<>> THEN FromWeights(x.wts) ELSE Inverse(x.cnt)
Scale(x) == IF x.filt = "uniform" THEN LET m == MeanOf(Filter(x), x.wts) IN Norm(<<m[2], m[1]>>) ELSE <<1, 1>>
FilterOut(x) == LET s == Scale(x) F == Filter(x) IN [p \in DOMAIN F |-> Norm(<<F[p] * s[1], s[2]>>)]
Filtered(x) ==
  LET w == Width(x.cut.w)
      m == IF x.cut.on THEN Smooth(x.n, w, Cut(x.n, x.cut.t2)) ELSE Rep(1, x.n * x.n)
      u == IF x.mask = <<>> THEN Rep(1, x.n * x.n) ELSE x.mask
      F == IF x.filt = "none" THEN Rep(1, x.n * x.n) ELSE Filter(x)
  IN [p \in 1..(x.n * x.n) |-> CScale(m[p] * u[p] * F[p], x.plane[p])]
SizeOf(x) == x.n * x.resize * x.pad
Final(x) == Pad(x.n * x.resize, x.pad, Grow(x.n, x.resize, Filtered(x)))
(* what the numbers of Final are to be divided by: the cells of the plane, the smoothing and the growing *)
Factor(x) ==
  LET w == Width(x.cut.w) m == x.n * x.resize
      a == Times(<<1, m * m * x.resize * x.resize>>, IF x.cut.on THEN <<1, w * w>> ELSE <<1, 1>>)
      b == Times(a, Scale(x))
      c == IF x.r = None THEN b ELSE Over(Over(b, x.r), x.r)
  IN IF x.norm = None THEN c ELSE Times(c, x.norm)
DirtyImage(x) ==
  LET M == SizeOf(x) P == Final(x) f == Factor(x)
      B(p, v) == IF x.opt /\ x.beam # <<>> THEN Times(<<x.beam[p], 8>>, v) ELSE v
  IN [p \in 1..(M * M) |-> LET v == ImageAt(M, P, p) IN <<Capped(B(p, Times(f, <<v[1], 1>>))), IF x.real THEN <<0, 1>> ELSE Capped(B(p, Times(f, <<v[2], 1>>)))>>]
DVerdict(rec) ==
  LET x == rec.x IN
  IF ~rec.ok THEN {"returns"}
  ELSE LET e == DirtyImage(x) IN
   (IF Len(rec.image) = Len(e) THEN (IF \A p \in DOMAIN e : Same(e[p][1], rec.image[p][1]) /\ Same(e[p][2], rec.image[p][2]) THEN {} ELSE {"image"}) ELSE {"size"})
   \cup (IF x.real => rec.isreal THEN {} ELSE {"real"})
   \cup (IF x.filt = "none" \/ (Len(rec.filter) = x.n * x.n /\ (LET F == IF x.filt = "given" THEN [p \in DOMAIN x.given |-> <<x.given[p], 1>>] ELSE FilterOut([x EXCEPT !.cut = [on |-> FALSE, t2 |-> 0, w |-> 0]])
         IN \A p \in DOMAIN F : Same(F[p], rec.filter[p]))) THEN {} ELSE {"filter"})
   \cup (IF Same(x.norm, rec.norm) THEN {} ELSE {"norm"})
   \cup (IF rec.kept THEN {} ELSE {"inputs"})
(* --- snapshot images --- *)
(* x: n, np, pad, k (kpix, a rational), img, mod, wts (pol, cell), cnt (halves), beam (pol, cell, in 2048ths), *)
(* hor (pixels below the horizon), opt, nvis, save *)
MOf(x) == x.n * x.pad
(* pad*pad*2048 times the beam on the image's pixels *)
BeamOf(x, p) == LET g == GrowInt(x.n, x.pad, x.beam[p]) IN [q \in DOMAIN g |-> IF q \in Range(x.hor) THEN 0 ELSE g[q]]
BUnit(x) == 2048 * x.pad * x.pad
Mid(x) == LET M == MOf(x) IN (M \div 2) * M + (M \div 2) + 1
SnapF(x) == Inverse(x.cnt)
(* where the beam is at least a thousandth, its inverse *)
Corr(x, b) == IF b * 1000 >= BUnit(x) THEN <<BUnit(x), b>> ELSE <<0, 1>>
(* apparent to flux: the sum of the filtered weights stands for one jansky at the centre *)
Gain(x, p) ==
  LET F == SnapF(x) b == BeamOf(x, p)[Mid(x)] M == MOf(x)
      s == SumSeq([q \in DOMAIN F |-> F[q] * x.wts[p][q][1]])
      u == Times(x.k, <<M, 1>>)
      bb == Norm(<<b, BUnit(x)>>)
  IN Times(Times(Times(u, u), <<1, s>>), IF x.opt THEN bb ELSE Times(bb, bb))
Sky(x, p, a) ==
  LET F == SnapF(x) P == Pad(x.n, x.pad, [q \in DOMAIN a |-> CScale(F[q], a[q])]) M == MOf(x) IN Image(M, P)
(* the parts shown as polarisation p: the third and fourth are the halves of the third *)
Part(x, p, v) == IF p = 4 THEN v[2] ELSE v[1]
From(x, p) == IF x.np = 4 /\ p = 4 THEN 3 ELSE p
Shown(x, p, planes) ==
  LET s == From(x, p) I == Sky(x, s, planes[s]) g == Gain(x, s) B == BeamOf(x, p) O == BeamOf(x, s)
  IN [q \in DOMAIN I |-> LET c == Times(Corr(x, B[q]), g) v == Part(x, p, I[q])
        IN Capped(Times(IF x.opt THEN Times(c, <<O[q], BUnit(x)>>) ELSE c, <<v, 1>>))]
Minus(a, b) == [p \in DOMAIN a |-> [q \in DOMAIN a[p] |-> CSub(a[p][q], b[p][q])]]
(* squares of the weights times the number of visibilities *)
WeightsOf(x, p) == LET w == x.wts[From(x, p)] IN [q \in DOMAIN w |-> LET v == IF x.np < 4 \/ p < 3 THEN w[q][1] * w[q][1] + w[q][2] * w[q][2] ELSE Part(x, p, w[q]) * Part(x, p, w[q]) IN v * x.nvis * x.nvis]
Names(x) == IF x.np = 4 THEN <<"XX", "YY", "XY_real", "XY_imag">> ELSE SubSeq(<<"XX", "YY">>, 1, x.np)
Kind == <<"dirty", "model", "residual">>
FitsFiles(x) == UNION {{"77_" \o x.filter \o "_" \o Kind[k] \o "_" \o Names(x)[p] \o ".fits" : k \in 1..3} \cup {"77_beam_" \o Names(x)[p] \o ".fits", "77_uv_weights_" \o Names(x)[p] \o ".fits"} : p \in 1..x.np}
Saved(x) ==
  (IF x.save.obs THEN {"metadata/77_obs.h5"} ELSE {}) \cup (IF x.save.params THEN {"metadata/77_params.h5"} ELSE {})
  \cup (IF x.save.vis THEN {"visibilities/77_calibrated_vis_arr.h5"} ELSE {})
  \cup (IF x.save.vis /\ x.save.grid THEN {"gridding/77_" \o n \o ".h5" : n \in {"image_uv", "weights_uv", "variance_uv", "uniform_filter_uv", "model_uv"}} ELSE {})
  \cup (IF x.save.cal /\ x.save.calibrate THEN {"calibration/77_cal.h5"} ELSE {})
  \cup (IF x.save.weights THEN {"visibilities/77_calibrated_vis_weights.h5"} ELSE {})
Wrong(e, g) == Len(e) # Len(g) \/ \E q \in DOMAIN e : ~Same(e[q], g[q])
SVerdict(rec) ==
  LET x == rec.x IN
  IF ~rec.ok THEN {"returns"}
  ELSE (IF Range(rec.files) = FitsFiles(x) THEN {} ELSE {"files"})
   \cup (IF Range(rec.saved) = Saved(x) THEN {} ELSE {"saved"})
   \cup (IF rec.savedwrong = <<>> THEN {} ELSE {"saved-contents"})
   \cup (IF rec.kept THEN {} ELSE {"inputs"})
   \cup (IF rec.beamargs THEN {} ELSE {"beam-arguments"})
   \cup (IF rec.sky THEN {} ELSE {"sky-arguments"})
   \cup (IF Range(rec.files) # FitsFiles(x) THEN {} ELSE UNION {
     LET d == rec.pol[p] IN
     (IF Wrong(Shown(x, p, x.img), d.dirty) THEN {"dirty"} ELSE {})
     \cup (IF Wrong(Shown(x, p, x.mod), d.model) THEN {"model"} ELSE {})
     \cup (IF Wrong(Shown(x, p, Minus(x.img, x.mod)), d.residual) THEN {"residual"} ELSE {})
     \cup (IF Wrong([q \in 1..(MOf(x) * MOf(x)) |-> <<BeamOf(x, p)[q], BUnit(x)>>], d.beam) THEN {"beam"} ELSE {})
     \cup (IF Wrong([q \in 1..(x.n * x.n) |-> <<WeightsOf(x, p)[q], 1>>], d.weights) THEN {"weights"} ELSE {})
     \cup (IF d.wrong = <<>> THEN {} ELSE {"header"})
     : p \in 1..x.np})
=============================================================================
