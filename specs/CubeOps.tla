------------------------------ MODULE CubeOps -------------------------------
(* Power spectrum cubes of an observation: per half (even and odd times, or     *)
(* all) and polarisation the gridded uv planes of every group of channels, and  *)
(* their projections onto the pixels of a map.                                  *)
(*                                                                              *)
(* x: np, nf, nt, nb (rows in order of time, the same baselines each time),     *)
(*   ta, tb (tiles of every baseline), out (baselines that leave the grid),     *)
(*   names (tiles flagged for the cubes), tu, fu, mu (masks), w, vis, mod (pol, *)
(*   channel, row), avg (channels per group), split, turn = <<tx, ty>> (phase   *)
(*   shift in quarter turns per cell), beam[p][s] (flat images), map (entries   *)
(*   [i, p, w], weights in eighths), n (pixels).                                *)
(* Gridding itself is VisGridOps'; here it is a toy that puts channel c and row *)
(* r of polarisation p into cell (3c + 5r + 7p) mod 16 of a 4 by 4 plane.       *)
EXTENDS SplitOps, ImageOps, TLC
NPix == 16
Halves(x) == IF x.split THEN <<"even", "odd">> ELSE <<"">>
Base(x, r) == ((r - 1) % x.nb) + 1
(* --- the weights the cubes are made from --- *)
Kept(x, c, r) == LET b == Base(x, r) T == {x.ta[b], x.tb[b]} IN
  /\ T \cap Range(x.names) = {} /\ (\A t \in T : x.tu[t] # 0) /\ x.fu[c] # 0 /\ x.mu[TimeOf(x, r) + 1] # 0 /\ ~x.out[b]
W1(x) == [p \in DOMAIN x.w |-> [c \in DOMAIN x.w[p] |-> [r \in DOMAIN x.w[p][c] |-> IF Kept(x, c, r) THEN x.w[p][c][r] ELSE 0]]]
Cleaned(x) == [x EXCEPT !.w = W1(x)]
RowsIn(y, h) == IF h = "even" THEN Even(y) ELSE IF h = "odd" THEN Odd(y)
                ELSE {r \in 1..(y.nt * y.nb) : \E p \in 1..Min2(2, y.np), c \in DOMAIN y.w[1] : y.w[p][c][r] > 0}
HalfW(y, h, p, c, r) == Max2(0, IF h = "" THEN y.w[p][c][r] ELSE SplitW(y, p, c, r))
(* --- the groups of channels --- *)
NSlice(x) == (x.nf + x.avg - 1) \div x.avg
NCube(x) == x.nf \div x.avg
ChansIn(x, s) == {c \in 1..x.nf : (c - 1) \div x.avg = s - 1 /\ x.fu[c] # 0}
(* --- what is gridded: y is Cleaned(x) --- *)
Cell(p, c, r) == ((3 * (c - 1) + 5 * (r - 1) + 7 * (p - 1)) % NPix) + 1
Samples(y, h, p, s) == {cr \in ChansIn(y, s) \X RowsIn(y, h) : HalfW(y, h, p, cr[1], cr[2]) > 0}
CSumF(f, D) == <<SumF([d \in D |-> f[d][1]], D), SumF([d \in D |-> f[d][2]], D)>>
(* W: the weight of every sample *)
PlaneOf(p, W, f) == [k \in 1..NPix |-> LET D == {cr \in DOMAIN W : Cell(p, cr[1], cr[2]) = k} IN CSumF([cr \in D |-> f[cr]], D)]
(* as exported: every plane counts as often as it has samples *)
UV(y, h, p, s) ==
  LET S == Samples(y, h, p, s) n == Cardinality(S)
      W == [cr \in S |-> HalfW(y, h, p, cr[1], cr[2])]
      Shift(a) == [k \in 1..NPix |-> Turned(a[k], ColOf(4, k) * y.turn[1] + RowOf(4, k) * y.turn[2])]
      N(a) == [k \in 1..NPix |-> CScale(n, a[k])]
  IN [dirty |-> N(PlaneOf(p, W, [cr \in S |-> CScale(W[cr], y.vis[p][cr[1]][cr[2]])])),
      model |-> N(PlaneOf(p, W, [cr \in S |-> CScale(W[cr], y.mod[p][cr[1]][cr[2]])])),
      weights |-> N(Shift(PlaneOf(p, W, [cr \in S |-> <<W[cr], 0>>]))),
      variance |-> N(Shift(PlaneOf(p, W, [cr \in S |-> <<W[cr] * W[cr], 0>>])))]
Project(y, im) == [k \in 1..y.n |-> SumSeq([e \in DOMAIN y.map |-> SumSeq([m \in DOMAIN y.map[e].p |-> IF y.map[e].p[m] = k - 1 THEN y.map[e].w[m] * im[y.map[e].i + 1] ELSE 0])])]
(* the image only where the map needs it *)
Seen(y, a) == LET I == {y.map[e].i + 1 : e \in DOMAIN y.map} IN [k \in 1..NPix |-> IF k \in I THEN RealAt(4, a, k) ELSE 0]
Cubes(y, h, p, uv) ==
  LET S == 1..NCube(y) IN
  [beam |-> [s \in S |-> LET n == Cardinality(Samples(y, h, p, s)) IN Project(y, [k \in 1..NPix |-> n * y.beam[p][s][k]])],
   weights |-> [s \in S |-> Project(y, Seen(y, uv[s].weights))],
   variance |-> [s \in S |-> Project(y, Seen(y, uv[s].variance))],
   model |-> [s \in S |-> Project(y, Seen(y, uv[s].model))],
   data |-> [s \in S |-> Project(y, Seen(y, uv[s].dirty))]]
NVisOf(y, h, p) == SumSeq([s \in 1..NSlice(y) |-> Cardinality(Samples(y, h, p, s))])
(* --- the settings: kb = <<numerator, denominator>> cells in wavelengths *)
KBin(q) == IF q.kbin[2] # 0 THEN q.kbin ELSE IF q.fov[2] # 0 THEN q.fov ELSE q.kpix
(* 4 * radius * sqrt(2) in field of views *)
NsideOk(q, n) == LET k == KBin(q) D2 == 16 * k[1] * k[1] IN
  /\ n * n * 1000 * k[2] * k[2] >= 1047 * D2
  /\ (n = 1 \/ (n \div 2) * (n \div 2) * 1000 * k[2] * k[2] <= 1048 * D2)
BinsOf(x) == LET a == IF x.beamavg = 0 THEN x.defavg ELSE x.beamavg IN [c \in 1..x.nf |-> (c - 1) \div a]
PolNames == <<"XX", "YY", "XY", "YX">>
HName(x, h) == IF h = "" THEN "healpix_cube" ELSE "hpx_" \o h
Files(x) == UNION {{"77_" \o HName(x, Halves(x)[i]) \o "_" \o PolNames[p] \o ".h5" : i \in DOMAIN Halves(x)} : p \in 1..x.np}
UVFiles(x) == UNION {{"77_" \o Halves(x)[i] \o "_" \o PolNames[p] \o "_" \o k \o "_gridded_uvf.h5" : i \in DOMAIN Halves(x), k \in {"dirty_uv_arr", "weights_uv", "variance_uv_arr", "model_uv_arr"}} : p \in 1..x.np}
KVerdict(rec) ==
  LET x == rec.x y == Cleaned(x) H == Halves(x) IN
  IF ~rec.ok THEN {"returns"}
  ELSE (IF NsideOk(x.q, rec.nside) THEN {} ELSE {"nside"})
   \cup (IF rec.radius THEN {} ELSE {"radius"})
   \cup (IF rec.dim = <<4, 4>> THEN {} ELSE {"dimension"})
   \cup (IF QEq(rec.kpix, KBin(x.q)) THEN {} ELSE {"kpix"})
   \cup (IF rec.bins = BinsOf(x) THEN {} ELSE {"beam-bins"})
   \cup (IF rec.beamargs THEN {} ELSE {"beam-settings"})
   \cup (IF Range(rec.files) = Files(x) /\ Len(rec.files) = Cardinality(Files(x)) THEN {} ELSE {"files"})
   \cup (IF Range(rec.uvfiles) = UVFiles(x) THEN {} ELSE {"uv-files"})
   \cup (IF Range(rec.files) # Files(x) \/ Range(rec.uvfiles) # UVFiles(x) THEN {} ELSE
     UNION {LET h == H[i] uv == [s \in 1..NSlice(x) |-> UV(y, h, p, s)] c == Cubes(y, h, p, uv) g == rec.f[i][p] IN
       (IF g.n = NVisOf(y, h, p) THEN {} ELSE {"n_vis"})
       \cup (IF g.inds = [k \in 1..x.n |-> 100 + k] /\ g.avg = x.avg THEN {} ELSE {"pixels"})
       \cup (IF g.key = (IF x.residual THEN "res_cube" ELSE "dirty_cube") THEN {} ELSE {"kind"})
       \cup (IF g.beam = c.beam THEN {} ELSE {"beam-cube"}) \cup (IF g.weights = c.weights THEN {} ELSE {"weights-cube"})
       \cup (IF g.variance = c.variance THEN {} ELSE {"variance-cube"}) \cup (IF g.model = c.model THEN {} ELSE {"model-cube"})
       \cup (IF g.data = c.data THEN {} ELSE {"data-cube"})
       \cup (IF g.uv.dirty = [s \in DOMAIN uv |-> uv[s].dirty] THEN {} ELSE {"dirty-uv"}) \cup (IF g.uv.model = [s \in DOMAIN uv |-> uv[s].model] THEN {} ELSE {"model-uv"})
       \cup (IF g.uv.weights = [s \in DOMAIN uv |-> uv[s].weights] THEN {} ELSE {"weights-uv"}) \cup (IF g.uv.variance = [s \in DOMAIN uv |-> uv[s].variance] THEN {} ELSE {"variance-uv"})
       \cup (IF \A c1 \in 1..x.nf : QEq(g.noise[c1], IF x.nt < 2 THEN <<0, 1>> ELSE Noise2([nt |-> x.nt, nb |-> x.nb, mu |-> x.mu, w |-> y.w, im |-> x.im], p, c1)) THEN {} ELSE {"noise"})
       : i \in DOMAIN H, p \in 1..x.np})
=============================================================================
