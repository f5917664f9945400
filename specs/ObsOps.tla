------------------------------- MODULE ObsOps --------------------------------
(* The description of an observation.  x.rows: [a, b, t, u, v] in the order of  *)
(* the file, rows of one integration together; a, b are antenna numbers as in   *)
(* the file, x.nums the numbers of the antenna table; t in 64ths of a day.      *)
(* x.f0, x.df, x.nf: channels; x.navg: channels per beam channel (0: not set).  *)
(* x.kb: resolution asked for <<num, den>> (<<0, 1>>: not set), x.fov: field of *)
(* view (0: not set), x.dim, x.el: grid (0: not set), x.minb: shortest baseline *)
(* asked for (0: not set), x.cuts: seconds to cut (0: none), x.res: integration *)
(* time, x.flags: tile flags, x.meta: whether there is a metafits file.         *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
N(x) == Len(x.rows)
NTiles(x) == Len(x.nums)
(* --- integrations *)
Starts(x) == {r \in 1..N(x) : r = 1 \/ x.rows[r].t # x.rows[r - 1].t}
NTime(x) == Cardinality(Starts(x))
Offsets(x) == [i \in 1..NTime(x) |-> SetToSortedSeq(Starts(x))[i] - 1]
BinLen(x, i) == (IF i = NTime(x) THEN N(x) ELSE Offsets(x)[i + 1]) - Offsets(x)[i]
Jdate(x) == [i \in 1..NTime(x) |-> x.rows[SetToSortedSeq(Starts(x))[i]].t]
(* --- tiles: the position in the antenna table; numbers that are not in it stay *)
Tile(x, n) == IF n \in Range(x.nums) THEN CHOOSE i \in DOMAIN x.nums : x.nums[i] = n ELSE n
TileA(x) == [r \in 1..N(x) |-> Tile(x, x.rows[r].a)]
TileB(x) == [r \in 1..N(x) |-> Tile(x, x.rows[r].b)]
Seen(x) == Range(TileA(x)) \cup Range(TileB(x))
TileFlag(x) == [i \in 1..NTiles(x) |-> IF x.meta THEN x.flags[i] ELSE IF i \in Seen(x) THEN 0 ELSE 1]
Refused(x) == x.meta /\ SumSeq(TileFlag(x)) >= NTiles(x) - 1 /\ ~x.sim
(* --- channels *)
Freq(x, f) == x.f0 + (f - 1) * x.df
Bins(nf, avg) == [f \in 1..nf |-> (f - 1) \div avg]
Fbin(x) == Bins(x.nf, IF x.navg = 0 THEN 1 ELSE x.navg)
Center2(x) == Freq(x, 1) + Freq(x, x.nf)
(* --- the grid *)
KB(x) == IF x.kb[1] = 0 THEN <<1, 2>> ELSE x.kb
Dim(x) == IF x.dim # 0 THEN x.dim ELSE x.el
El(x) == IF x.el # 0 THEN x.el ELSE x.dim
KX(x, f, r) == AbsI(Freq(x, f) * x.rows[r].u)
KY(x, f, r) == AbsI(Freq(x, f) * x.rows[r].v)
All(x) == (1..x.nf) \X (1..N(x))
Kr2(x, k) == KX(x, k[1], k[2]) * KX(x, k[1], k[2]) + KY(x, k[1], k[2]) * KY(x, k[1], k[2])
MaxK(x) == MaxOf({Max2(KX(x, k[1], k[2]), KY(x, k[1], k[2])) : k \in All(x)})
(* k is closer to the centre than n pixels are, for a resolution kb or 57.29578 / fov *)
Within(x, k, n) == IF x.fov # 0 THEN k * 2 * x.fov * 10000 < 572957 * n ELSE k * 2 * KB(x)[2] < KB(x)[1] * n
InGrid(x, d, e) == {k \in All(x) : Within(x, KX(x, k[1], k[2]), d) /\ Within(x, KY(x, k[1], k[2]), e)}
MaxB2(x, d, e) == MaxOf({Kr2(x, k) : k \in InGrid(x, d, e)})
MinB2(x) == Max2(x.minb * x.minb, MinOf({Kr2(x, k) : k \in {j \in All(x) : Kr2(x, j) > 0}}))
Domain(x) == (\E k \in All(x) : Kr2(x, k) > 0) /\ (Dim(x) = 0 \/ InGrid(x, Dim(x), El(x)) # {})
(* a grid nobody asked for: a power of two of the size of the data *)
Pow2(d) == d \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
Fitting(x, d) == Pow2(d) /\ d * KB(x)[1] <= 4 * MaxK(x) * KB(x)[2] /\ MaxK(x) * KB(x)[2] * 2 < 2 * d * KB(x)[1]
(* --- cut times: whole integrations, rounded up, from the start or (negative) the end *)
Res(x) == IF x.meta THEN x.res ELSE IF NTime(x) > 1 THEN (Jdate(x)[2] - Jdate(x)[1]) * 1350 ELSE 1
CeilDiv(a, b) == (a + b - 1) \div b
CutSet(x, c) == LET n == CeilDiv(AbsI(c), Res(x)) IN IF c < 0 THEN {i \in 1..NTime(x) : i > NTime(x) - n} ELSE {i \in 1..NTime(x) : i <= n}
TimeUse(x) == [i \in 1..NTime(x) |-> IF \E j \in DOMAIN x.cuts : i \in CutSet(x, x.cuts[j]) THEN 0 ELSE 1]
(* --- later updates of the grid: s is the description, u = [dim, kb, avg, fov] *)
RoundEven(a, b) == LET q == a \div b  r2 == 2 * (a % b) IN IF r2 < b THEN q ELSE IF r2 > b THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
Avg(x, fbin, u) == IF u.avg # 0 THEN u.avg ELSE RoundEven(x.nf, fbin[x.nf] + 1)
(* the longest baseline never grows and fits the diagonal of the new grid (not followed for a field of view, which is not rational) *)
NewMax2(m, u) == IF u.fov # 0 THEN m ELSE
                 LET d == Norm(<<u.dim * u.dim * u.kb[1] * u.kb[1], 2 * u.kb[2] * u.kb[2]>>) IN IF QLt(<<m[1], m[2]>>, d) THEN m ELSE d

OClauses == {"refused", "returns", "times", "offsets", "counts", "jdate", "tiles", "params", "tile-flags", "tile-names", "tile-heights", "channel-bins", "channels", "resolution", "grid", "pixel",
             "longest", "shortest", "time-cut", "position", "phase-centre", "astrometry", "options",
             "update-returns", "update-grid", "update-resolution", "update-longest", "update-bins", "update-astrometry", "update-keeps"}
RECURSIVE UChain(_, _, _, _)
(* the successive [fbin, max2] of a list of updates *)
UChain(x, fb, m, us) == IF Len(us) = 0 THEN <<>> ELSE
  LET u == Head(us)  a == Avg(x, fb, u)  nfb == Bins(x.nf, a)  nm == NewMax2(m, u) IN <<[fbin |-> nfb, max2 |-> nm]>> \o UChain(x, nfb, nm, Tail(us))
OHolds(k, rec) ==
  LET x == rec.x  o == rec.o IN
  IF k = "refused" THEN rec.refused = Refused(x) ELSE
  IF rec.refused THEN TRUE ELSE
  IF k = "returns" THEN rec.ok ELSE IF ~rec.ok THEN TRUE ELSE
  CASE k = "times" -> o.n_time = NTime(x) /\ o.n_time_flag = NTime(x) - SumSeq(TimeUse(x))
    [] k = "offsets" -> o.offsets = Offsets(x) /\ o.n_baselines = BinLen(x, 1)
    [] k = "counts" -> o.n_vis = N(x) * x.nf /\ o.n_freq = x.nf /\ o.n_tile = NTiles(x) /\ o.n_pol = (IF x.cfgpol = 0 THEN x.np ELSE x.cfgpol)
    [] k = "jdate" -> o.jdate = Jdate(x) /\ o.jd0 = MinOf(Range(Jdate(x)))
    [] k = "tiles" -> o.tile_a = TileA(x) /\ o.tile_b = TileB(x)
    [] k = "params" -> o.p_a = TileA(x) /\ o.p_b = TileB(x)
    [] k = "tile-flags" -> o.tile_flag = TileFlag(x) /\ o.tile_use = [i \in 1..NTiles(x) |-> 1 - TileFlag(x)[i]] /\ o.n_tile_flag = SumSeq(TileFlag(x))
    [] k = "tile-names" -> o.tile_names = (IF x.meta THEN x.names ELSE [i \in 1..NTiles(x) |-> i])
    [] k = "tile-heights" -> o.heights = (IF x.meta THEN x.heights ELSE [i \in 1..NTiles(x) |-> 0])
    [] k = "channel-bins" -> o.fbin = Fbin(x)
    [] k = "channels" -> o.freq = [f \in 1..x.nf |-> Freq(x, f)] /\ o.center2 = Center2(x) /\ o.freq_use = [f \in 1..x.nf |-> 1] /\ o.freq_res = x.df
    [] k = "resolution" -> IF x.fov # 0 THEN o.kfov = <<1, 1>> ELSE QEq(o.kpix, KB(x))
    [] k = "grid" -> IF x.dim = 0 /\ x.el = 0 THEN o.dim = o.el /\ Fitting(x, o.dim) ELSE o.dim = Dim(x) /\ o.el = El(x)
    [] k = "pixel" -> o.pix = <<1, 1>> /\ o.obsx = o.dim \div 2 /\ o.obsy = o.el \div 2
    [] k = "longest" -> InGrid(x, o.dim, o.el) # {} => QEq(o.max2, <<MaxB2(x, o.dim, o.el), 1>>)
    [] k = "shortest" -> QEq(o.min2, <<MinB2(x), 1>>)
    [] k = "time-cut" -> o.time_use = TimeUse(x)
    [] k = "position" -> o.obsra = (IF x.meta THEN 31 ELSE x.hra) /\ o.obsdec = (IF x.meta THEN -32 ELSE -11) /\ o.time_res = Res(x)
    [] k = "phase-centre" -> /\ o.phasera = (IF x.meta THEN x.mra ELSE x.hra) /\ o.phasedec = (IF x.meta THEN -34 ELSE -11)
                             /\ o.orig_ra = (IF x.ora # 999 THEN x.ora ELSE o.phasera) /\ o.orig_dec = (IF x.odec # 999 THEN x.odec ELSE o.phasedec)
    [] k = "astrometry" -> /\ o.naxis = <<o.dim, o.el>> /\ o.crpix = <<o.obsx + 1, o.obsy + 1>> /\ o.crval = <<o.phasera, o.phasedec>>
                           /\ o.cdelt = <<<<1, 1>>, <<1, 1>>>> /\ o.centre = <<o.obsx, o.obsy>>
    [] k = "options" -> o.inds = x.inds /\ o.instrument = "mwa" /\ o.obsname = "obs" /\ ~o.residual
    [] k = "update-returns" -> Len(rec.up) = Len(x.ups) /\ \A i \in DOMAIN rec.up : rec.up[i].ok
    [] k = "update-grid" -> \A i \in DOMAIN rec.up : rec.up[i].ok => rec.up[i].dims = <<x.ups[i].dim, x.ups[i].dim>> /\ \A j \in 1..2 : QEq(rec.up[i].centre[j], <<x.ups[i].dim, 2>>)
    [] k = "update-resolution" -> \A i \in DOMAIN rec.up : rec.up[i].ok => rec.up[i].pix = <<1, 1>> /\ (IF x.ups[i].fov # 0 THEN rec.up[i].kfov = <<1, 1>> ELSE QEq(rec.up[i].kpix, x.ups[i].kb))
    [] k = "update-longest" -> LET c == UChain(x, o.fbin, o.max2, x.ups) IN (\A i \in DOMAIN x.ups : x.ups[i].fov = 0) => \A i \in DOMAIN rec.up : rec.up[i].ok => QEq(rec.up[i].max2, c[i].max2)
    [] k = "update-bins" -> LET c == UChain(x, o.fbin, <<1, 1>>, x.ups) IN \A i \in DOMAIN rec.up : rec.up[i].ok => rec.up[i].fbin = c[i].fbin
    [] k = "update-astrometry" -> \A i \in DOMAIN rec.up : rec.up[i].ok => rec.up[i].naxis = <<x.ups[i].dim, x.ups[i].dim>> /\ rec.up[i].cdelt = <<<<1, 1>>, <<1, 1>>>> /\ \A j \in 1..2 : QEq(rec.up[i].crpix[j], <<x.ups[i].dim + 2, 2>>)
    [] k = "update-keeps" -> \A i \in DOMAIN rec.up : rec.up[i].ok => rec.up[i].kept
OVerdict(rec) == {k \in OClauses : ~OHolds(k, rec)}
=============================================================================
