------------------------------- MODULE GridOps -------------------------------
(* Where samples land on the uv grid.                                          *)
(* A layout o has: dim, el (columns, rows), psf (kernel width), res (kernel    *)
(* offsets per cell), U (coordinate units per cell), f (channel values), u, v  *)
(* (baseline coordinates in units per channel value), mn, mx (allowed lengths  *)
(* in units), w (weights, channel by baseline).  Channels and baselines are    *)
(* numbered from 1; cells from 0.                                              *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
Flip(o, b) == o.v[b] > 0
US(o, b) == IF Flip(o, b) THEN -o.u[b] ELSE o.u[b]
VS(o, b) == IF Flip(o, b) THEN -o.v[b] ELSE o.v[b]
(* coordinates of a sample in units *)
XC(o, c, b) == o.f[c] * US(o, b)
YC(o, c, b) == o.f[c] * VS(o, b)
XMin(o, c, b) == (XC(o, c, b) \div o.U) + (o.dim \div 2) - ((o.psf \div 2) - 1)
YMin(o, c, b) == (YC(o, c, b) \div o.U) + (o.el \div 2) - ((o.psf \div 2) - 1)
(* the kernel footprint lies strictly inside the grid *)
Fits(o, c, b) == /\ 0 < XMin(o, c, b) /\ XMin(o, c, b) + o.psf - 1 < o.dim - 1
                 /\ 0 < YMin(o, c, b) /\ YMin(o, c, b) + o.psf - 1 < o.el - 1
Len2(o, b) == o.u[b] * o.u[b] + o.v[b] * o.v[b]
(* length of one sample within the limits *)
LenOk(o, c, b) == LET d == o.f[c] * o.f[c] * Len2(o, b) IN o.mn * o.mn <= d /\ d <= o.mx * o.mx
(* length of a baseline within the limits over the whole band *)
BandOk(o, b) == \A c \in DOMAIN o.f : LenOk(o, c, b)
XOff(o, c, b) == ((XC(o, c, b) % o.U) * o.res) \div o.U
YOff(o, c, b) == ((YC(o, c, b) % o.U) * o.res) \div o.U
(* distance to the next lower kernel offset, in 1/U of an offset *)
DX(o, c, b) == ((XC(o, c, b) % o.U) * o.res) % o.U
DY(o, c, b) == ((YC(o, c, b) % o.U) * o.res) % o.U
(* the selection of a call: channels, baselines, all = locations of everything, half = drop mirrored ones *)
SelF(o, s) == IF s.all THEN [i \in DOMAIN o.f |-> i] ELSE IF s.fi # <<>> THEN s.fi
              ELSE SetToSortedSeq({c \in DOMAIN o.f : o.fu[c] # 0})
Seen(o) == {b \in DOMAIN o.u : \E c \in DOMAIN o.f : o.w[c][b] > 0}
SelB(o, s) == IF s.bi # <<>> THEN s.bi ELSE IF s.all THEN [i \in DOMAIN o.u |-> i] ELSE SetToSortedSeq(Seen(o))
Kept(o, s, c, b) == /\ Fits(o, c, b)
                    /\ s.all \/ (BandOk(o, b) /\ o.w[c][b] > 0)
                    /\ s.half => ~Flip(o, b)
Cell(o, c, b) == XMin(o, c, b) + YMin(o, c, b) * o.dim
(* the positions of a call's arrays: flat index i (from 0) is channel i \div n, baseline i % n of the selection *)
FlatC(o, s, i) == SelF(o, s)[(i \div Len(SelB(o, s))) + 1]
FlatB(o, s, i) == SelB(o, s)[(i % Len(SelB(o, s))) + 1]
NFlat(o, s) == Len(SelF(o, s)) * Len(SelB(o, s))
Footprint(o, c, b) == {<<x, y>> : x \in XMin(o, c, b)..(XMin(o, c, b) + o.psf - 1), y \in YMin(o, c, b)..(YMin(o, c, b) + o.psf - 1)}

(* ---- judging baseline_grid_locations: rec.o, rec.s and what it returned ---- *)
LClauses == {"returns", "selection", "cells", "dropped", "offsets", "fractions", "listed-once", "no-empty-list", "counts"}
LHolds(k, rec) ==
  LET o == rec.o  s == rec.s  n == NFlat(o, s)  I == 0..(n - 1)
      K == {i \in I : Kept(o, s, FlatC(o, s, i), FlatB(o, s, i))}
      sound == rec.ok /\ rec.n = n
  IN CASE k = "returns" -> rec.ok
       [] k = "selection" -> rec.ok => (rec.n = n /\ (s.bi = <<>> => rec.bi = SelB(o, s)))
       [] k = "cells" -> sound => \A i \in K : rec.xmin[i + 1] = XMin(o, FlatC(o, s, i), FlatB(o, s, i)) /\ rec.ymin[i + 1] = YMin(o, FlatC(o, s, i), FlatB(o, s, i))
       [] k = "dropped" -> sound => \A i \in I \ K : rec.xmin[i + 1] < 0 /\ rec.ymin[i + 1] < 0
       [] k = "offsets" -> sound => \A i \in K : rec.xoff[i + 1] = XOff(o, FlatC(o, s, i), FlatB(o, s, i)) /\ rec.yoff[i + 1] = YOff(o, FlatC(o, s, i), FlatB(o, s, i))
       [] k = "fractions" -> (sound /\ s.interp) => \A i \in K : LET c == FlatC(o, s, i)  b == FlatB(o, s, i)  x == DX(o, c, b)  y == DY(o, c, b)  U == o.U IN
              rec.frac[i + 1] = <<(U - x) * (U - y), (U - x) * y, x * (U - y), x * y>>
       \* lists: sequence of <<cell, indices>>
       [] k = "listed-once" -> sound => /\ \A i \in K : \E l \in DOMAIN rec.lists : rec.lists[l][1] = Cell(o, FlatC(o, s, i), FlatB(o, s, i)) /\ i \in Range(rec.lists[l][2])
                                        /\ \A l \in DOMAIN rec.lists : \A p \in DOMAIN rec.lists[l][2] : rec.lists[l][2][p] \in K
                                        /\ SumSeq([l \in DOMAIN rec.lists |-> Len(rec.lists[l][2])]) = Cardinality(K)
       [] k = "no-empty-list" -> sound => \A l \in DOMAIN rec.lists : Len(rec.lists[l][2]) > 0
       [] k = "counts" -> sound => (\A l \in DOMAIN rec.lists : rec.counts[l] = Len(rec.lists[l][2])) /\ rec.nbin = Len(rec.lists)
LVerdict(rec) == {k \in LClauses : ~LHolds(k, rec)}
=============================================================================
