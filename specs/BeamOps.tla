------------------------------- MODULE BeamOps -------------------------------
(* Beam images of a polarisation: the kernels of the used channels on the sky.   *)
(* x: np, nf, bins (bin of every channel, from 1), use, fi (a channel, or 0 for  *)
(*   all), square, abs, pol, norm (per bin, in halves), ids (group of every      *)
(*   baseline), gauss                                                            *)
(*   kernels: ker[pol][bin], 2 by 2 Gaussian integers in the upper half middle   *)
(*     of a 4 by 4 plane                                                         *)
(*   gaussians: lob[pol][bin], lobes [a (eighths), cx, cy (twice the centre),    *)
(*     kx, ky (2^(-k d^2) along each axis)] on dim by dim pixels                 *)
EXTENDS ImageOps, TLC
Chans(x) == IF x.fi > 0 THEN {x.fi} ELSE {c \in 1..x.nf : x.use[c] # 0}
InBin(x, b) == {c \in Chans(x) : x.bins[c] = b}
BinsUsed(x) == {x.bins[c] : c \in Chans(x)}
(* --- kernels --- *)
Plane(k) == [p \in 1..16 |-> IF p = 11 THEN k[1] ELSE IF p = 12 THEN k[2] ELSE IF p = 15 THEN k[3] ELSE IF p = 16 THEN k[4] ELSE C0]
InvAt(a, p) == CSum([q \in 1..16 |-> Turned(a[q], Quarter(4, p, q))])
SkyOf(k) == LET a == Plane(k) IN [p \in 1..16 |-> InvAt(a, p)]
(* lengths of Pythagorean integers *)
Root(n) == CHOOSE r \in 0..100 : r * r = n
Length(v) == <<Root(v[1] * v[1] + v[2] * v[2]), 0>>
Kernel(x, b) == LET k == x.ker[x.pol][b] IN IF x.abs /\ x.square THEN [i \in 1..4 |-> Length(k[i])] ELSE k
(* --- gaussians: 2^11 times a lobe --- *)
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
Exponent(k, c, i) == LET d == 2 * i - c IN (k * d * d) \div 4
Lobe(x, l, p) == LET r == (p - 1) \div x.dim c == (p - 1) % x.dim e == Exponent(l.ky, l.cy, r) + Exponent(l.kx, l.cx, c) IN IF e > 8 THEN 0 ELSE l.a * Pow2(8 - e)
Lobes(x, b) == LET L == x.lob[x.pol][b] IN [p \in 1..(x.dim * x.dim) |-> SumSeq([i \in DOMAIN L |-> Lobe(x, L[i], p)])]
(* lobes the numbers above can hold *)
Fits(x) == \A b \in BinsUsed(x) : LET L == x.lob[x.pol][b] IN \A i \in DOMAIN L : \A r, c \in 0..(x.dim - 1) : Exponent(L[i].ky, L[i].cy, r) + Exponent(L[i].kx, L[i].cx, c) <= 8
(* --- the image: numerators, over the sum of the norms of the channels --- *)
One(x, b) ==
  IF x.gauss THEN LET g == Lobes(x, b) IN [p \in DOMAIN g |-> IF x.square THEN g[p] * g[p] ELSE g[p]]
  ELSE LET s == SkyOf(Kernel(x, b)) IN [p \in 1..16 |-> IF x.square THEN s[p][1] * s[p][1] + s[p][2] * s[p][2] ELSE s[p][1]]
Total(x) == LET o == [b \in BinsUsed(x) |-> One(x, b)] N == IF x.gauss THEN x.dim * x.dim ELSE 16
            IN [p \in 1..N |-> SumF([b \in BinsUsed(x) |-> Cardinality(InBin(x, b)) * o[b][p]], BinsUsed(x))]
(* in halves *)
Norms(x) == SumF([c \in Chans(x) |-> x.norm[x.bins[c]]], Chans(x))
BmVerdict(rec) ==
  LET x == rec.x IN
  IF ~rec.ok THEN {"returns"}
  ELSE (IF rec.real THEN {} ELSE {"real"})
   \cup (IF rec.kept THEN {} ELSE {"inputs"})
   \cup (IF x.gauss /\ ~Fits(x) THEN {} ELSE IF rec.image = Total(x) THEN {} ELSE {"image"})
   \cup (IF x.gauss \/ \A i \in DOMAIN rec.wide : rec.wide[i] = Total(x) THEN {} ELSE {"finer"})
   \cup (IF rec.again THEN {} ELSE {"repeatable"})
   \cup (IF rec.lazy THEN {} ELSE {"from-file"})
(* --- a beam read from a save file: everything is stored the other way round, and the first baseline stands for all --- *)
(* x: nb, nf, np, res, ptr[baseline][bin][pol][y][x] (kernels), id[baseline][bin][pol], dim, fnorm *)
Turned3(a, np, nf, nb) == [p \in 1..np |-> [f \in 1..nf |-> [b \in 1..nb |-> a[b][f][p]]]]
ReadSav(x) == [dim |-> x.dim, fnorm |-> x.fnorm, id |-> Turned3(x.id, x.np, x.nf, x.nb), ker |-> [p \in 1..x.np |-> [f \in 1..x.nf |-> x.ptr[1][f][p]]]]
SvVerdict(rec) ==
  IF ~rec.ok THEN {"sav-returns"}
  ELSE (IF rec.got = ReadSav(rec.x) THEN {} ELSE {"sav"})
   \cup (IF rec.file = ReadSav(rec.x) THEN {} ELSE {"sav-file"})
   \cup (IF rec.lazy = ReadSav(rec.x) THEN {} ELSE {"sav-lazy"})
=============================================================================
