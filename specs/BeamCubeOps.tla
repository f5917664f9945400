---------------------------- MODULE BeamCubeOps -----------------------------
(* The beam at every output channel and the part of the image that every one of *)
(* them sees from the centre.  x.beams[p][b] is the flat image of polarisation  *)
(* p in beam bin b - 1, x.fbin the bin of every channel, x.want the channels    *)
(* asked for (empty: x.nb equal parts of the band), low the threshold.          *)
EXTENDS RegionOps, TLC
Wanted(x) == IF x.nb = 0 THEN x.want ELSE [i \in 1..x.nb |-> FloorDiv((i - 1) * x.nf, x.nb)]
BinAt(x, i) == x.fbin[Wanted(x)[i] + 1]
Used(x) == {BinAt(x, i) : i \in DOMAIN Wanted(x)}
Seen(x, p, b) == LET im == x.beams[p][b + 1] IN
                 Region([R |-> x.dim, C |-> x.dim, img |-> im, seeds |-> <<x.cy * x.dim + x.cx>>, low |-> x.low, high |-> MaxOf(Range(im))])
MaskSet(x) == {q \in 0..(x.dim * x.dim - 1) : \A p \in DOMAIN x.beams, b \in Used(x) : q \in Seen(x, p, b)}
CVerdict(rec) ==
  LET x == rec.x IN
  IF ~rec.ok THEN {"returns"}
  ELSE (IF rec.arr = [p \in DOMAIN x.beams |-> [i \in DOMAIN Wanted(x) |-> x.beams[p][BinAt(x, i) + 1]]] THEN {} ELSE {"beams"})
       \cup (LET M == MaskSet(x) IN IF rec.mask = [q \in 1..(x.dim * x.dim) |-> IF q - 1 \in M THEN 1 ELSE 0] THEN {} ELSE {"mask"})
=============================================================================
