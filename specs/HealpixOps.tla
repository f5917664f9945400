----------------------------- MODULE HealpixOps -----------------------------
(* The projection of an image onto HEALPix pixels.  A pixel is a record         *)
(* [id, X, Y, near, up]: its number, where it falls in the image in eighths of  *)
(* an image pixel, whether it is within the radius around the centre and        *)
(* whether it is above the horizon.  The image is x.dim by x.dim, indexed by y  *)
(* and then x (flat index y * dim + x); x.mask and x.img are flat.              *)
EXTENDS Integers, Sequences, FiniteSets, Seqs, TLC
U == 8
Fl(a) == FloorDiv(a, U)
Ce(a) == IF a % U = 0 THEN Fl(a) ELSE Fl(a) + 1
Flat(x, i, j) == j * x.dim + i
Inside(x, p) == /\ 0 < p.X /\ p.X < U * (x.dim - 1) /\ 0 < p.Y /\ p.Y < U * (x.dim - 1)
Corners(p) == {<<i, j>> : i \in {Fl(p.X), Ce(p.X)}, j \in {Fl(p.Y), Ce(p.Y)}}
Lit(x, p) == \A c \in Corners(p) : x.mask[Flat(x, c[1], c[2]) + 1] # 0
Chosen(x, p) == p.up /\ (x.restrict \/ (p.near /\ Inside(x, p) /\ Lit(x, p)))
(* in the order of the file, or of their numbers                                *)
Selected(x) == SelectSeq(x.pix, LAMBDA p : Chosen(x, p))
(* the bilinear weight of image pixel (i, j) in p, in 64ths                     *)
W1(a, i) == LET d == AbsI(a - U * i) IN IF d >= U THEN 0 ELSE U - d
Weight(p, i, j) == W1(p.X, i) * W1(p.Y, j)
Touched(x) == {Flat(x, c[1], c[2]) : c \in UNION {Corners(p) : p \in Range(Selected(x))}}
(* the projection of an image of integers onto p, in 64ths                      *)
Proj(x, img, p) == LET f == [c \in Corners(p) |-> Weight(p, c[1], c[2]) * img[Flat(x, c[1], c[2]) + 1]] IN SumF(f, Corners(p))
(* smallest power of two whose pixels are no larger than the image's            *)
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
NsideOf(cd) == LET n == CHOOSE k \in 0..8 : /\ cd[1] * cd[2] >= 412529612 \div (12 * Pow(k) * Pow(k))
                                            /\ (k = 0 \/ cd[1] * cd[2] < 412529612 \div (12 * Pow(k - 1) * Pow(k - 1)))
               IN Pow(n)
WantNside(x) == IF x.filenside # 0 THEN x.filenside ELSE IF x.nside # 0 THEN x.nside ELSE NsideOf(x.cdelt)
(* --- what was recorded: rec.inds, rec.cnv = <<i_use, <<position, 64*weight>>, ..>>, rec.map = projection of x.img in 64ths *)
Got(rec, v, k) == LET E == {e \in DOMAIN rec.cnv : rec.cnv[e].i = v} IN
                  IF E = {} THEN 0 ELSE LET e == CHOOSE e \in E : TRUE IN SumSeq([m \in DOMAIN rec.cnv[e].p |-> IF rec.cnv[e].p[m] = k - 1 THEN rec.cnv[e].w[m] ELSE 0])
HVerdict(rec) ==
  LET x == rec.x S == Selected(x) IN
  IF ~rec.ok THEN {"returns"}
  ELSE (IF rec.inds = [k \in DOMAIN S |-> S[k].id] THEN {} ELSE {"selected"})
       \cup (IF rec.nside = WantNside(x) THEN {} ELSE {"nside"})
       \cup (IF Len(rec.inds) # Len(S) THEN {} ELSE
             (IF \A k \in DOMAIN S : \A c \in Corners(S[k]) : Got(rec, Flat(x, c[1], c[2]), k) = Weight(S[k], c[1], c[2]) THEN {} ELSE {"weights"})
             \cup (IF \A e \in DOMAIN rec.cnv : \A m \in DOMAIN rec.cnv[e].p : rec.cnv[e].w[m] # 0 => (rec.cnv[e].w[m] > 0 /\ rec.cnv[e].p[m] + 1 \in DOMAIN S /\ rec.cnv[e].i \in {Flat(x, c[1], c[2]) : c \in Corners(S[rec.cnv[e].p[m] + 1])}) THEN {} ELSE {"no-other-weight"})
             \cup (IF \A e, f \in DOMAIN rec.cnv : e # f => rec.cnv[e].i # rec.cnv[f].i THEN {} ELSE {"each-pixel-once"})
             \cup (IF rec.map = [k \in DOMAIN S |-> Proj(x, x.img, S[k])] THEN {} ELSE {"projection"})
             \cup (IF rec.const = [k \in DOMAIN S |-> 64 * 3] THEN {} ELSE {"constant"})
             \cup (IF rec.npix = Len(S) THEN {} ELSE {"n_pix"})
             \cup (IF rec.nzero = Len(SelectSeq(S, LAMBDA p : Proj(x, x.mask, p) = 0)) THEN {} ELSE {"n_zero"})
             \cup (IF rec.list = (IF x.restrict THEN <<-1>> ELSE rec.inds) THEN {} ELSE {"ind_list"}))
       \cup (IF rec.kept THEN {} ELSE {"inputs-kept"})
(* --- applying any sparse map: x.n pixels, x.cnv entries as above with integer weights *)
Applied(x) == [k \in 1..x.n |-> SumSeq([e \in DOMAIN x.cnv |-> SumSeq([m \in DOMAIN x.cnv[e].p |-> IF x.cnv[e].p[m] = k - 1 THEN x.cnv[e].w[m] * x.img[x.cnv[e].i + 1] ELSE 0])])]
AVerdict(rec) == IF ~rec.ok THEN {"returns"} ELSE (IF rec.map = Applied(rec.x) THEN {} ELSE {"applied"}) \cup (IF rec.kept THEN {} ELSE {"inputs-kept"})
(* --- the phase shift: thirds of what is asked, in 64ths of a turn; NONE if in phase *)
Turn(x, i, j) == ((i - x.w \div 2) * x.tx + (j - x.h \div 2) * x.ty) % 64
PVerdict(rec) == LET x == rec.x IN
  IF ~rec.ok THEN {"returns"}
  ELSE IF rec.turn = [j \in 1..x.h |-> [i \in 1..x.w |-> IF x.same THEN 0 ELSE Turn(x, i - 1, j - 1)]] THEN {} ELSE {"phase"}
(* --- which list of pixels belongs to an observation: the nearest field, then the nearest frequency *)
Fields == <<[n |-> "EoR0_high_healpix_inds.h5", r |-> 0, f |-> 182], [n |-> "EoR0_low_healpix_inds.h5", r |-> 0, f |-> 151],
            [n |-> "EoR1_high_healpix_inds.h5", r |-> 60, f |-> 182], [n |-> "EoR1_low_healpix_inds.h5", r |-> 60, f |-> 151]>>
(* along the fields' declination, so that the distance only depends on the right ascension *)
RaDist(a, b) == LET d == AbsI(a - b) % 360 IN IF d > 180 THEN 360 - d ELSE d
FieldOf(x) == LET near == {k \in 1..4 : \A l \in 1..4 : RaDist(x.ra, Fields[k].r) <= RaDist(x.ra, Fields[l].r)}
              IN Fields[CHOOSE k \in near : \A l \in near : AbsI(x.mhz - Fields[k].f) <= AbsI(x.mhz - Fields[l].f)].n
FVerdict(rec) == IF rec.name = FieldOf(rec.x) THEN {} ELSE {"field"}
=============================================================================
