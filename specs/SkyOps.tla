------------------------------- MODULE SkyOps -------------------------------
(* The sky as unit vectors with rational coordinates.                         *)
(* An angle is <<c, s>> with c*c + s*s = 25 (cosine and sine are c/5 and s/5); *)
(* a direction is <<right ascension, declination>>, its unit vector (times 25) *)
(* is <<cos d cos a, cos d sin a, sin d>>.  Everything else - direction        *)
(* cosines, separations, the slant of the projection, pixels - is products of  *)
(* such vectors, independent of the formulas the code uses.                    *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
Pt == {<<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>, <<-4, -3>>, <<-3, -4>>, <<0, -5>>, <<3, -4>>, <<4, -3>>}
DecPt == {p \in Pt : p[1] >= 0}
Dirs == Pt \X DecPt
Vec(d) == <<d[2][1] * d[1][1], d[2][1] * d[1][2], 5 * d[2][2]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
(* the frame at a direction: east, north, outwards (each times 25) *)
East(d) == <<-5 * d[1][2], 5 * d[1][1], 0>>
North(d) == <<-d[2][2] * d[1][1], -d[2][2] * d[1][2], 5 * d[2][1]>>
(* direction cosines of d about the centre o, times 625 *)
LMN(o, d) == LET v == Vec(d) IN <<Dot(East(o), v), Dot(North(o), v), Dot(Vec(o), v)>>
(* an array that is flat towards the zenith sees a direction (l, m, n) at      *)
(* l + xi (1 - n), m + eta (1 - n) where (xi, eta) is the slant l/n, m/n of    *)
(* the zenith; one unit is 625 pixels, so that the offset of a pixel from the  *)
(* centre is Off / (n of the zenith) *)
Slanted(o, z) == LMN(o, z)[3] > 120
Seen(o, z, d) == LMN(o, d)[3] > 20 /\ Dot(Vec(z), Vec(d)) > 20
Off(o, z, d, k) == LET a == LMN(o, d) b == LMN(o, z) IN <<a[k] * b[3] + b[k] * (625 - a[3]), b[3]>>
(* a phase of a whole number of quarter turns *)
Turn(v, q) == LET r == q % 4 IN CASE r = 0 -> v [] r = 1 -> <<-v[2], v[1]>> [] r = 2 -> <<-v[1], -v[2]>> [] r = 3 -> <<v[2], -v[1]>>
Deproject(vis, ww, ff, dir, np) ==
  [p \in DOMAIN vis |-> [f \in DOMAIN vis[p] |-> [b \in DOMAIN vis[p][f] |->
     IF p > np THEN vis[p][f][b] ELSE Turn(vis[p][f][b], dir * ww[b] * ff[f])]]]

SkyClauses == {"returns", "cosines", "undefined-are-nothing", "slant", "zenith-pixel", "pixels", "pixels-back", "separation", "turn", "turn-back",
               "horizon-back", "zenith-latitude", "sidereal"}
QIs(r, q) == r[2] > 0 /\ QEq(r, <<q[1], q[2]>>)
SkyHolds(c, rec) ==
  CASE c = "returns" -> rec.ok
    [] c = "cosines" -> rec.ok /\ rec.kind = "sky" => \A i \in DOMAIN rec.stars :
         LET e == LMN(rec.o, rec.stars[i]) IN rec.lmn[i] = <<e[1], e[2], e[3] - 625>>
    [] c = "undefined-are-nothing" -> rec.ok /\ rec.kind = "sky" => rec.undef = <<0, 0, 0>>
    [] c = "slant" -> rec.ok /\ rec.kind = "sky" /\ Slanted(rec.o, rec.z) =>
         LET b == LMN(rec.o, rec.z) IN QIs(rec.slant[1], <<b[1], b[3]>>) /\ QIs(rec.slant[2], <<b[2], b[3]>>)
    [] c = "zenith-pixel" -> rec.ok /\ rec.kind = "sky" /\ Slanted(rec.o, rec.z) =>
         \A k \in {1, 2} : QIs(rec.zpix[k], Off(rec.o, rec.z, rec.z, k))
    [] c = "pixels" -> rec.ok /\ rec.kind = "sky" /\ Slanted(rec.o, rec.z) => \A i \in DOMAIN rec.seen :
         LET d == rec.seen[i] IN Seen(rec.o, rec.z, d) => \A k \in {1, 2} : QIs(rec.pix[i][k], Off(rec.o, rec.z, d, k))
    [] c = "pixels-back" -> rec.ok /\ rec.kind = "sky" /\ Slanted(rec.o, rec.z) => \A i \in DOMAIN rec.seen :
         Seen(rec.o, rec.z, rec.seen[i]) => rec.back[i] = Vec(rec.seen[i])
    [] c = "separation" -> rec.ok /\ rec.kind = "sky" => \A i \in DOMAIN rec.stars :
         \A j \in DOMAIN rec.sep[i] : rec.sep[i][j] = Dot(Vec(rec.o), Vec(rec.stars[i]))
    [] c = "turn" -> rec.ok /\ rec.kind = "turn" => rec.out = Deproject(rec.vis, rec.ww, rec.ff, rec.dir, rec.np)
    [] c = "turn-back" -> rec.ok /\ rec.kind = "turn" => rec.out2 = rec.vis
    (* thousandths of degrees *)
    [] c = "horizon-back" -> rec.ok /\ rec.kind = "horizon" => \A i \in DOMAIN rec.there : rec.back[i] = rec.there[i]
    [] c = "zenith-latitude" -> rec.ok /\ rec.kind = "horizon" => rec.zen[2] - rec.lat \in -500..500
    [] c = "sidereal" -> rec.ok /\ rec.kind = "horizon" =>
         \A i \in DOMAIN rec.later : ((rec.later[i] - rec.zen[1] - rec.turns[i] + 180000) % 360000) - 180000 \in -600..600
SkyVerdict(rec) == {c \in SkyClauses : ~SkyHolds(c, rec)}
=============================================================================
