------------------------------ MODULE Healpix -------------------------------
(* Building the map: every pixel is tested against radius, image, mask and      *)
(* horizon in turn, and a selected one is scattered corner by corner (floor     *)
(* and ceiling, which may coincide) over the image pixels.                      *)
EXTENDS HealpixOps, Json
CONSTANTS Dim, Poss, MaxPix, Masks, Img
VARIABLES x, k, stage, sel, w
vars == <<x, k, stage, sel, w>>
Init == /\ \E n \in 1..MaxPix, m \in Masks, re \in BOOLEAN :
            \E ps \in [1..n -> Poss], ne \in [1..n -> BOOLEAN], up \in [1..n -> BOOLEAN] :
              /\ (re => \A i \in 1..n : LET p == [X |-> ps[i][1], Y |-> ps[i][2]] IN p.X >= 0 /\ p.Y >= 0 /\ p.X <= U * (Dim - 1) /\ p.Y <= U * (Dim - 1))
              /\ (re => \A i \in 1..n : ne[i])
              /\ x = [dim |-> Dim, restrict |-> re, mask |-> m, img |-> Img, cdelt |-> <<1, 1>>, nside |-> 4, filenside |-> 0,
                      pix |-> [i \in 1..n |-> [id |-> i, X |-> ps[i][1], Y |-> ps[i][2], near |-> ne[i], up |-> up[i]]]]
              /\ \E i \in 1..n : Chosen(x, x.pix[i])
        /\ k = 1 /\ stage = 0 /\ sel = <<>> /\ w = [v \in {} |-> 0]
P == x.pix[k]
(* 00, 01, 10, 11: the fractions are those of the floor                         *)
Fx == U - (P.X - U * Fl(P.X))
Fy == U - (P.Y - U * Fl(P.Y))
Corner(c) == CASE c = 1 -> <<Flat(x, Fl(P.X), Fl(P.Y)), Fx * Fy>> [] c = 2 -> <<Flat(x, Fl(P.X), Ce(P.Y)), Fx * (U - Fy)>>
              [] c = 3 -> <<Flat(x, Ce(P.X), Fl(P.Y)), (U - Fx) * Fy>> [] c = 4 -> <<Flat(x, Ce(P.X), Ce(P.Y)), (U - Fx) * (U - Fy)>>
Test == /\ k <= Len(x.pix) /\ stage = 0
        /\ IF Chosen(x, P) THEN stage' = 1 /\ sel' = Append(sel, P.id) /\ k' = k ELSE k' = k + 1 /\ UNCHANGED <<stage, sel>>
        /\ UNCHANGED <<x, w>>
Scatter == /\ stage > 0
           /\ LET c == Corner(stage) key == <<c[1], Len(sel)>> IN w' = [q \in DOMAIN w \cup {key} |-> (IF q \in DOMAIN w THEN w[q] ELSE 0) + (IF q = key THEN c[2] ELSE 0)]
           /\ IF stage = 4 THEN stage' = 0 /\ k' = k + 1 ELSE stage' = stage + 1 /\ k' = k
           /\ UNCHANGED <<x, sel>>
Spec == Init /\ [][Test \/ Scatter]_vars
End == k > Len(x.pix) /\ stage = 0
Same == End => sel = [i \in DOMAIN Selected(x) |-> Selected(x)[i].id]
Bilinear == End => \A q \in DOMAIN w : LET p == Selected(x)[q[2]] IN w[q] = Weight(p, q[1] % Dim, q[1] \div Dim)
Unity == End => \A i \in DOMAIN sel : LET S == {q \in DOMAIN w : q[2] = i} IN SumF(w, S) = 64
Positive == \A q \in DOMAIN w : w[q] >= 0
Within == End => \A q \in DOMAIN w : q[1] \in Touched(x)
Masked == End /\ ~x.restrict => \A q \in DOMAIN w : x.mask[q[1] + 1] # 0
Emit == End => PrintT("@@" \o ToJson([x |-> x, map |-> [i \in DOMAIN sel |-> Proj(x, x.img, Selected(x)[i])], ids |-> sel]))
=============================================================================
