-------------------------------- MODULE Cube ---------------------------------
(* The export as it runs: for every half, every polarisation, group after group *)
(* of channels is gridded and added to the books: how often each sample was     *)
(* used, and the counts of the channels, which start anew with every            *)
(* polarisation of a half.                                                      *)
EXTENDS CubeOps, Json
CONSTANTS World, Wts
VARIABLES x, y, h, p, s, used, nf, cubes
vars == <<x, y, h, p, s, used, nf, cubes>>
Zero == [c \in 1..World.nf |-> 0]
Init == /\ \E w \in [1..World.np -> [1..World.nf -> [1..(World.nt * World.nb) -> Wts]]], fu \in [1..World.nf -> {0, 1}], a \in 1..World.nf, sp \in BOOLEAN :
             x = [World EXCEPT !.w = w, !.fu = fu, !.avg = a, !.split = sp]
        /\ y = Cleaned(x)
        /\ h = 1 /\ p = 1 /\ s = 1 /\ nf = Zero /\ cubes = <<>>
        /\ used = [q \in (1..World.np) \X (1..World.nf) \X (1..(World.nt * World.nb)) |-> 0]
More == h <= Len(Halves(x))
Grid == /\ More /\ s <= NSlice(x)
        /\ LET S == Samples(y, Halves(x)[h], p, s) IN
             /\ used' = [q \in DOMAIN used |-> IF q[1] = p /\ <<q[2], q[3]>> \in S THEN used[q] + 1 ELSE used[q]]
             /\ nf' = [c \in DOMAIN nf |-> IF \E cr \in S : cr[1] = c THEN Cardinality({cr \in S : cr[1] = c}) ELSE nf[c]]
        /\ s' = s + 1 /\ UNCHANGED <<x, y, h, p, cubes>>
Export == /\ More /\ s > NSlice(x)
          /\ cubes' = Append(cubes, [h |-> Halves(x)[h], p |-> p, nf |-> nf])
          /\ s' = 1 /\ nf' = Zero
          /\ IF p = x.np THEN h' = h + 1 /\ p' = 1 ELSE p' = p + 1 /\ h' = h
          /\ UNCHANGED <<x, y, used>>
Spec == Init /\ [][Grid \/ Export]_vars
(* --- properties --- *)
End == ~More
NeverTwice == \A q \in DOMAIN used : used[q] <= 1
(* what is usable is used: positive in this half's weights, in a row of the half, in an unflagged channel *)
AllUsed == End => \A q \in DOMAIN used : LET c == q[2] r == q[3] IN
    used[q] = (IF \E i \in DOMAIN Halves(x) : r \in RowsIn(y, Halves(x)[i]) /\ HalfW(y, Halves(x)[i], q[1], c, r) > 0 /\ x.fu[c] # 0 THEN 1 ELSE 0)
OnlyUsable == \A q \in DOMAIN used : used[q] > 0 => Kept(x, q[2], q[3]) /\ x.w[q[1]][q[2]][q[3]] > 0
(* the books of a cube are its own counts *)
Counts == \A i \in DOMAIN cubes : \A c \in 1..x.nf : cubes[i].nf[c] = Cardinality({r \in RowsIn(y, cubes[i].h) : x.fu[c] # 0 /\ HalfW(y, cubes[i].h, cubes[i].p, c, r) > 0})
Balanced == End /\ x.split => \A i, j \in DOMAIN cubes : cubes[i].p = cubes[j].p => cubes[i].nf = cubes[j].nf
(* the planes of the groups add up to the plane of the band *)
AddUp == End => \A q \in 1..x.np, i \in DOMAIN Halves(x) :
   LET hh == Halves(x)[i]
       Of(S) == LET W == [cr \in S |-> HalfW(y, hh, q, cr[1], cr[2])] IN PlaneOf(q, W, [cr \in S |-> CScale(W[cr], y.vis[q][cr[1]][cr[2]])])
       parts == [k \in 1..NSlice(x) |-> Of(Samples(y, hh, q, k))]
       all == Of(UNION {Samples(y, hh, q, k) : k \in 1..NSlice(x)})
   IN \A k \in 1..NPix : all[k] = CSum([m \in DOMAIN parts |-> parts[m][k]])
Emit == End => LET C(i, q) == Cubes(y, Halves(x)[i], q, [k \in 1..NSlice(x) |-> UV(y, Halves(x)[i], q, k)]) IN
  PrintT("@@" \o ToJson([w |-> x.w, fu |-> x.fu, avg |-> x.avg, split |-> x.split, c |-> [i \in DOMAIN Halves(x) |-> [q \in 1..x.np |-> C(i, q)]]]))
=============================================================================
