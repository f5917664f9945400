--------------------------------- MODULE Obs ---------------------------------
(* An observation grows row by row; the description is built along with it,     *)
(* times are cut, and the grid is updated afterwards.                           *)
EXTENDS ObsOps, TLC, Json
CONSTANTS Nums, MaxRows, MaxTimes, Cuts, Grids, Updates, MaxUps
VARIABLES x, off, ta, tb, used, ph, fb, m2, dims
vars == <<x, off, ta, tb, used, ph, fb, m2, dims>>
Base == [np |-> 2, cfgpol |-> 0, f0 |-> 2, df |-> 1, res |-> 2, names |-> [i \in 1..Len(Nums) |-> 10 + i], heights |-> [i \in 1..Len(Nums) |-> 3 * i], sim |-> FALSE, inds |-> 1, ora |-> 999, odec |-> 999, hra |-> 10, mra |-> 33, coded |-> FALSE]
Init == /\ \E nf \in {1, 3}, g \in Grids, c \in Cuts, meta \in BOOLEAN, fl \in [1..Len(Nums) -> {0, 1}] :
              /\ ~meta => \A i \in DOMAIN fl : fl[i] = 0
              /\ x = [rows |-> <<>>, nums |-> Nums, nf |-> nf, navg |-> g.navg, kb |-> g.kb, fov |-> g.fov, dim |-> g.dim, el |-> g.el, minb |-> g.minb, cuts |-> c, flags |-> fl, meta |-> meta, ups |-> <<>>] @@ Base
        /\ off = <<>> /\ ta = <<>> /\ tb = <<>> /\ used = {} /\ ph = "rows" /\ fb = <<>> /\ m2 = <<0, 1>> /\ dims = <<0, 0>>
AddRow(i, j, new) ==
  /\ ph = "rows" /\ N(x) < MaxRows /\ (new => Len(off) < MaxTimes) /\ (N(x) = 0 => new)
  /\ LET t == IF N(x) = 0 THEN 5 ELSE x.rows[N(x)].t + (IF new THEN 3 ELSE 0)
         r == [a |-> Nums[i], b |-> Nums[j], t |-> t, u |-> i - j, v |-> N(x) * (j - i)]
     IN x' = [x EXCEPT !.rows = Append(@, r)]
  /\ off' = (IF new THEN Append(off, N(x)) ELSE off)
  /\ ta' = Append(ta, i) /\ tb' = Append(tb, j) /\ used' = used \cup {i, j}
  /\ UNCHANGED <<ph, fb, m2, dims>>
Describe == /\ ph = "rows" /\ N(x) > 0 /\ Domain(x)
            /\ ph' = (IF Refused(x) THEN "refused" ELSE "described")
            /\ fb' = Fbin(x) /\ dims' = <<Dim(x), El(x)>>
            /\ m2' = (IF Dim(x) = 0 THEN <<0, 1>> ELSE <<MaxB2(x, Dim(x), El(x)), 1>>)
            /\ UNCHANGED <<x, off, ta, tb, used>>
Update(u) == /\ ph = "described" /\ Len(x.ups) < MaxUps /\ Dim(x) # 0
             /\ x' = [x EXCEPT !.ups = Append(@, u)] /\ fb' = Bins(x.nf, Avg(x, fb, u)) /\ dims' = <<u.dim, u.dim>>
             /\ m2' = NewMax2(m2, u) /\ UNCHANGED <<off, ta, tb, used, ph>>
Next == (\E i, j \in 1..Len(Nums), n \in BOOLEAN : i <= j /\ AddRow(i, j, n)) \/ Describe \/ \E u \in Updates : Update(u)
Spec == Init /\ [][Next]_vars
Integrations == N(x) > 0 => off = Offsets(x) /\ Len(off) = NTime(x) /\ SumSeq([i \in 1..NTime(x) |-> BinLen(x, i)]) = N(x)
Tiles == ta = TileA(x) /\ tb = TileB(x) /\ used = Seen(x)
OneBin == \A r \in 1..N(x) : Cardinality({i \in 1..NTime(x) : Offsets(x)[i] < r /\ r <= Offsets(x)[i] + BinLen(x, i)}) = 1
CutEnds == ph = "described" => \A i, j \in 1..NTime(x) : TimeUse(x)[i] = 1 /\ TimeUse(x)[j] = 1 => \A k \in i..j : TimeUse(x)[k] = 1
Bins1 == ph = "described" => fb[1] = 0 /\ \A f \in 2..x.nf : fb[f] - fb[f - 1] \in {0, 1}
Shrinks == [][ph = "described" /\ ph' = "described" => QLe(m2', m2)]_vars
Emit == ph # "rows" => PrintT("@@" \o ToJson([x |-> x, refused |-> (ph = "refused")]))
=============================================================================
