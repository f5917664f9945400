------------------------------- MODULE Imaging -------------------------------
(* From a plane to its image, one step after the other.                         *)
EXTENDS ImagingOps, Json
CONSTANTS N, Values, Counts, Pads
VARIABLES x, a, stage
vars == <<x, a, stage>>
Cells == 1..(N * N)
Init == /\ \E pl \in [Cells -> Values], cn \in [Cells -> Counts], k \in Pads :
             x = [n |-> N, plane |-> pl, cut |-> [on |-> FALSE, t2 |-> 0, w |-> 0], mask |-> <<>>, filt |-> "uniform", given |-> <<>>, cnt |-> cn,
                  wts |-> [p \in Cells |-> <<IF cn[p] >= 2 THEN cn[p] ELSE 0, 0>>], resize |-> 1, pad |-> k, r |-> None, real |-> FALSE, norm |-> None, opt |-> FALSE, beam |-> <<>>]
        /\ \E p \in Cells : x.cnt[p] >= 2
        /\ a = x.plane /\ stage = "plane"
Weigh == stage = "plane" /\ a' = Filtered(x) /\ stage' = "filtered" /\ UNCHANGED x
Widen == stage = "filtered" /\ a' = Pad(N, x.pad, a) /\ stage' = "padded" /\ UNCHANGED x
Transform == stage = "padded" /\ a' = Image(N * x.pad, a) /\ stage' = "image" /\ UNCHANGED x
Spec == Init /\ [][Weigh \/ Widen \/ Transform]_vars
(* --- properties --- *)
F == Filter(x)
Done == stage = "image"
M == N * x.pad
(* only cells that were measured count *)
Measured == stage = "filtered" => \A p \in Cells : x.cnt[p] < 2 => a[p] = C0
(* the weights of the measured cells have mean one *)
MeanOne == SumQ([p \in Cells |-> FilterOut(x)[p]]) = <<Cardinality({p \in Cells : x.cnt[p] >= 2}), 1>>
(* every measured cell counts the same once weighted: uniform weighting *)
Uniform == \A p, q \in Cells : x.cnt[p] >= 2 /\ x.cnt[q] >= 2 => F[p] * x.cnt[p] = F[q] * x.cnt[q]
(* the centre of the image is the sum of the plane, the mean of the image is the plane's centre *)
Centre == Done => a[(M \div 2) * M + (M \div 2) + 1] = CSum(Filtered(x))
Mean == Done => CSum(a) = CScale(M * M, Filtered(x)[(N \div 2) * N + (N \div 2) + 1])
(* padding shows the same image on finer pixels *)
Finer == Done => LET b == Image(N, Filtered(x)) IN \A p \in Cells : LET i == (p - 1) \div N c == (p - 1) % N IN a[(i * x.pad) * M + c * x.pad + 1] = b[p]
(* energy is kept *)
Energy == Done => SumSeq([p \in DOMAIN a |-> a[p][1] * a[p][1] + a[p][2] * a[p][2]]) = M * M * SumSeq([p \in Cells |-> LET v == Filtered(x)[p] IN v[1] * v[1] + v[2] * v[2]])
Emit == Done => PrintT("@@" \o ToJson([plane |-> x.plane, cnt |-> x.cnt, wts |-> x.wts, pad |-> x.pad, im |-> a, scale |-> Scale(x)]))
=============================================================================
