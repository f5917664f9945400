------------------------------ MODULE BeamCube ------------------------------
(* The cube is filled bin by bin, and with every bin the part of the image that *)
(* is still seen can only shrink.                                               *)
EXTENDS BeamCubeOps, Json
CONSTANTS NF, NBs, Bins, Images, Lows
VARIABLES x, done, arr, mask
vars == <<x, done, arr, mask>>
Init == /\ \E nb \in NBs, fb \in Bins, b1 \in Images, b2 \in Images, np \in 1..2, lo \in Lows :
              /\ nb <= NF
              /\ x = [nf |-> NF, nb |-> nb, want |-> <<>>, fbin |-> fb, dim |-> 4, cx |-> 2, cy |-> 2, low |-> lo,
                      beams |-> [p \in 1..np |-> IF p = 1 THEN <<b1, b2>> ELSE <<b2, b1>>]]
        /\ done = {} /\ arr = [k \in {} |-> <<>>] /\ mask = 0..15
Bin(p, b) == /\ <<p, b>> \notin done
             /\ done' = done \cup {<<p, b>>}
             /\ LET K == {<<p, i>> : i \in {j \in DOMAIN Wanted(x) : BinAt(x, j) = b}}
                IN arr' = [k \in DOMAIN arr \cup K |-> IF k \in K THEN x.beams[p][b + 1] ELSE arr[k]]
             /\ mask' = mask \cap Seen(x, p, b)
             /\ UNCHANGED x
Next == \E p \in DOMAIN x.beams, b \in Used(x) : Bin(p, b)
Spec == Init /\ [][Next]_vars
End == done = (DOMAIN x.beams) \X Used(x)
Full == End => DOMAIN arr = (DOMAIN x.beams) \X (DOMAIN Wanted(x)) /\ mask = MaskSet(x)
Shrinks == [][mask' \subseteq mask]_vars
Channels == \A i \in DOMAIN Wanted(x) : Wanted(x)[i] \in 0..(x.nf - 1) /\ (i > 1 => Wanted(x)[i] > Wanted(x)[i - 1])
Bright == \A q \in mask : \A e \in done : x.beams[e[1]][e[2] + 1][q + 1] >= x.low
Emit == End => PrintT("@@" \o ToJson([x |-> x, mask |-> [q \in 1..16 |-> IF q - 1 \in mask THEN 1 ELSE 0]]))
=============================================================================
