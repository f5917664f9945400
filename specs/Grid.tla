-------------------------------- MODULE Grid --------------------------------
(* One baseline after the other is put on a grid; every sample is either       *)
(* dropped for a reason or listed under the one cell its coordinate lies in.   *)
EXTENDS GridOps, TLC, Json
CONSTANTS Dim, El, Psf, Res, Un, Fs, Coords, Mn, Mx, NB
VARIABLES o, lists, k
vars == <<o, lists, k>>
S0 == [all |-> FALSE, half |-> FALSE, fi |-> <<>>, bi |-> <<>>, interp |-> TRUE]
Init == /\ o = [dim |-> Dim, el |-> El, psf |-> Psf, res |-> Res, U |-> Un, f |-> Fs, u |-> <<>>, v |-> <<>>, mn |-> Mn, mx |-> Mx,
                w |-> [c \in DOMAIN Fs |-> <<>>], fu |-> [c \in DOMAIN Fs |-> 1]]
        /\ lists = {} /\ k = 0
Add(x, y, flagged) ==
  /\ k < NB /\ k' = k + 1
  /\ o' = [o EXCEPT !.u = Append(@, x), !.v = Append(@, y), !.w = [c \in DOMAIN Fs |-> Append(@[c], IF c = flagged THEN 0 ELSE 1)]]
  /\ lists' = lists \cup {<<Cell(o', c, k'), c, k'>> : c \in {d \in DOMAIN Fs : Kept(o', S0, d, k')}}
Next == \E x \in Coords, y \in Coords, fl \in 0..Len(Fs) : Add(x, y, fl)
Spec == Init /\ [][Next]_vars
(* the footprint of what is kept never leaves the grid; a kept sample is in the lower half plane *)
Inside == \A l \in lists : \A p \in Footprint(o, l[2], l[3]) : p[1] \in 1..(Dim - 2) /\ p[2] \in 1..(El - 2)
LowerHalf == \A l \in lists : YMin(o, l[2], l[3]) <= (El \div 2) - ((Psf \div 2) - 1)
(* the cell of a sample contains its coordinate *)
Contains == \A b \in 1..k, c \in DOMAIN Fs : LET q == XC(o, c, b) \div Un IN q * Un <= XC(o, c, b) /\ XC(o, c, b) < (q + 1) * Un
(* the mirrored baseline lands where the baseline lands *)
Mirror == \A b \in 1..k, c \in DOMAIN Fs : o.v[b] # 0 =>
            LET m == [o EXCEPT !.u[b] = -@, !.v[b] = -@] IN XMin(m, c, b) = XMin(o, c, b) /\ YMin(m, c, b) = YMin(o, c, b) /\ XOff(m, c, b) = XOff(o, c, b)
(* offsets and fractions rebuild the coordinate *)
Rebuilt == \A b \in 1..k, c \in DOMAIN Fs : /\ XOff(o, c, b) \in 0..(Res - 1)
             /\ (XC(o, c, b) \div Un) * Un * Res + XOff(o, c, b) * Un + DX(o, c, b) = XC(o, c, b) * Res
Once == \A c \in DOMAIN Fs, b \in 1..k : Cardinality({l \in lists : l[2] = c /\ l[3] = b}) <= 1
Emit == k = NB => PrintT("@@" \o ToJson([o |-> o, lists |-> lists]))
=============================================================================
