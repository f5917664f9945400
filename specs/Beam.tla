-------------------------------- MODULE Beam ---------------------------------
(* The beam image collects channel after channel.                                *)
EXTENDS BeamOps, Json
CONSTANTS Kernels, Nf
VARIABLES x, left, sum, norm
vars == <<x, left, sum, norm>>
Zero == [p \in 1..16 |-> 0]
Init == /\ \E k1, k2 \in Kernels, u \in [1..Nf -> {0, 1}], bn \in [1..Nf -> 1..2], f \in 0..Nf, sq \in BOOLEAN :
             /\ \E c \in 1..Nf : u[c] = 1
             /\ x = [np |-> 1, nf |-> Nf, bins |-> bn, use |-> u, fi |-> f, square |-> sq, abs |-> FALSE, pol |-> 1, norm |-> <<2, 3>>, ids |-> <<1>>, gauss |-> FALSE, ker |-> <<<<k1, k2>>>>, lob |-> <<>>, dim |-> 4]
        /\ left = Chans(x) /\ sum = Zero /\ norm = 0
(* in any order *)
Add == \E c \in left : LET o == One(x, x.bins[c]) IN
         /\ sum' = [p \in 1..16 |-> sum[p] + o[p]] /\ norm' = norm + x.norm[x.bins[c]] /\ left' = left \ {c} /\ UNCHANGED x
Spec == Init /\ [][Add]_vars
Done == left = {}
Collected == Done => sum = Total(x) /\ norm = Norms(x)
Positive == x.square => \A p \in 1..16 : sum[p] >= 0
(* flagged channels do not matter, only the one asked for does *)
Only == Done => LET y == [x EXCEPT !.use = [c \in 1..Nf |-> IF c \in Chans(x) THEN 1 ELSE 0]] IN Total(y) = sum
(* the squared beam of one bin is the square of its image: energy of the kernel over the sky *)
Energy == Done /\ x.square => SumSeq(sum) = 16 * SumF([c \in Chans(x) |-> LET k == x.ker[1][x.bins[c]] IN SumSeq([i \in 1..4 |-> k[i][1] * k[i][1] + k[i][2] * k[i][2]])], Chans(x))
(* towards the centre of the image the beam is the sum of the kernel *)
Peak == Done /\ ~x.square => sum[11] = SumF([c \in Chans(x) |-> LET k == x.ker[1][x.bins[c]] IN CSum(k)[1]], Chans(x))
Emit == Done => PrintT("@@" \o ToJson([ker |-> x.ker[1], bins |-> x.bins, use |-> x.use, fi |-> x.fi, square |-> x.square, im |-> sum, norm |-> norm]))
=============================================================================
