------------------------------- MODULE VisGrid -------------------------------
(* Samples are put on the planes one after the other, in any order and with    *)
(* any kernel; then the unfilled half is completed.                            *)
EXTENDS VisGridOps, TLC, Json
CONSTANTS Dim, El, Psf, Res, Un, Fs, Fbs, Us, Vs, Vals, Interp, Conj, KSeed
VARIABLES o, s, acc, done, phase
vars == <<o, s, acc, done, phase>>
NB == Len(Us)
NG == MaxOf(Range(Fbs))
KK == [g \in 1..NG |-> [j \in 1..(Res + 1) |-> [i \in 1..(Res + 1) |-> [p \in 1..(Psf * Psf) |->
        <<((g * 5 + j * 3 + i * 2 + p * KSeed) % 5) - 1, ((g + j * 2 + i * 7 + p) % 3) - 1>>]]]]
Init == \E A \in [DOMAIN Fs -> [1..NB -> Vals]], W \in [DOMAIN Fs -> [1..NB -> {0, 1}]] :
        /\ o = [dim |-> Dim, el |-> El, psf |-> Psf, res |-> Res, U |-> Un, f |-> Fs, fb |-> Fbs, u |-> Us, v |-> Vs, mn |-> 0, mx |-> 10000,
                w |-> W, fu |-> [c \in DOMAIN Fs |-> 1], vis |-> A, mod |-> <<>>, K |-> KK]
        /\ s = [all |-> FALSE, half |-> FALSE, interp |-> Interp, fi |-> <<>>, bi |-> [b \in 1..NB |-> b], conj |-> Conj, uni |-> TRUE, gu |-> FALSE, gw |-> TRUE, gv |-> TRUE, gs |-> FALSE, bpb |-> FALSE]
        /\ acc = [v |-> [p \in Cells(o) |-> C0], m |-> [p \in Cells(o) |-> C0], w |-> [p \in Cells(o) |-> C0], q |-> [p \in Cells(o) |-> 0], n |-> [p \in Cells(o) |-> 0]]
        /\ done = {} /\ phase = "grid"
Put(i) == /\ phase = "grid" /\ i \in Kps(o, s) \ done /\ done' = done \cup {i}
          /\ LET c == FlatC(o, s, i)  b == FlatB(o, s, i)  z == Value(o, o.vis, c, b)
                 F == Footprint(o, c, b)  k(p) == KAt(o, s, i, p[1], p[2])
             IN acc' = [v |-> [p \in Cells(o) |-> IF p \in F THEN CAdd(acc.v[p], CMul(k(p), z)) ELSE acc.v[p]], m |-> acc.m,
                        w |-> [p \in Cells(o) |-> IF p \in F THEN CAdd(acc.w[p], k(p)) ELSE acc.w[p]],
                        q |-> [p \in Cells(o) |-> IF p \in F THEN acc.q[p] + Abs2(k(p)) ELSE acc.q[p]],
                        n |-> [p \in Cells(o) |-> IF p \in F THEN acc.n[p] + 1 ELSE acc.n[p]]]
          /\ UNCHANGED <<o, s, phase>>
Complete == /\ phase = "grid" /\ done = Kps(o, s) /\ phase' = "done" /\ acc' = Finish(o, s, acc) /\ UNCHANGED <<o, s, done>>
Next == Complete \/ \E i \in 0..(NFlat(o, s) - 1) : Put(i)
Spec == Init /\ [][Next]_vars
(* whatever the order, the planes are the sums over the samples put so far *)
Sums == phase = "grid" => acc = [Raws(o, s, done) EXCEPT !.m = acc.m]
Hermitian == (phase = "done" /\ Conj) => \A p \in Cells(o) : acc.v[p] = CConj(acc.v[Mir(o, p)]) /\ acc.w[p] = CConj(acc.w[Mir(o, p)]) /\ acc.q[p] = acc.q[Mir(o, p)]
(* every put sample is counted in psf^2 cells *)
Mass == phase = "grid" => SumG(acc.n, Cells(o)) = Cardinality(done) * Psf * Psf
Flagged == \A i \in done : o.w[FlatC(o, s, i)][FlatB(o, s, i)] > 0
(* the first and the last row and column are never covered *)
Border == phase = "grid" => \A p \in Cells(o) : acc.n[p] > 0 => p[1] \in 1..(Dim - 2) /\ p[2] \in 1..(El - 2)
Emit == phase = "done" => PrintT("@@" \o ToJson([o |-> [o EXCEPT !.K = <<>>], s |-> s, n |-> Cardinality(done), nf |-> [c \in DOMAIN Fs |-> Cardinality({i \in done : FlatC(o, s, i) = c})],
   img |-> [y \in 1..El |-> [x \in 1..Dim |-> acc.v[<<x - 1, y - 1>>]]], wts |-> [y \in 1..El |-> [x \in 1..Dim |-> acc.w[<<x - 1, y - 1>>]]],
   var |-> [y \in 1..El |-> [x \in 1..Dim |-> acc.q[<<x - 1, y - 1>>]]], cnt |-> [y \in 1..El |-> [x \in 1..Dim |-> acc.n[<<x - 1, y - 1>>]]]]))
=============================================================================
