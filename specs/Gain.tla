-------------------------------- MODULE Gain --------------------------------
(* The solved gains on their way to the final gains: divided by the auto-     *)
(* correlation ratio, split into bandpass and remainder, the remainder        *)
(* replaced by its polynomial, put together again, multiplied by the ratio.   *)
(* Four channels, one of them may be flagged: the quadratic through three     *)
(* channels takes their values exactly, so that the way there and back gives  *)
(* the solved gains for whatever gains there are.                             *)
EXTENDS Integers, Sequences, FiniteSets, Seqs, TLC, Json
CONSTANTS Values, NT, Skips, TileMasks, Roots
VARIABLES g, skip, tu, root, opt, at, cur, ratio, band
vars == <<g, skip, tu, root, opt, at, cur, ratio, band>>
F == 1..4
T == 1..NT
Used == F \ {skip}
Tu == {t \in T : tu[t] = 1}
Opts == {o \in [ratio : BOOLEAN, band : BOOLEAN, poly : BOOLEAN] : o.ratio => o.band}
Cells == (F \ {skip}) \X T
Init == /\ skip \in Skips /\ tu \in TileMasks /\ opt \in Opts
        /\ root \in (IF opt.ratio THEN Roots ELSE {[t \in T |-> 1]})
        /\ \E v \in [(1..3) \X T -> Values] : g = [f \in F |-> [t \in T |-> IF f = skip THEN 7 ELSE v[<<IF f < skip THEN f ELSE f - 1, t>>]]]
        /\ at = "solved" /\ cur = [f \in F |-> [t \in T |-> QI(g[f][t])]] /\ ratio = [t \in T |-> QI(1)] /\ band = [f \in F |-> QI(1)]
Divide == /\ at = "solved" /\ at' = "divided"
          /\ ratio' = IF opt.ratio THEN [t \in T |-> Norm(<<root[t], root[1]>>)] ELSE ratio
          /\ cur' = [f \in F |-> [t \in T |-> QDiv(cur[f][t], ratio'[t])]]
          /\ UNCHANGED <<g, skip, tu, root, opt, band>>
Mean(h, S) == LET s == SumQ([i \in 1..Cardinality(S) |-> h[SetToSortedSeq(S)[i]]]) IN Norm(<<s[1], s[2] * Cardinality(S)>>)
Split == /\ at = "divided" /\ at' = "split"
         /\ band' = IF opt.band THEN [f \in F |-> IF f = skip THEN QI(0) ELSE Mean([t \in T |-> QDiv(cur[f][t], Mean([k \in F |-> cur[k][t]], Used))], Tu)] ELSE band
         /\ cur' = IF opt.band THEN [f \in F |-> [t \in T |-> IF f = skip THEN cur[f][t] ELSE QDiv(cur[f][t], band'[f])]] ELSE cur
         /\ UNCHANGED <<g, skip, tu, root, opt, ratio>>
(* the quadratic through the used channels *)
Basis(f, k) == LET O == SetToSortedSeq(Used \ {k}) IN Norm(<<(f - O[1]) * (f - O[2]), (k - O[1]) * (k - O[2])>>)
Quad(h, f) == LET U == SetToSortedSeq(Used) IN SumQ([i \in 1..3 |-> QMul(h[U[i]], Basis(f, U[i]))])
Fit == /\ at = "split" /\ at' = "fitted"
       /\ cur' = IF opt.poly THEN [f \in F |-> [t \in T |-> Quad([k \in F |-> cur[k][t]], f)]] ELSE cur
       /\ UNCHANGED <<g, skip, tu, root, opt, ratio, band>>
Combine == /\ at = "fitted" /\ at' = "combined"
           /\ cur' = IF opt.poly THEN [f \in F |-> [t \in T |-> QMul(cur[f][t], band[f])]]
                     ELSE IF opt.band THEN [f \in F |-> [t \in T |-> band[f]]] ELSE cur
           /\ UNCHANGED <<g, skip, tu, root, opt, ratio, band>>
Multiply == /\ at = "combined" /\ at' = "done"
            /\ cur' = [f \in F |-> [t \in T |-> QMul(cur[f][t], ratio[t])]]
            /\ UNCHANGED <<g, skip, tu, root, opt, ratio, band>>
Next == Divide \/ Split \/ Fit \/ Combine \/ Multiply
Spec == Init /\ [][Next]_vars
Whole(f, t) == QI(g[f][t])
Recombines == (at = "done" /\ (opt.poly \/ ~opt.band)) => \A f \in Used, t \in Tu : cur[f][t] = Whole(f, t)
Product == at \in {"split", "fitted"} /\ opt.band => \A f \in Used, t \in Tu : QMul(QMul(cur[f][t], band[f]), ratio[t]) = Whole(f, t)
(* nothing of the bandpass is seen where it is flagged *)
Blank == (at = "done" /\ opt.band) => \A t \in Tu : cur[skip][t] = QI(0)
(* the bandpass is a shape: its scale is not that of the gains *)
ScaleFree == at = "split" /\ opt.band => LET m == Mean(band, Used) IN m = QI(1)
Emit == at = "done" => PrintT("@@" \o ToJson([g |-> g, skip |-> skip, tu |-> tu, root |-> root, opt |-> opt, out |-> cur]))
=============================================================================
