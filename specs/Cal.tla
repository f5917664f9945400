-------------------------------- MODULE Cal --------------------------------
(* Sky, corruption by gains and calibration, for three tiles and four products. *)
EXTENDS CalOps, TLC, Json
CONSTANTS GX, GY, Skies, Seconds
VARIABLES x, h, sky, stage
vars == <<x, h, sky, stage>>
TA == <<1, 1, 2, 2>>
TB == <<2, 3, 3, 2>>
One == <<1, 0, 1>>
Init == \E a \in [1..3 -> GX], b \in [1..2 -> GY], s \in Skies, k \in [1..2 -> Seconds] :
          /\ sky = [p \in 1..4 |-> <<[r \in 1..4 |-> CScale(p + r, s)]>>]
          /\ x = [ta |-> TA, tb |-> TB, g |-> <<<<a>>, <<<<b[1], b[2], a[1]>>>>>>, v |-> sky]
          /\ h = [ta |-> TA, tb |-> TB, g |-> <<<<<<k[1], One, k[2]>>>>, <<<<k[2], k[1], One>>>>>>, v |-> sky]
          /\ stage = "sky"
Corrupt == /\ stage = "sky" /\ stage' = "raw" /\ UNCHANGED <<h, sky>>
           /\ x' = [x EXCEPT !.v = [p \in 1..4 |-> <<[r \in 1..4 |-> IF Usable(x, p, 1, r) THEN CMul(sky[p][1][r], Factor(x, p, 1, r)) ELSE <<7, -3>>]>>]]
Calibrate == /\ stage = "raw" /\ stage' = "calibrated" /\ UNCHANGED <<h, sky>>
             /\ x' = [x EXCEPT !.v = [p \in 1..4 |-> <<[r \in 1..4 |-> Applied(x, p, 1, r)]>>]]
Next == Corrupt \/ Calibrate
Spec == Init /\ [][Next]_vars
RoundTrip == stage = "calibrated" => \A p \in 1..4, r \in 1..4 : x.v[p][1][r] = IF Usable(x, p, 1, r) THEN sky[p][1][r] ELSE C0
UnitGains == stage = "raw" => LET y == [x EXCEPT !.g = [q \in 1..2 |-> <<[t \in 1..3 |-> One]>>]] IN \A p \in 1..4, r \in 1..4 : Applied(y, p, 1, r) = x.v[p][1][r]
(* a common phase of both feeds changes nothing *)
Degenerate == stage = "raw" => LET y == [x EXCEPT !.g = [q \in 1..2 |-> <<[t \in 1..3 |-> LET g == CMul(GC(x.g[q][1][t]), <<0, 1>>) IN <<g[1], g[2], x.g[q][1][t][3]>>]>>]]
              IN \A p \in 1..4, r \in 1..4 : Applied(y, p, 1, r) = Applied(x, p, 1, r)
(* gains applied one after the other are the product of the gains *)
Compose == stage = "raw" => LET prod == [q \in 1..2 |-> <<[t \in 1..3 |-> LET g == CMul(GC(x.g[q][1][t]), GC(h.g[q][1][t])) IN <<g[1], g[2], x.g[q][1][t][3]>>]>>]
                                once == [h EXCEPT !.v = [p \in 1..4 |-> <<[r \in 1..4 |-> Applied(x, p, 1, r)]>>]]
                                both == [x EXCEPT !.g = prod]
                            IN \A p \in 1..4, r \in 1..4 : Usable(x, p, 1, r) /\ Usable(h, p, 1, r) /\ CDivisible(x.v[p][1][r], Factor(both, p, 1, r)) =>
                                  Applied(once, p, 1, r) = Applied(both, p, 1, r)
(* the reversed baseline holds the conjugate of the product with the feeds exchanged *)
Reversed == stage = "raw" => \A r \in 1..4 : LET y == [x EXCEPT !.ta = [TA EXCEPT ![r] = TB[r]], !.tb = [TB EXCEPT ![r] = TA[r]],
                                                      !.v = [p \in 1..4 |-> <<[q \in 1..4 |-> CConj(x.v[<<1, 2, 3, 4>>[p]][1][q])]>>]]
                             IN \A p \in 1..2 : Applied(y, p, 1, r) = CConj(Applied(x, p, 1, r))
Emit == stage = "calibrated" => PrintT("@@" \o ToJson([g |-> x.g, ta |-> TA, tb |-> TB, sky |-> sky, out |-> x.v]))
=============================================================================
