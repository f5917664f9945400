-------------------------------- MODULE Stats --------------------------------
(* The resistant mean as its passes: centre, cut by MAD, cut by sigma, mean.   *)
EXTENDS StatsOps, TLC, Json
CONSTANTS MaxLen, Vals, Ks
Datas == UNION {[1..n -> {<<v, 0>> : v \in Vals}] : n \in 1..MaxLen}
VARIABLES d, k, pc, keep
vars == <<d, k, pc, keep>>
Init == d \in Datas /\ k \in Ks /\ pc = "all" /\ keep = DOMAIN d
CutMad == pc = "all" /\ keep' = Keep1(d, k) /\ pc' = "mad" /\ UNCHANGED <<d, k>>
CutSigma == pc = "mad" /\ keep' = Keep2(d, k) /\ pc' = "done" /\ UNCHANGED <<d, k>>
Next == CutMad \/ CutSigma
Spec == Init /\ [][Next]_vars
(* samples of equal value share their fate: no dependence on the order *)
ByValue == \A i, j \in DOMAIN d : d[i] = d[j] => (i \in keep <=> j \in keep)
(* a cut keeps an interval around the median *)
Interval == LET dv == Dev2All(d) IN \A i, j \in DOMAIN d : dv[i] <= dv[j] /\ j \in keep => i \in keep
(* at least half of the samples survive the first cut (k >= 2: one deviation) *)
HalfKept == pc = "mad" => 2 * Cardinality(keep) >= Len(d)
Emit == pc = "done" /\ keep # {} => PrintT("@@" \o ToJson([d |-> d, k |-> k, undecided |-> Undecided(d, k), mean |-> MeanOf(d, keep),
              med |-> UpperMid(Re(d)), med2 |-> Med2(Re(d))]))
=============================================================================
