-------------------------------- MODULE Match --------------------------------
(* Matching as a scan over positions; every finished behaviour is emitted.   *)
EXTENDS MatchOps, TLC, Json
CONSTANTS MaxLen, Vals, MaxV, VVals
Arrs == UNION {[1..n -> Vals] : n \in 1..MaxLen}
Wanted == UNION {[1..n -> VVals] : n \in 1..MaxV}
VARIABLES req, p, hits
vars == <<req, p, hits>>
Init == /\ \E a \in Arrs, v \in Wanted :
              \/ req = [a1 |-> a, two |-> FALSE, a2 |-> <<>>, v |-> v]
              \/ \E b \in [DOMAIN a -> Vals] : req = [a1 |-> a, two |-> TRUE, a2 |-> b, v |-> v]
        /\ p = 0 /\ hits = <<>>
Hit == p < Len(req.a1) /\ p \in Matches(req) /\ hits' = Append(hits, p) /\ p' = p + 1 /\ UNCHANGED req
Miss == p < Len(req.a1) /\ p \notin Matches(req) /\ p' = p + 1 /\ UNCHANGED <<req, hits>>
Next == Hit \/ Miss
Spec == Init /\ [][Next]_vars
Exact == Range(hits) = {q \in Matches(req) : q < p}
(* the matched positions do not depend on duplicates or the order of the wanted values *)
SetLike == \A i \in DOMAIN req.v : Matches(req) = Matches([req EXCEPT !.v = Append(@, req.v[i])])
Emit == p = Len(req.a1) => PrintT("@@" \o ToJson([req |-> req, hits |-> hits]))
=============================================================================
