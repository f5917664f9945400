-------------------------------- MODULE Region --------------------------------
(* The growth as waves from the seeds, for every binary image of one size.     *)
EXTENDS RegionOps, TLC, Json
CONSTANTS R, C, Vals, SeedChoices, Lo, Hi
VARIABLES g, S, done
vars == <<g, S, done>>
Init == /\ \E f \in [1..(R * C) -> Vals], s \in SeedChoices :
             g = [R |-> R, C |-> C, img |-> f, seeds |-> s, low |-> Lo, high |-> Hi]
        /\ S = Roots(g) /\ done = FALSE
Wave == ~done /\ Grow(g, S, Within(g)) # S /\ S' = Grow(g, S, Within(g)) /\ UNCHANGED <<g, done>>
Stop == ~done /\ Grow(g, S, Within(g)) = S /\ done' = TRUE /\ UNCHANGED <<g, S>>
Next == Wave \/ Stop
Spec == Init /\ [][Next]_vars
Safe == S \subseteq Within(g) /\ Roots(g) \subseteq S
(* a finished region is closed: no in-threshold pixel touches it from outside *)
Closed == done => \A p \in Within(g) \ S : Neigh(g, p) \cap S = {}
Monotone == [][S \subseteq S']_vars
Emit == done => PrintT("@@" \o ToJson([g |-> g, region |-> SetToSortedSeq(S \ Border(g))]))
=============================================================================
