-------------------------------- MODULE Split --------------------------------
(* Walking through the integrations: a usable one waits for its successor; if   *)
(* the successor is usable the two are a pair, otherwise both are dropped.      *)
EXTENDS SplitOps, TLC, Json
CONSTANTS NT, Wts, Ims
VARIABLES x, t, waiting, pairs
vars == <<x, t, waiting, pairs>>
Init == /\ \E m \in [1..NT -> {0, 1}], w \in [1..NT -> Wts], im \in Ims :
              /\ \E i \in 1..NT : m[i] = 1
              /\ x = [nt |-> NT, nb |-> 1, mu |-> m, w |-> <<<<w>>>>, im |-> <<<<im>>>>]
        /\ t = 0 /\ waiting = -1 /\ pairs = {}
First == pairs = {} /\ waiting = -1 /\ \A s \in 0..(t - 1) : ~Use(x, s)
Step == /\ t < NT /\ t' = t + 1 /\ UNCHANGED x
        /\ \/ First /\ ~Use(x, t) /\ UNCHANGED <<waiting, pairs>>
           \/ waiting = -1 /\ ~(First /\ ~Use(x, t)) /\ waiting' = t /\ UNCHANGED pairs
           \/ waiting # -1 /\ pairs' = (IF Use(x, waiting) /\ Use(x, t) THEN pairs \cup {waiting} ELSE pairs) /\ waiting' = -1
Spec == Init /\ [][Step]_vars
End == t = NT
SamePairs == End => pairs = PairSet(x)
Balanced == End => Cardinality(Even(x)) = Cardinality(Odd(x)) /\ Even(x) \cap Odd(x) = {}
Mates == End => \A r \in Even(x) : MateRow(x, r) \in Odd(x) /\ MateRow(x, MateRow(x, r)) = r /\ SplitW(x, 1, 1, r) = SplitW(x, 1, 1, MateRow(x, r))
Identical == End => ((\A r \in Even(x) : x.im[1][1][r] = x.im[1][1][MateRow(x, r)]) => Noise2(x, 1, 1) = <<0, 1>>)
Emit == End => PrintT("@@" \o ToJson([x |-> x, even |-> SetToSortedSeq(Even(x)), odd |-> SetToSortedSeq(Odd(x)), w |-> [r \in 1..NT |-> SplitW(x, 1, 1, r)], n |-> Noise2(x, 1, 1)]))
=============================================================================
