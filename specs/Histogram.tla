----------------------------- MODULE Histogram ------------------------------
(* The histogram as a machine that places one datum per step, with the       *)
(* design invariants of the partition; Emit prints every finished behaviour  *)
(* (request, expected counts, edges, reverse indices) for replay.            *)
EXTENDS HistogramOps, TLC, Json
CONSTANTS MaxLen, Vals, Bounds, Sizes, BinCounts
Datas == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Reqs == [data : Datas, min : Bounds \cup {None}, max : Bounds \cup {None}, bs : Sizes, nb : {None}]
        \cup [data : Datas, min : Bounds \cup {None}, max : Bounds \cup {None}, bs : {7}, nb : BinCounts]
VARIABLES req, k, lists      \* lists[b]: 0-based positions put into bin b so far
vars == <<req, k, lists>>
Init == /\ req \in Reqs /\ ~Degenerate(req)
        /\ k = 0
        /\ lists = [b \in 0..(NBins(req) - 1) |-> <<>>]
Place == /\ k < Len(req.data) /\ InRange(req, req.data[k + 1])
         /\ lists' = [lists EXCEPT ![BinOf(req, req.data[k + 1])] = Append(@, k)]
         /\ k' = k + 1 /\ UNCHANGED req
Skip == /\ k < Len(req.data) /\ ~InRange(req, req.data[k + 1])
        /\ k' = k + 1 /\ UNCHANGED <<req, lists>>
Next == Place \/ Skip
Spec == Init /\ [][Next]_vars
RECURSIVE Starts(_, _)
Starts(b, acc) == IF b > NBins(req) - 1 THEN <<acc>> ELSE <<acc>> \o Starts(b + 1, acc + Len(lists[b]))
RECURSIVE Concat(_)
Concat(b) == IF b > NBins(req) - 1 THEN <<>> ELSE lists[b] \o Concat(b + 1)
RI == Starts(0, NBins(req) + 1) \o Concat(0)
Partition ==
  /\ \A p \in 0..(k - 1) :
        LET homes == {b \in DOMAIN lists : p \in Range(lists[b])} IN
        IF InRange(req, req.data[p + 1]) THEN Cardinality(homes) = 1 ELSE homes = {}
  /\ SumSeq([b \in 1..NBins(req) |-> Len(lists[b - 1])])
       = Cardinality({p \in 0..(k - 1) : InRange(req, req.data[p + 1])})
Increasing == \A b \in DOMAIN lists : \A i, j \in 1..Len(lists[b]) : i < j => lists[b][i] < lists[b][j]
(* a datum lies in the half-open interval of its bin; the last bin is closed *)
Contained ==
  \A b \in DOMAIN lists : \A i \in 1..Len(lists[b]) :
     LET x == <<req.data[lists[b][i] + 1], 1>>
     IN QLe(Edge(req, b), x) /\ (QLt(x, Edge(req, b + 1)) \/ (b = NBins(req) - 1 /\ QLe(x, Edge(req, b + 1))))
(* reading the reverse indices back gives the lists *)
ReadBack == k = Len(req.data) =>
   \A b \in 0..(NBins(req) - 1) : [j \in 1..(RI[b + 2] - RI[b + 1]) |-> RI[RI[b + 1] + j]] = lists[b]
Emit == k = Len(req.data) =>
   PrintT("@@" \o ToJson([req |-> req, ri |-> RI, hist |-> [i \in 1..NBins(req) |-> Len(lists[i - 1])],
                          edges |-> [i \in 1..NBins(req) |-> Edge(req, i - 1)]]))
=============================================================================
