-------------------------------- MODULE Rebin --------------------------------
(* The resize as the four passes it is made of.                              *)
EXTENDS RebinOps, TLC, Json
CONSTANTS Rows, Cols, NewRows, NewCols, Vals
VARIABLES req, m, pc
vars == <<req, m, pc>>
Mats == UNION {[1..R -> [1..C -> Vals]] : R \in Rows, C \in Cols}
Init == /\ \E a \in Mats, x \in NewRows, y \in NewCols, s \in BOOLEAN, t \in BOOLEAN :
             req = [a |-> a, shape |-> <<x, y>>, sample |-> s, integer |-> t]
        /\ m = <<>> /\ pc = "start"
R0 == Len(req.a)
C0_ == Len(req.a[1])
Refuse == pc = "start" /\ Refused(req) /\ pc' = "refused" /\ UNCHANGED <<req, m>>
Start == pc = "start" /\ ~Refused(req) /\ m' = Mat(req.a) /\ pc' = "grow-rows" /\ UNCHANGED req
GrowRows == /\ pc = "grow-rows" /\ pc' = "grow-cols" /\ UNCHANGED req
            /\ m' = IF req.shape[1] > R0 THEN (IF req.sample THEN RepRows(m, req.shape[1] \div R0) ELSE ExpandRows(m, req.shape[1] \div R0, req.integer)) ELSE m
GrowCols == /\ pc = "grow-cols" /\ pc' = "shrink-cols" /\ UNCHANGED req
            /\ m' = IF req.shape[2] > C0_ THEN (IF req.sample THEN RepCols(m, req.shape[2] \div C0_) ELSE ExpandCols(m, req.shape[2] \div C0_, req.integer)) ELSE m
ShrCols == /\ pc = "shrink-cols" /\ pc' = "shrink-rows" /\ UNCHANGED req
           /\ m' = IF req.shape[2] < C0_ THEN (IF req.sample THEN PickCols(m, C0_ \div req.shape[2]) ELSE ShrinkCols(m, C0_ \div req.shape[2], req.integer)) ELSE m
ShrRows == /\ pc = "shrink-rows" /\ pc' = "done" /\ UNCHANGED req
           /\ m' = IF req.shape[1] < R0 THEN (IF req.sample THEN PickRows(m, R0 \div req.shape[1]) ELSE ShrinkRows(m, R0 \div req.shape[1], req.integer)) ELSE m
Next == Refuse \/ Start \/ GrowRows \/ GrowCols \/ ShrCols \/ ShrRows
Spec == Init /\ [][Next]_vars
Agrees == pc = "done" => m = Result(req)
Shape == pc = "done" => Len(m) = req.shape[1] /\ \A i \in 1..Len(m) : Len(m[i]) = req.shape[2]
(* enlarging keeps every original value at its block corner *)
Corners == pc = "done" /\ req.shape[1] >= R0 /\ req.shape[2] >= C0_ =>
   \A i \in 1..R0, j \in 1..C0_ : QEq(m[(i - 1) * (req.shape[1] \div R0) + 1][(j - 1) * (req.shape[2] \div C0_) + 1], <<req.a[i][j], 1>>)
(* enlarge by sampling then shrink by sampling restores the array *)
SampleInverse == pc = "done" /\ req.sample /\ req.shape[1] >= R0 /\ req.shape[2] >= C0_ =>
   PickRows(PickCols(m, req.shape[2] \div C0_), req.shape[1] \div R0) = Mat(req.a)
(* no value leaves the range of the data *)
Bounded == pc = "done" /\ ~req.integer =>
   LET S == UNION {Range(req.a[i]) : i \in 1..R0} IN
   \A i \in 1..Len(m) : \A j \in 1..Len(m[i]) : QLe(<<MinOf(S), 1>>, m[i][j]) /\ QLe(m[i][j], <<MaxOf(S), 1>>)
Emit == pc \in {"done", "refused"} => PrintT("@@" \o ToJson([req |-> req, refused |-> (pc = "refused"), res |-> m]))
=============================================================================
