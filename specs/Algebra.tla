------------------------------- MODULE Algebra -------------------------------
(* Four polarisation planes under mirroring, reformatting and splitting.       *)
EXTENDS AlgebraOps, TLC, Json
CONSTANTS Shapes, Vals, Depth
VARIABLES p0, p, ops
vars == <<p0, p, ops>>
Plane(s, f) == [i \in 1..s[1] |-> [j \in 1..s[2] |-> f[((i - 1) * s[2] + j)]]]
Planes(s) == {Plane(s, f) : f \in [1..(s[1] * s[2]) -> Vals]}
Const(s, k) == [i \in 1..s[1] |-> [j \in 1..s[2] |-> <<4 * (k + i), 4 * (j - i)>>]]
Init == \E s \in Shapes : \E a \in Planes(s), b \in Planes(s) : p0 = <<Const(s, 0), Const(s, 1), a, b>> /\ p = p0 /\ ops = <<>>
Step(name, q) == Len(ops) < Depth /\ p' = q /\ ops' = Append(ops, name) /\ UNCHANGED p0
Even4(q) == \A i \in 1..NRow(q[3]), j \in 1..NCol(q[3]) : LET m == Mirror(q[4]) IN
               (q[3][i][j][1] - m[i][j][1]) % 2 = 0 /\ (q[3][i][j][2] - m[i][j][2]) % 2 = 0
DoMirror(k) == Step("mirror" \o ToString(k), [p EXCEPT ![k] = Mirror(p[k])])
DoReformat == Even4(p) /\ Step("reformat", Reformat(p))
DoSplit == Step("split", Split(p))
Next == (\E k \in {3, 4} : DoMirror(k)) \/ DoReformat \/ DoSplit
Spec == Init /\ [][Next]_vars
MirrorInvolution == \A k \in 1..4 : Mirror(Mirror(p[k])) = p[k]
(* after a reformat the two cross planes are each other's Hermitian mirror and a second one changes nothing
   but the sign structure: the difference of a plane with itself is zero *)
ReformatHermitian == Len(ops) > 0 /\ ops[Len(ops)] = "reformat" => p[4] = Mirror(p[3])
ParallelHandsKept == p[1] = p0[1] /\ p[2] = p0[2]
(* splitting loses nothing of the plane it splits *)
SplitLossless == [][ops' # ops /\ ops'[Len(ops')] = "split" =>
    p[3] = [i \in 1..NRow(p[3]) |-> [j \in 1..NCol(p[3]) |-> <<p'[3][i][j][1], p'[4][i][j][1]>>]]]_vars
Emit == Len(ops) = Depth => PrintT("@@" \o ToJson([p0 |-> p0, ops |-> ops, p |-> p]))
=============================================================================
