------------------------------- MODULE Solver -------------------------------
(* Three tiles, three integrations: the solver collects equations row by row   *)
(* and then makes one iteration.  The incremental sums must be those of the    *)
(* declarative step, and rows that do not take part change nothing.            *)
EXTENDS SolverOps, TLC, Json
CONSTANTS Truths, Starts, Models, Weights, Masks, Avgs, Noises
VARIABLES x, truth, pos, num, den, cnt
vars == <<x, truth, pos, num, den, cnt>>
TA == <<1, 1, 2>>
TB == <<2, 3, 3>>
Init == \E g \in Truths, s \in Starts, m \in Models, w \in Weights, k \in Masks, a \in Avgs, n \in Noises :
   LET x0 == [ta |-> TA, tb |-> TB, nt |-> 3, tu |-> k, fu |-> <<1>>, w |-> <<w>>, m |-> <<[r \in 1..9 |-> CScale(6, m[((r * r) % 5) + 1])]>>,
              u |-> <<1, 2, 3>>, vv |-> <<0, 1, -1>>, f |-> <<1>>, dim |-> 16, el |-> 16, omn |-> 0, omx |-> 99, cmn |-> 0, cmx |-> 0, avg |-> a, g |-> <<s>>, v |-> <<>>]
       sky(r) == CMul(CMul(x0.m[1][r], g[TA[BaseOf(x0, r)]]), CConj(g[TB[BaseOf(x0, r)]]))
   IN  /\ x = [x0 EXCEPT !.v = <<[r \in 1..9 |-> IF Clip(w[r]) > 0 THEN sky(r) ELSE CAdd(sky(r), n)]>>]
       /\ truth = g /\ pos = 1 /\ num = [t \in 1..3 |-> C0] /\ den = [t \in 1..3 |-> 0] /\ cnt = [t \in 1..3 |-> 0]
NItems == IF x.avg THEN 3 ELSE 9
Collect == /\ pos <= NItems /\ pos' = pos + 1 /\ UNCHANGED <<x, truth>>
           /\ LET b == BaseOf(x, pos)  a == TA[b]  c == TB[b] IN
              IF ~Takes(x, 1, pos) THEN UNCHANGED <<num, den, cnt>>
              ELSE /\ num' = [num EXCEPT ![a] = CAdd(@, CMul(CConj(XA(x, 1, pos)), Val(x, x.v, 1, pos))),
                                         ![c] = CAdd(@, CMul(CConj(XB(x, 1, pos)), CConj(Val(x, x.v, 1, pos))))]
                   /\ den' = [den EXCEPT ![a] = @ + Abs2(XA(x, 1, pos)), ![c] = @ + Abs2(XB(x, 1, pos))]
                   /\ cnt' = [cnt EXCEPT ![a] = @ + 1, ![c] = @ + 1]
Spec == Init /\ [][Collect]_vars
End == pos > NItems
Collected == End => \A t \in 1..3 : cnt[t] = Count(x, 1, t) /\ (Enough(x, 1, t) => num[t] = Num(x, 1, t) /\ den[t] = Den(x, 1, t))
AtTruth == x.g[1] = truth
FixedPoint == End /\ AtTruth /\ Supported(x, 1) => \A t \in 1..3 : Class(x, FALSE, 1, t) = "solved" => Step(x, 1, t) = <<QI(truth[t][1]), QI(truth[t][2])>>
(* data of rows that do not take part change neither the classes nor the step *)
Deaf == End => LET y == [x EXCEPT !.v = <<[r \in 1..9 |-> IF Clip(x.w[1][r]) > 0 /\ TilesOk(x, BaseOf(x, r)) THEN x.v[1][r] ELSE <<5, 7>>]>>]
               IN \A t \in 1..3 : Class(x, TRUE, 1, t) = Class(y, TRUE, 1, t) /\ (x.tu[t] = 1 => Step(x, 1, t) = Step(y, 1, t))
(* a common phase of the starting gains is a common phase of the new gains *)
Rot(a) == CMul(a, <<0, 1>>)
Phase == End => LET y == [x EXCEPT !.g = <<[t \in 1..3 |-> Rot(x.g[1][t])]>>] IN
            \A t \in 1..3 : Step(y, 1, t) = LET s == Step(x, 1, t) IN <<QSub(QI(0), s[2]), s[1]>>
Emit == End => PrintT("@@" \o ToJson([x |-> x, cls |-> [t \in 1..3 |-> Class(x, FALSE, 1, t)], step |-> [t \in 1..3 |-> Step(x, 1, t)], edge |-> [t \in 1..3 |-> Edge(x, 1, t)]]))
=============================================================================
