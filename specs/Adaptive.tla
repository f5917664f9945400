------------------------------ MODULE Adaptive ------------------------------
(* The weight of the next solution, from the weights and the convergence so   *)
(* far (a Kalman filter): a history of iterations in exact arithmetic.        *)
EXTENDS Integers, Sequences, FiniteSets, Seqs, TLC, Json
CONSTANTS Convs, Bases, MaxIter, Estimates
VARIABLES base, est, gains, convs
vars == <<base, est, gains, convs>>
QAbs(q) == <<AbsI(q[1]), q[2]>>
QMax(a, b) == IF QLt(a, b) THEN b ELSE a
RECURSIVE QSort(_)
QMin(S) == CHOOSE a \in S : \A b \in S : QLe(a, b)
QSort(s) == IF s = <<>> THEN <<>>
            ELSE LET i == CHOOSE k \in 1..Len(s) : \A j \in 1..Len(s) : QLe(s[k], s[j])
                 IN <<s[i]>> \o QSort([j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]])
QMedian(s) == LET t == QSort(s)  n == Len(s) IN
   IF n % 2 = 1 THEN t[(n + 1) \div 2] ELSE QMul(QAdd(t[n \div 2], t[n \div 2 + 1]), <<1, 2>>)
(* the value the convergence tends to, when it is not given: the median of the last estimates *)
Guess(i) == QMax(QI(0), QDiv(QSub(QMul(QAdd(QI(1), gains[i]), convs[i + 1]), convs[i]), gains[i]))
Final == IF est # "median" THEN QI(0)
         ELSE LET n == Len(convs) - 1   \* iter - 1
                  k == Max2(Len(convs) - 5, 0)
              IN QMedian([i \in 1..(n - k) |-> Guess(k + i)])
(* the weight of iteration number Len(gains) (from zero) *)
NextGain ==
  LET it == Len(gains) IN
  IF it <= 2 THEN base
  ELSE LET last == gains[it]  lc == convs[it - 1]  nc == convs[it]  w == QAdd(base, last)
           pred == QDiv(QAdd(QMul(Final, last), lc), w)
           delta == QDiv(QSub(pred, nc), QDiv(QSub(lc, Final), w))
       IN QMax(QMul(base, <<1, 2>>), QMul(QAdd(QSub(QI(1), QAbs(delta)), last), <<1, 2>>))
Able == IF Len(gains) <= 2 THEN TRUE ELSE QSub(convs[Len(gains) - 1], Final)[1] # 0
Init == base \in Bases /\ est \in Estimates /\ gains = <<>> /\ convs = <<>>
Iterate == /\ Len(gains) < MaxIter /\ Able
           /\ gains' = Append(gains, NextGain)
           /\ \E c \in Convs : convs' = Append(convs, c)
           /\ UNCHANGED <<base, est>>
Spec == Init /\ [][Iterate]_vars
Bounded == \A i \in 1..Len(gains) : QLe(QMul(base, <<1, 2>>), gains[i]) /\ QLe(gains[i], QMax(base, QI(1)))
Emit == Len(gains) = MaxIter => PrintT("@@" \o ToJson([base |-> base, est |-> est, gains |-> gains, convs |-> convs]))
=============================================================================
