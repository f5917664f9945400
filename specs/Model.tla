------------------------------- MODULE Model --------------------------------
(* The alignment as it proceeds: an offset in time is believed or not, every    *)
(* data time claims a model time, the tiles are compared, and the rows are      *)
(* then copied time step by time step.                                          *)
EXTENDS ModelOps, Json
CONSTANTS NTile, DTimes, MTimes, Ress, MaxDrop
VARIABLES x, ph, shift, claim, got, todo
vars == <<x, ph, shift, claim, got, todo>>
(* pairs in the order of correlation; reversed, or the autos last               *)
RECURSIVE PairsOf(_, _)
PairsOf(S, au) == IF S = {} THEN <<>>
                  ELSE LET a == MinOf(S) R == SetToSortedSeq(S \ {a})
                       IN (IF a \in au THEN <<<<a, a>>>> ELSE <<>>) \o [i \in DOMAIN R |-> <<a, R[i]>>] \o PairsOf(S \ {a}, au)
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Cross(p) == p[1] # p[2]
IsAuto(p) == p[1] = p[2]
Order(s, o) == IF o = "rev" THEN Reverse(s) ELSE IF o = "last" THEN SelectSeq(s, Cross) \o SelectSeq(s, IsAuto) ELSE s
RECURSIVE RowsOf(_, _)
RowsOf(ps, ts) == IF ts = <<>> THEN <<>> ELSE [i \in DOMAIN ps |-> <<ps[i][1], ps[i][2], Head(ts)>>] \o RowsOf(ps, Tail(ts))
Drop(s, k) == IF k = 0 \/ k > Len(s) THEN s ELSE SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Names == [i \in 1..NTile |-> 10 * (NTile + 2 - i) + 1]
Init ==
  \E D \in SUBSET (1..NTile), M \in SUBSET (1..NTile), ad \in {"none", "all"}, am \in {"none", "all", "some"}, od \in {"fwd", "rev"}, om \in {"fwd", "last"},
     dt \in DTimes, mt \in MTimes, r \in Ress, kd \in 0..MaxDrop, km \in 0..MaxDrop, nm \in BOOLEAN :
     /\ D # {} /\ M # {}
     /\ LET dn(a) == IF nm THEN Names[a] ELSE a
            pd == Order(PairsOf(D, IF ad = "all" THEN D ELSE {}), od)
            pm == Order(PairsOf(M, IF am = "all" THEN M ELSE IF am = "some" THEN {MaxOf(M)} ELSE {}), om)
            rd == Drop(RowsOf([i \in DOMAIN pd |-> <<dn(pd[i][1]), dn(pd[i][2])>>], dt), kd)
            rm == Drop(RowsOf(pm, mt), km)
        IN Len(rd) > 0 /\ Len(rm) > 0 /\ x = [d |-> rd, m |-> rm, names |-> Names, res |-> r]
     /\ ~Edge(x)
     /\ ph = "time" /\ shift = None /\ claim = [t \in {} |-> 0] /\ got = [i \in {} |-> 0] /\ todo = Times(x.d)
Offset == ph = "time" /\ shift' = Shift(x) /\ ph' = "claim" /\ UNCHANGED <<x, claim, got, todo>>
Claim == /\ ph = "claim" /\ todo # {}
         /\ LET t == MinOf(todo) n == NearS(x, t, shift)
                u == CHOOSE v \in n : TRUE
            IN IF \E s \in DOMAIN claim : claim[s] = u
               THEN ph' = "refused" /\ UNCHANGED <<claim, todo>>
               ELSE claim' = [s \in DOMAIN claim \cup {t} |-> IF s = t THEN u ELSE claim[s]] /\ todo' = todo \ {t} /\ UNCHANGED ph
         /\ UNCHANGED <<x, shift, got>>
Compare == /\ ph = "claim" /\ todo = {}
           /\ IF Lacking(x) # {} THEN ph' = "refused" /\ UNCHANGED todo ELSE ph' = "copy" /\ todo' = Times(x.d)
           /\ UNCHANGED <<x, shift, claim, got>>
Copy == /\ ph = "copy" /\ todo # {}
        /\ LET t == MinOf(todo) R == {i \in DOMAIN x.d : x.d[i][3] = t} au == Autos(x)
           IN /\ got' = [i \in DOMAIN got \cup R |-> IF i \in R THEN Source(x, claim, au, i) ELSE got[i]]
              /\ todo' = todo \ {t}
        /\ ph' = IF Cardinality(todo) = 1 THEN "done" ELSE ph
        /\ UNCHANGED <<x, shift, claim>>
Spec == Init /\ [][Offset \/ Claim \/ Compare \/ Copy]_vars
Out == ph \in {"refused", "done"}
Refusal == Out => ((ph = "refused") <=> Refused(x))
Outcome == ph = "done" => got = Sources(x)
SamePair == \A i \in DOMAIN got : got[i] # 0 => LET m == x.m[got[i]] IN m[1] = Index(x, x.d[i][1]) /\ m[2] = Index(x, x.d[i][2])
SameStep == ph = "done" => \A i, j \in DOMAIN got : got[i] # 0 /\ got[j] # 0 => ((x.d[i][3] = x.d[j][3]) <=> (x.m[got[i]][3] = x.m[got[j]][3]))
Nothing == ph = "done" => \A i \in DOMAIN got : got[i] = 0 => (IsAuto(x.d[i]) /\ ~Autos(x)) \/ ~(\E j \in DOMAIN x.m : x.m[j] = <<Index(x, x.d[i][1]), Index(x, x.d[i][2]), claim[x.d[i][3]]>>)
Once == ph = "done" => \A i, j \in DOMAIN got : i # j /\ got[i] = got[j] => got[i] = 0
Emit == Out => PrintT("@@" \o ToJson([x |-> x, refused |-> (ph = "refused"), src |-> IF ph = "done" THEN got ELSE <<>>]))
=============================================================================
