------------------------------- MODULE Ingest --------------------------------
(* A correlator writes the rows of an observation one after the other into a    *)
(* stream of words; a reader takes the stream apart again, group by group and   *)
(* word by word, knowing only the lengths of the axes.                          *)
EXTENDS IngestOps, TLC, Json
CONSTANTS Ants, Times, MaxRows, Encs, NFs, NPs
VARIABLES x, params, words, g, pos, ant, vis, wgt, ph
vars == <<x, params, words, g, pos, ant, vis, wgt, ph>>
Init == /\ \E e \in Encs, nf \in NFs, np \in NPs, cp \in NPs \cup {0}, sh \in {0, 7} :
              /\ cp <= np
              /\ x = [enc |-> e, rows |-> <<>>, nf |-> nf, np |-> np, cfgpol |-> cp, shift |-> sh, dates |-> IF sh = 0 THEN 1 ELSE 2]
        /\ params = <<>> /\ words = <<>> /\ g = 1 /\ pos = 1 /\ ph = "write"
        /\ ant = <<>> /\ vis = [k \in {} |-> <<0, 0>>] /\ wgt = [k \in {} |-> 0]
Write(a, b, t) ==
  /\ ph = "write" /\ Len(x.rows) < MaxRows /\ Codable(x.enc, a) /\ Codable(x.enc, b)
  /\ LET r == Len(x.rows) + 1
         y == [x EXCEPT !.rows = Append(@, [a |-> a, b |-> b, t |-> t, d |-> r, u |-> a - b, v |-> 3 * r, w |-> -r])]
     IN /\ x' = y /\ words' = words \o Group(y, r)
        /\ params' = Append(params, IF x.enc = "pair" THEN <<a, b>> ELSE <<Code(x.enc, a, b)>>)
  /\ UNCHANGED <<g, pos, ant, vis, wgt, ph>>
Close == /\ ph = "write" /\ Len(x.rows) > 0 /\ ph' = "read" /\ UNCHANGED <<x, params, words, g, pos, ant, vis, wgt>>
(* one group: the baseline, then channel by channel, polarisation by polarisation *)
Read ==
  /\ ph = "read" /\ g <= Len(params)
  /\ ant' = Append(ant, IF x.enc = "pair" THEN params[g] ELSE Decode(params[g][1]))
  /\ LET w(f, p, c) == words[pos + ((f - 1) * x.np + p - 1) * 3 + c]
         K == (1..NPolOut(x)) \X (1..x.nf) \X {g}
     IN /\ vis' = [k \in DOMAIN vis \cup K |-> IF k \in K THEN <<w(k[2], k[1], 0), w(k[2], k[1], 1)>> ELSE vis[k]]
        /\ wgt' = [k \in DOMAIN wgt \cup K |-> IF k \in K THEN w(k[2], k[1], 2) ELSE wgt[k]]
  /\ pos' = pos + x.nf * x.np * 3 /\ g' = g + 1
  /\ UNCHANGED <<x, params, words, ph>>
Next == (\E a \in Ants, b \in Ants, t \in Times : a <= b /\ Write(a, b, t)) \/ Close \/ Read
Spec == Init /\ [][Next]_vars
End == ph = "read" /\ g > Len(params)
Codes == \A e \in {"256", "2048", "mixed"} : \A a \in Ants, b \in Ants : Codable(e, a) /\ Codable(e, b) => Decode(Code(e, a, b)) = <<a, b>>
Antennas == \A r \in DOMAIN ant : ant[r] = Ant(x, r)
Samples == \A k \in DOMAIN vis : vis[k] = Vis(x, k[1], k[2], k[3]) /\ wgt[k] = Wgt(x, k[1], k[2], k[3])
Complete == End => DOMAIN vis = (1..NPolOut(x)) \X (1..x.nf) \X (1..Len(x.rows)) /\ pos = Len(words) + 1
Once == \A k, l \in DOMAIN vis : k # l => vis[k] # vis[l]
Emit == End => PrintT("@@" \o ToJson([x |-> x]))
=============================================================================
