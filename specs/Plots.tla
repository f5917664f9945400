-------------------------------- MODULE Plots --------------------------------
(* Laying out tiles on pages one after another, and colouring values one      *)
(* after another: every tile gets a panel of its own, in order, and colours   *)
(* keep the order of the values and stay in the table.                        *)
EXTENDS PlotsOps, TLC, Json
CONSTANTS MaxTiles, Lows, Highs, Values
VARIABLES pc, laid, x, seen
vars == <<pc, laid, x, seen>>
Scales == {[lo |-> a, hi |-> b, missing |-> m, mval |-> -99] : a \in Lows, b \in {h \in Highs : TRUE}, m \in BOOLEAN}
Init == /\ laid = <<>> /\ seen = <<>>
        /\ \/ pc = "pages" /\ x = [lo |-> 0, hi |-> 1, missing |-> FALSE, mval |-> -99]
           \/ pc = "colours" /\ x \in {s \in Scales : s.lo < s.hi}
Lay == pc = "pages" /\ Len(laid) < MaxTiles /\ laid' = Append(laid, <<PageOf(Len(laid) + 1), PanelOf(Len(laid) + 1)>>) /\ UNCHANGED <<pc, x, seen>>
Colour == pc = "colours" /\ Len(seen) < 2 /\ (\E v \in Values : seen' = Append(seen, v)) /\ UNCHANGED <<pc, x, laid>>
Next == Lay \/ Colour
Spec == Init /\ [][Next]_vars
OwnPanel == Len(laid) > 1 => LET a == laid[Len(laid)] b == laid[Len(laid) - 1] IN
              (a[1] = b[1] /\ a[2] = b[2] + 1) \/ (a[1] = b[1] + 1 /\ a[2] = 1 /\ b[2] = PerPage)
Fits == \A i \in {Len(laid)} \ {0} : laid[i][1] <= PageCount(Len(laid)) /\ laid[i][2] \in 1..PerPage /\ (laid[i][1] - 1) * PerPage + laid[i][2] = i
InTable == \A i \in DOMAIN seen : LET q == LinearColour(x, seen[i]) IN QLe(<<0, 1>>, q) /\ QLe(q, <<255, 1>>) /\ (x.missing => QLe(<<1, 1>>, q))
Ordered == Len(seen) = 2 /\ seen[1] <= seen[2] => QLe(LinearColour(x, seen[1]), LinearColour(x, seen[2]))
Distinct == Len(seen) = 2 /\ seen[1] < seen[2] /\ {seen[1], seen[2]} \subseteq x.lo..x.hi => QLt(LinearColour(x, seen[1]), LinearColour(x, seen[2]))
Emit == pc = "colours" /\ Len(seen) = 2 => PrintT("@@" \o ToJson([x |-> x, vals |-> seen, colours |-> <<LinearColour(x, seen[1]), LinearColour(x, seen[2])>>]))
=============================================================================
