-------------------------------- MODULE Flag --------------------------------
(* Histories of flagging steps on a small observation.                         *)
EXTENDS FlagOps, TLC, Json
CONSTANTS O, Starts, Datas, Depth
VARIABLES st, d, hist
vars == <<st, d, hist>>
Init == st \in Starts /\ d \in Datas /\ hist = <<[step |-> "start", st |-> st, q |-> [data |-> d]]>>
Do(step, q, n) == Len(hist) <= Depth /\ st' = n /\ hist' = Append(hist, [step |-> step, st |-> n, q |-> q]) /\ UNCHANGED d
DoNames == \E T \in {{1}, {2, 3}} : Do("names", [tiles |-> SetToSortedSeq(T)], Names(O, st, T))
DoBasic == \E lo \in {0, 2}, hi \in {0, 1}, T \in {{}, {3}} : lo * hi = 0 /\
             LET q == [lo |-> lo, hi |-> hi, tiles |-> SetToSortedSeq(T), edges |-> FALSE, data |-> d] IN Do("basic", q, Basic(O, st, q))
DoUpdate == Do("update", [tiles |-> <<>>], Update(O, st))
Next == DoNames \/ DoBasic \/ DoUpdate
Spec == Init /\ [][Next]_vars
Last == hist[Len(hist)]
(* masks only ever lose units; weights only rise where basic flagging gives channels back *)
MasksShrink == [][NeverBack(st, st')]_vars
WeightsShrink == [][hist'[Len(hist')].step # "basic" => NoRise(O, st, st')]_vars
GivenBack == [][\A p \in Pols(O), c \in Chans(O), r \in Rows(O) : (Live(st'.w, p, c, r) /\ ~Live(st.w, p, c, r)) =>
                  (hist'[Len(hist')].step = "basic" /\ d[p][c][r] # 0 /\ (\E e \in Chans(O) : Live(st.w, p, e, r)))]_vars
(* bringing weights in line is final and leaves no sample of a flagged unit; it does nothing the second time *)
UpdateClean == Last.step = "update" => (Clean(O, st) /\ Update(O, st) = st)
NamesClean == Last.step = "names" => \A p \in Pols(O), c \in Chans(O), r \in Rows(O) : OfTile(O, r) \cap Range(Last.q.tiles) # {} => ~Live(st.w, p, c, r)
BasicTiles == Last.step = "basic" => \A t \in Range(Last.q.tiles) : st.tu[t] = 0
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson([h |-> hist]))
=============================================================================
