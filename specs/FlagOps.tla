------------------------------- MODULE FlagOps -------------------------------
(* Flagging.  On top of a layout (GridOps), an observation has np              *)
(* polarisations, ta/tb (tiles of each row), tm (integration of each row),     *)
(* and the state of flagging is  st = [w (pol, channel, row), tu, fu, mu       *)
(* (usable tiles, channels, integrations)].                                    *)
EXTENDS GridOps
Pols(o) == 1..o.np
Chans(o) == DOMAIN o.f
Rows(o) == DOMAIN o.u
OfTile(o, b) == {o.ta[b], o.tb[b]}
Zero(o, st, Out(_, _, _)) == [st EXCEPT !.w = [p \in Pols(o) |-> [c \in Chans(o) |-> [b \in Rows(o) |-> IF Out(p, c, b) THEN 0 ELSE st.w[p][c][b]]]]]
(* --- flagging tiles by name: T the tiles whose names were given --- *)
Names(o, st, T) == Zero(o, st, LAMBDA p, c, b : OfTile(o, b) \cap T # {})
(* --- basic flagging; q = [lo, hi (channel values, 0: no limit), tiles, edges (also flag channel edges), data (pol, channel, row: 0 for no data)] --- *)
EdgeSet(n) == LET avg == 768 \div n  wid == (2 + avg - 1) \div avg  coarse == 32 \div avg
              IN {c \in 1..n : Min2((c - 1) % coarse, (coarse - 1) - ((c - 1) % coarse)) < wid}
CutChans(o, q) == {c \in Chans(o) : (q.lo # 0 /\ o.f[c] < q.lo) \/ (q.hi # 0 /\ o.f[c] > q.hi)} \cup (IF q.edges THEN EdgeSet(Len(o.f)) ELSE {})
Live(w, p, c, b) == w[p][c][b] > 0
(* channels without any usable sample in pre-processing are given back to rows that are in use, where there are data *)
GiveBack(o, q, st) == [st EXCEPT !.w = [p \in Pols(o) |-> [c \in Chans(o) |-> [b \in Rows(o) |->
     IF (\A r \in Rows(o) : ~Live(st.w, p, c, r)) /\ (\E d \in Chans(o) : Live(st.w, p, d, b)) /\ q.data[p][c][b] # 0 THEN 1 ELSE st.w[p][c][b]]]]]
Basic(o, st, q) ==
  LET T == Range(q.tiles)
      s1 == Zero(o, st, LAMBDA p, c, b : c \in CutChans(o, q) \/ OfTile(o, b) \cap T # {})
      fu1 == [c \in Chans(o) |-> IF q.edges THEN (IF \A p \in Pols(o) : \E b \in Rows(o) : Live(s1.w, p, c, b) THEN 1 ELSE 0) ELSE 1]
      tu1 == [t \in DOMAIN st.tu |-> IF \A p \in Pols(o) : \E c \in Chans(o), b \in Rows(o) : t \in OfTile(o, b) /\ Live(s1.w, p, c, b) THEN 1 ELSE 0]
      s2 == IF q.edges THEN s1 ELSE GiveBack(o, q, s1)
      s3 == Zero(o, s2, LAMBDA p, c, b : st.mu[o.tm[b]] = 0)
  IN [s3 EXCEPT !.tu = [t \in DOMAIN st.tu |-> Min2(st.tu[t], tu1[t])], !.fu = [c \in Chans(o) |-> Min2(st.fu[c], fu1[c])]]
(* --- bringing the weights in line with masks and grid --- *)
Usable(o, st, c, b) == st.fu[c] # 0 /\ (\A t \in OfTile(o, b) : st.tu[t] # 0) /\ st.mu[o.tm[b]] # 0
OnGrid(o, c, b) == Fits(o, c, b) /\ LenOk(o, c, b)
Update(o, st) == Zero(o, st, LAMBDA p, c, b : ~(Usable(o, st, c, b) /\ OnGrid(o, c, b)))
NVis(o, st) == Cardinality({cb \in Chans(o) \X Rows(o) : Live(st.w, 1, cb[1], cb[2])})
NFlagged(m) == Cardinality({i \in DOMAIN m : m[i] = 0})
(* --- outlier flagging: classes of tiles, channels, integrations (0 ordinary, anything else an outlier or dead); med is the middle channel value --- *)
LenCut(o, b, med) == LET d == med * med * Len2(o, b) IN d < o.mn * o.mn \/ d > o.mx * o.mx
Outlier(o, st, k, med) ==
  LET s1 == Zero(o, st, LAMBDA p, c, b : LenCut(o, b, med) \/ k.f[c] # 0 \/ k.m[o.tm[b]] # 0 \/ \E t \in OfTile(o, b) : k.t[t] # 0)
  IN [s1 EXCEPT !.tu = [t \in DOMAIN st.tu |-> IF k.t[t] # 0 THEN 0 ELSE st.tu[t]], !.fu = [c \in Chans(o) |-> IF k.f[c] # 0 THEN 0 ELSE st.fu[c]]]
(* --- flagging from the gains leaves the weights alone --- *)
Gains(st, k, withf) == [st EXCEPT !.tu = [t \in DOMAIN st.tu |-> IF k.t[t] # 0 THEN 0 ELSE st.tu[t]],
                                  !.fu = [c \in DOMAIN st.fu |-> IF withf /\ k.f[c] # 0 THEN 0 ELSE st.fu[c]]]
(* --- guarantees between a state and its successor --- *)
NeverBack(a, b) == /\ \A t \in DOMAIN a.tu : a.tu[t] = 0 => b.tu[t] = 0
                   /\ \A c \in DOMAIN a.fu : a.fu[c] = 0 => b.fu[c] = 0
                   /\ \A m \in DOMAIN a.mu : a.mu[m] = 0 => b.mu[m] = 0
NoRise(o, a, b) == \A p \in Pols(o), c \in Chans(o), r \in Rows(o) : Live(b.w, p, c, r) => Live(a.w, p, c, r)
Clean(o, st) == \A p \in Pols(o), c \in Chans(o), r \in Rows(o) : Live(st.w, p, c, r) => Usable(o, st, c, r)

(* ---- judging one recorded step: rec = [o, a (before), b (after), step, ...] ---- *)
Expect(rec) == LET o == rec.o  a == rec.a IN
  CASE rec.step = "names" -> Names(o, a, Range(rec.q.tiles))
    [] rec.step = "basic" -> Basic(o, a, rec.q)
    [] rec.step = "update" -> Update(o, a)
    [] rec.step = "outlier" -> Outlier(o, a, rec.k, rec.med)
    [] rec.step = "gains" -> Gains(a, rec.k, rec.withf)
FClauses == {"returns", "flagged-not-zero", "untouched-changed", "tiles", "channels", "times", "counts", "n_vis", "never-back"}
FHolds(k, rec) ==
  LET o == rec.o  a == rec.a  b == rec.b  e == Expect(rec) IN
  IF k = "returns" THEN rec.ok ELSE IF ~rec.ok THEN TRUE ELSE
  CASE k = "flagged-not-zero" -> \A p \in Pols(o), c \in Chans(o), r \in Rows(o) : ~Live(e.w, p, c, r) => ~Live(b.w, p, c, r)
    [] k = "untouched-changed" -> \A p \in Pols(o), c \in Chans(o), r \in Rows(o) : Live(e.w, p, c, r) => b.w[p][c][r] = e.w[p][c][r]
    [] k = "tiles" -> b.tu = e.tu
    [] k = "channels" -> b.fu = e.fu
    [] k = "times" -> b.mu = e.mu
    [] k = "counts" -> rec.step \in {"basic", "update"} => (rec.nt = NFlagged(b.tu) /\ rec.nf = NFlagged(b.fu) /\ rec.nm = NFlagged(b.mu))
    [] k = "n_vis" -> rec.step \in {"update", "outlier"} => rec.nv = NVis(o, e)
    [] k = "never-back" -> NeverBack(a, b)
FVerdict(rec) == {k \in FClauses : ~FHolds(k, rec)}
UVerdict(rec) == {k \in {"returns", "flagged-not-zero", "untouched-changed", "n_vis"} : ~FHolds(k, rec)}
=============================================================================
