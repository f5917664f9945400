------------------------------ MODULE ModelOps ------------------------------
(* Aligning model visibilities with the data.  A row is <<a, b, t>>: the pair   *)
(* of tiles in the order of the correlation and the time in hundredths of a     *)
(* second.  x.d are the rows of the data, x.m those of the model, x.names the   *)
(* names of all tiles of the array (index -> name), x.res the integration time. *)
(* The data may be given by name, the model is by index.                        *)
EXTENDS Integers, Sequences, FiniteSets, Seqs, TLC
Tiles(rows) == UNION {{rows[i][1], rows[i][2]} : i \in DOMAIN rows}
Times(rows) == {rows[i][3] : i \in DOMAIN rows}
Named(x) == \E a \in Tiles(x.d) : a > Len(x.names)
Index(x, a) == IF Named(x) THEN CHOOSE i \in DOMAIN x.names : x.names[i] = a ELSE a
Dist(t, u) == AbsI(t - u)
(* the model times nearest to t when the model is shifted by s (a rational)     *)
NearS(x, t, s) == LET D(u) == AbsI((t - u) * s[2] - s[1])
                      best == MinOf({D(u) : u \in Times(x.m)})
                  IN {u \in Times(x.m) : D(u) <= best + (IF s[1] = 0 THEN 0 ELSE s[2])}
None == <<0, 1>>
Near(x, t) == NearS(x, t, None)
NearOne(x, t) == CHOOSE u \in Near(x, t) : TRUE
(* the consistent offset: the mean distance to the nearest model time           *)
OffSum(x) == LET f == [t \in Times(x.d) |-> t - NearOne(x, t)] IN SumF(f, Times(x.d))
NT(x) == Cardinality(Times(x.d))
Believed(x) == 4 * AbsI(OffSum(x)) >= 100 * NT(x) /\ 2 * AbsI(OffSum(x)) <= x.res * NT(x)
Shift(x) == IF Believed(x) THEN <<OffSum(x), NT(x)>> ELSE None
(* too close to call: a tie, or an offset within rounding of a limit            *)
EdgeNow(x) == \/ \E t \in Times(x.d) : Cardinality(Near(x, t)) > 1
              \/ AbsI(4 * AbsI(OffSum(x)) - 100 * NT(x)) <= 4 * NT(x) /\ 4 * AbsI(OffSum(x)) # 100 * NT(x)
              \/ AbsI(2 * AbsI(OffSum(x)) - x.res * NT(x)) <= 2 * NT(x)
Edge(x) == EdgeNow(x) \/ \E t \in Times(x.d) : Cardinality(NearS(x, t, Shift(x))) > 1
Pick(x) == LET s == Shift(x) IN [t \in Times(x.d) |-> CHOOSE u \in NearS(x, t, s) : TRUE]
Clash(x) == Cardinality(Range(Pick(x))) # NT(x)
Lacking(x) == {Index(x, a) : a \in Tiles(x.d)} \ Tiles(x.m)
Refused(x) == Clash(x) \/ Lacking(x) # {}
(* auto-correlations are only used when the model has all of them               *)
Autos(x) == \A t \in Times(x.m), a \in Tiles(x.m) : \E i \in DOMAIN x.m : x.m[i] = <<a, a, t>>
(* the model row of every data row, 0 without one                               *)
Source(x, pick, autos, i) ==
  LET r == x.d[i]
      S == {j \in DOMAIN x.m : x.m[j] = <<Index(x, r[1]), Index(x, r[2]), pick[r[3]]>>}
  IN IF S = {} \/ (r[1] = r[2] /\ ~autos) THEN 0 ELSE CHOOSE j \in S : TRUE
Sources(x) == LET p == Pick(x) au == Autos(x) IN [i \in DOMAIN x.d |-> Source(x, p, au, i)]
MVerdict(rec) ==
  LET x == rec.x IN
  IF Edge(x) THEN {}
  ELSE IF Refused(x) THEN (IF rec.how = "exit" THEN {} ELSE {"refused"})
  ELSE IF rec.how # "ok" THEN {"returns"}
  ELSE (IF Len(rec.src) # Len(x.d) THEN {"rows"}
        ELSE LET s == Sources(x) IN
             {IF x.d[i][1] = x.d[i][2] THEN "auto" ELSE "cross" : i \in {j \in DOMAIN s : rec.src[j] # s[j]}})
       \cup (IF rec.kept THEN {} ELSE {"inputs-kept"})
(* the import: every sample of every polarisation, and the rows, as in the file *)
LoadVerdict(rec) == IF rec.how # rec.want THEN {"returns"} ELSE IF rec.how # "ok" THEN {} ELSE {c \in {"samples", "rows"} : ~rec[c]}
=============================================================================
