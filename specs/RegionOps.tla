------------------------------ MODULE RegionOps ------------------------------
(* Region growing.  An image is a sequence of R*C values in row order; UNDEF  *)
(* marks an undefined pixel.  R = 1 is a one-dimensional image.               *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
UNDEF == 99999
NONE == 88888
Pix(g) == 0..(g.R * g.C - 1)
Row(g, p) == p \div g.C
Col(g, p) == p % g.C
Border(g) == {p \in Pix(g) : (g.R > 1 /\ (Row(g, p) = 0 \/ Row(g, p) = g.R - 1)) \/ Col(g, p) = 0 \/ Col(g, p) = g.C - 1}
Neigh(g, p) == {q \in Pix(g) : AbsI(Row(g, p) - Row(g, q)) + AbsI(Col(g, p) - Col(g, q)) = 1}
SeedVals(g) == {g.img[s + 1] : s \in Range(g.seeds)}
Low(g) == IF g.low = NONE THEN MinOf(SeedVals(g)) ELSE g.low
High(g) == IF g.high = NONE THEN MaxOf(SeedVals(g)) ELSE g.high
Within(g) == {p \in Pix(g) : g.img[p + 1] # UNDEF /\ Low(g) <= g.img[p + 1] /\ g.img[p + 1] <= High(g)}
(* seeds that can grow: within the thresholds and not on the border *)
Roots(g) == (Range(g.seeds) \cap Within(g)) \ Border(g)
Grow(g, S, W) == S \cup (W \cap UNION {Neigh(g, p) : p \in S})
RECURSIVE Fix(_, _, _)
Fix(g, S, W) == LET T == Grow(g, S, W) IN IF T = S THEN S ELSE Fix(g, T, W)
(* connectivity may run through the border, the border itself is not returned *)
Region(g) == Fix(g, Roots(g), Within(g)) \ Border(g)
RClauses == {"returns", "nothing-found", "no-pixel-lost", "no-pixel-invented", "each-once"}
RHolds(c, rec) ==
  LET reg == Region(rec.g)  got == Range(rec.res) IN
  CASE c = "returns" -> rec.ok
    [] c = "nothing-found" -> rec.ok => (rec.none <=> reg = {})
    [] c = "no-pixel-lost" -> rec.ok /\ ~rec.none => reg \subseteq got
    [] c = "no-pixel-invented" -> rec.ok => got \subseteq reg
    [] c = "each-once" -> rec.ok => Len(rec.res) = Cardinality(got)
RVerdict(rec) == {c \in RClauses : ~RHolds(c, rec)}
=============================================================================
