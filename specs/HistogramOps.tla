---------------------------- MODULE HistogramOps ----------------------------
(* Meaning of a histogram request [data, min, max, bs, nb]; min/max/nb may   *)
(* be None.  Values are integers; the harness divides them by a power of     *)
(* two, so the same model covers fractional data exactly.                    *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
None == 9999
Lo(r) == IF r.min = None THEN MinOf(Range(r.data)) ELSE r.min
Hi0(r) == IF r.max = None THEN MaxOf(Range(r.data)) ELSE r.max
Hi(r) == Max2(Lo(r), Hi0(r))                \* inverted range collapses to its minimum
Size(r) == IF r.nb = None THEN <<r.bs, 1>> ELSE <<Hi0(r) - Lo(r), r.nb>>
(* requests without a meaning: nothing to take a bound from, or empty bins *)
Degenerate(r) == IF r.data = <<>> /\ (r.min = None \/ r.max = None) THEN TRUE
                 ELSE r.nb # None /\ Hi0(r) <= Lo(r)
NBins(r) == IF r.nb = None THEN (Hi(r) - Lo(r)) \div r.bs + 1 ELSE r.nb
Edge(r, b) == QAdd(<<Lo(r), 1>>, QMul(<<b, 1>>, Size(r)))
InRange(r, x) == Lo(r) <= x /\ x <= Hi(r)
(* the bin whose interval contains x; the maximum belongs to the last bin *)
BinOf(r, x) == Min2(((x - Lo(r)) * Size(r)[2]) \div Size(r)[1], NBins(r) - 1)
(* ------------------- verdict on a recorded real call -------------------- *)
(* rec: [req, ok, hist, edges, ri]                                          *)
RiShape(rec) == LET n == NBins(rec.req) IN
   /\ Len(rec.ri) >= n + 1
   /\ rec.ri[1] = n + 1
   /\ \A b \in 1..n : rec.ri[b + 1] - rec.ri[b] = rec.hist[b]
   /\ rec.ri[n + 1] = Len(rec.ri)
   /\ \A b \in 1..n : rec.hist[b] >= 0
Members(r, b) == {p - 1 : p \in {p \in 1..Len(r.data) : InRange(r, r.data[p]) /\ BinOf(r, r.data[p]) = b - 1}}
HClauses == {"returns", "bin-edges", "bin-count", "counts", "ri-shape", "ri-members", "ri-order"}
HHolds(c, rec) ==
  LET r == rec.req  n == NBins(r)  okn == rec.ok /\ Len(rec.hist) = n IN
  CASE c = "returns" -> rec.ok
    [] c = "bin-edges" -> rec.ok => Len(rec.edges) = n /\ \A i \in 1..n : QEq(rec.edges[i], Edge(r, i - 1))
    [] c = "bin-count" -> rec.ok => Len(rec.hist) = n
    [] c = "counts" -> okn => \A b \in 1..n : rec.hist[b] = Cardinality(Members(r, b))
    [] c = "ri-shape" -> okn => RiShape(rec)
    [] c = "ri-members" -> okn /\ RiShape(rec) =>
          \A b \in 1..n : {rec.ri[j] : j \in (rec.ri[b] + 1)..rec.ri[b + 1]} = Members(r, b)
    [] c = "ri-order" -> okn /\ RiShape(rec) =>
          \A b \in 1..n : \A j \in (rec.ri[b] + 1)..(rec.ri[b + 1] - 1) : rec.ri[j] < rec.ri[j + 1]
HVerdict(rec) == {c \in HClauses : ~HHolds(c, rec)}
=============================================================================
