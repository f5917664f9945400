------------------------------ MODULE MatchOps ------------------------------
(* Value matching over one array, or two parallel arrays, and unique runs.   *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
(* r: [a1, two, a2, v]; positions are 0-based; a2 is parallel to a1 if two   *)
Matches(r) == {p \in 0..(Len(r.a1) - 1) : r.a1[p + 1] \in Range(r.v) \/ (r.two /\ r.a2[p + 1] \in Range(r.v))}
RunEnds(a) == {p \in 0..(Len(a) - 1) : p = Len(a) - 1 \/ a[p + 2] # a[p + 1]}
IsSorted(a) == \A i \in 1..(Len(a) - 1) : a[i] <= a[i + 1]
(* rec: [kind, req, ok, nomatch, res] *)
MClauses == {"returns", "no-match-result", "no-position-lost", "no-position-invented", "increasing", "run-ends"}
MHolds(c, rec) ==
  LET got == {rec.res[i] : i \in 1..Len(rec.res)} IN
  CASE c = "returns" -> rec.ok
    [] c = "no-match-result" -> rec.ok /\ rec.kind = "match" => (rec.nomatch <=> Matches(rec.req) = {})
    [] c = "no-position-lost" -> rec.ok /\ rec.kind = "match" /\ ~rec.nomatch => Matches(rec.req) \subseteq got
    [] c = "no-position-invented" -> rec.ok /\ rec.kind = "match" => got \subseteq Matches(rec.req)
    [] c = "increasing" -> rec.ok => \A i \in 1..(Len(rec.res) - 1) : rec.res[i] < rec.res[i + 1]
    [] c = "run-ends" -> rec.ok /\ rec.kind = "uniq" => got = RunEnds(rec.req.a1)
MVerdict(rec) == {c \in MClauses : ~MHolds(c, rec)}
=============================================================================
