------------------------------ MODULE StructOps ------------------------------
(* A value of an IDL save file is                                               *)
(*   num  [ty, d, v]  numbers <<re, im>> of a type in an array of dimensions d   *)
(*                    (slowest first; <<>>: a single number)                     *)
(*   txt  [d, v]      strings likewise                                           *)
(*   nul              a null pointer                                             *)
(*   ptr  [v]         a pointer to a value                                       *)
(*   ptrs [d, v]      an array of pointers                                       *)
(*   rec  [f, v]      an array of structures: the names, and the rows of cells   *)
(* and what Python gets is a leaf (number), text, nan, list (arr: a numeric      *)
(* array) or dict.  A list of a single element stands for the element.           *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
DoneKinds == {"leaf", "text", "nan", "list", "dict"}
Done(x) == x.k \in DoneKinds
Leaf(v) == [k |-> "leaf", x |-> v]
Text(s) == [k |-> "text", x |-> s]
Nan == [k |-> "nan"]
MkList(v) == IF Len(v) = 1 THEN v[1] ELSE [k |-> "list", v |-> v]
Prod(d) == IF Len(d) = 0 THEN 1 ELSE LET RECURSIVE P(_) P(i) == IF i = 0 THEN 1 ELSE d[i] * P(i - 1) IN P(Len(d))
RECURSIVE Nest(_, _)
Nest(d, s) ==
  IF Len(d) = 0 THEN s[1]
  ELSE LET m == Len(s) \div d[1] IN MkList([i \in 1..d[1] |-> Nest(Tail(d), SubSeq(s, (i - 1) * m + 1, i * m))])
Dict(f, v) == [k |-> "dict", f |-> f, v |-> v]
(* one node whose parts are converted already *)
Node(x) ==
  CASE x.k = "num" -> Nest(x.d, [i \in DOMAIN x.v |-> Leaf(x.v[i])])
    [] x.k = "txt" -> Nest(x.d, [i \in DOMAIN x.v |-> Text(x.v[i])])
    [] x.k = "nul" -> Nan
    [] x.k = "ptr" -> x.v
    [] x.k = "ptrs" -> Nest(x.d, x.v)
    [] x.k = "rec" -> Dict(x.f, [j \in DOMAIN x.f |-> MkList([r \in DOMAIN x.v |-> x.v[r][j]])])
RECURSIVE Conv(_)
Conv(x) ==
  CASE Done(x) -> x
    [] x.k \in {"num", "txt", "nul"} -> Node(x)
    [] x.k = "ptr" -> Conv(x.v)
    [] x.k = "ptrs" -> Node([x EXCEPT !.v = [i \in DOMAIN x.v |-> Conv(x.v[i])]])
    [] x.k = "rec" -> Node([x EXCEPT !.v = [r \in DOMAIN x.v |-> [j \in DOMAIN x.v[r] |-> Conv(x.v[r][j])]]])
(* the shape of a value that is one block of numbers, <<-1>> for any other *)
RECURSIVE Shape(_)
Block(d, v) == LET s == [i \in DOMAIN v |-> Shape(v[i])] IN
  IF \A i \in DOMAIN v : s[i] = s[1] /\ s[1] # <<-1>> THEN d \o s[1] ELSE <<-1>>
Shape(x) ==
  CASE x.k = "num" -> x.d
    [] x.k = "ptr" -> Shape(x.v)
    [] x.k = "ptrs" -> Block(x.d, x.v)
    [] OTHER -> <<-1>>
Column(x, j) == IF Len(x.v) = 1 THEN Shape(x.v[1][j]) ELSE Block(<<Len(x.v)>>, [r \in DOMAIN x.v |-> x.v[r][j]])
(* what came out (o) is what is expected (e) *)
RECURSIVE Peel(_)
Peel(o) == IF o.k = "list" /\ Len(o.v) = 1 THEN Peel(o.v[1]) ELSE o
RECURSIVE AllNan(_)
AllNan(o) == o.k = "nan" \/ (o.k = "list" /\ \A i \in DOMAIN o.v : AllNan(o.v[i]))
RECURSIVE Same(_, _)
Same(e, p) ==
  LET o == Peel(p) IN
  CASE e.k = "nan" -> AllNan(o)
    [] e.k = "leaf" -> o.k = "leaf" /\ o.x = e.x
    [] e.k = "text" -> o.k = "text" /\ o.x = e.x
    [] e.k = "list" -> o.k = "list" /\ Len(o.v) = Len(e.v) /\ \A i \in DOMAIN e.v : Same(e.v[i], o.v[i])
    [] e.k = "dict" -> /\ o.k = "dict" /\ Range(o.f) = Range(e.f) /\ Len(o.f) = Len(e.f)
                       /\ \A i \in DOMAIN e.f : \A j \in DOMAIN o.f : o.f[j] = e.f[i] => Same(e.v[i], o.v[j])
(* blocks of numbers arrive as arrays; searched through all structures that are reached as such *)
RECURSIVE Blocks(_, _)
Blocks(x, p) ==
  LET o == Peel(p) IN
  CASE x.k = "ptr" -> Blocks(x.v, o)
    [] x.k = "rec" -> o.k = "dict" => \A j \in DOMAIN x.f : \A i \in DOMAIN o.f : o.f[i] = x.f[j] =>
         LET q == Peel(o.v[i]) s == Column(x, j) IN
         IF s # <<-1>> THEN (Prod(s) > 1 => q.k = "list" /\ q.arr)
         ELSE IF Len(x.v) = 1 THEN Blocks(x.v[1][j], q) ELSE TRUE
    [] OTHER -> TRUE
TClauses == {"returns", "names", "values", "arrays"}
THolds(k, rec) ==
  LET x == rec.x  o == rec.out IN
  IF k = "returns" THEN rec.how = "ok" ELSE IF rec.how # "ok" THEN TRUE ELSE
  CASE k = "names" -> o.k = "dict" /\ Range(o.f) = Range(x.f)
    [] k = "values" -> o.k # "dict" \/ \A i \in DOMAIN x.f : \A j \in DOMAIN o.f : o.f[j] = x.f[i] => Same(Conv(x.v[1][i]), o.v[j])
    [] k = "arrays" -> Blocks(x, o)
TVerdict(rec) == {k \in TClauses : ~THolds(k, rec)}
=============================================================================
