------------------------------ MODULE StoreOps ------------------------------
(* What is saved to the HDF5 store is what is loaded back.                    *)
(* A value is a record whose field t says what it is:                         *)
(*   none | num(c, n) | str(s) | path(s) | arr(c, shape, n) | sarr(shape, s)  *)
(*   objn(c, shape, n) numeric object array, objs(shape, s) text object array *)
(*   list(c, n) | slist(s) | rag(c, rows) | dict(k, v)                        *)
(* Numbers are <<re, im>> of rationals; an absent element is <<>> in n and    *)
(* "<none>" in s.  c is one of bool int float complex.                        *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
NaNc(c) == IF c = "complex" THEN <<<<0, 0>>, <<0, 0>>>> ELSE <<<<0, 0>>, <<0, 1>>>>
Fill(c, n) == [i \in 1..Len(n) |-> IF n[i] = <<>> THEN NaNc(c) ELSE n[i]]
FillS(s) == [i \in 1..Len(s) |-> IF s[i] = "<none>" THEN "" ELSE s[i]]
Wider(c) == IF c = "complex" THEN "complex" ELSE "float"
HasGap(n) == \E i \in 1..Len(n) : n[i] = <<>>
RECURSIVE Loaded(_)
(* what loading gives for a saved value *)
Loaded(x) ==
  CASE x.t = "arr" /\ x.shape = <<>> -> [t |-> "num", c |-> x.c, n |-> x.n]
    [] x.t = "path" -> [t |-> "str", s |-> x.s]
    [] x.t = "objn" -> [t |-> "arr", c |-> Wider(x.c), shape |-> x.shape, n |-> Fill(Wider(x.c), x.n)]
    [] x.t = "objs" -> [t |-> "sarr", shape |-> x.shape, s |-> FillS(x.s)]
    [] x.t = "list" -> [t |-> "arr", c |-> IF HasGap(x.n) \/ Len(x.n) = 0 THEN Wider(x.c) ELSE x.c, shape |-> <<Len(x.n)>>, n |-> Fill(Wider(x.c), x.n)]
    [] x.t = "slist" -> [t |-> "sarr", shape |-> <<Len(x.s)>>, s |-> FillS(x.s)]
    [] x.t = "rag" -> [t |-> "rag", c |-> x.c, rows |-> [i \in 1..Len(x.rows) |-> Fill(x.c, x.rows[i])]]
    [] x.t = "dict" -> [t |-> "dict", k |-> x.k, v |-> [i \in 1..Len(x.v) |-> Loaded(x.v[i])]]
    [] OTHER -> x
(* a file that holds one array and nothing else is read as that array; a dataset saved under a name likewise *)
File(x, name) == IF x.t = "dict" THEN (IF Len(x.v) = 1 /\ Loaded(x.v[1]).t \in {"arr", "sarr", "rag"} THEN Loaded(x.v[1]) ELSE Loaded(x))
                 ELSE Loaded(x)
(* a lazily opened file shows the same tree, never collapsed *)
Lazy(x, name) == IF x.t = "dict" THEN Loaded(x) ELSE [t |-> "dict", k |-> <<name>>, v |-> <<Loaded(x)>>]
SameNums(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : QEq(a[i][1], b[i][1]) /\ QEq(a[i][2], b[i][2])
RECURSIVE Same(_, _)
Same(a, b) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "none" -> TRUE
         [] a.t = "str" -> a.s = b.s
         [] a.t = "num" -> a.c = b.c /\ SameNums(a.n, b.n)
         [] a.t = "arr" -> a.c = b.c /\ a.shape = b.shape /\ SameNums(a.n, b.n)
         [] a.t = "sarr" -> a.shape = b.shape /\ a.s = b.s
         [] a.t = "rag" -> a.c = b.c /\ Len(a.rows) = Len(b.rows) /\ \A i \in 1..Len(a.rows) : SameNums(a.rows[i], b.rows[i])
         [] a.t = "dict" -> a.k = b.k /\ \A i \in 1..Len(a.v) : Same(a.v[i], b.v[i])
         [] OTHER -> FALSE
(* a history is a sequence of steps
     save(f, x, name, ok, kept)   kept: the argument is unaltered afterwards
     load(f, ok, got) | lazy(f, ok, got) *)
RECURSIVE Upto(_, _, _)
Upto(h, i, f) == IF i = 0 THEN 0 ELSE IF h[i].op = "save" /\ h[i].f = f THEN i ELSE Upto(h, i - 1, f)
StClauses == {"save-succeeds", "argument-kept", "load-succeeds", "same-value", "lazy-same-value"}
StHolds(c, rec) ==
  LET h == rec.h IN
  CASE c = "save-succeeds" -> \A i \in 1..Len(h) : h[i].op = "save" => h[i].ok
    [] c = "argument-kept" -> \A i \in 1..Len(h) : h[i].op = "save" => h[i].kept
    [] c = "load-succeeds" -> \A i \in 1..Len(h) : h[i].op \in {"load", "lazy"} => h[i].ok
    [] c = "same-value" -> \A i \in 1..Len(h) : h[i].op = "load" /\ h[i].ok =>
         LET j == Upto(h, i, h[i].f) IN j > 0 => Same(File(h[j].x, h[j].name), h[i].got)
    [] c = "lazy-same-value" -> \A i \in 1..Len(h) : h[i].op = "lazy" /\ h[i].ok =>
         LET j == Upto(h, i, h[i].f) IN j > 0 => Same(Lazy(h[j].x, h[j].name), h[i].got)
StVerdict(rec) == {c \in StClauses : ~StHolds(c, rec)}
=============================================================================
