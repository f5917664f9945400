-------------------------------- MODULE Store --------------------------------
(* The store: files are replaced as a whole by a save and read by loads.       *)
EXTENDS StoreOps, TLC, Json
CONSTANTS Files, Depth, Pick
VARIABLES disk, h
vars == <<disk, h>>
N(k) == <<<<k, 1>>, <<0, 1>>>>
I(k) == [t |-> "num", c |-> "int", n |-> <<N(k)>>]
D(k, v) == [t |-> "dict", k |-> k, v |-> v]
A(c, sh, ks) == [t |-> "arr", c |-> c, shape |-> sh, n |-> [i \in 1..Len(ks) |-> N(ks[i])]]
Trees == <<
  A("int", <<3>>, <<4, 5, 6>>),
  A("float", <<2, 2>>, <<1, 2, 3, 4>>),
  D(<<"a">>, <<[t |-> "none"]>>),
  D(<<"a">>, <<I(7)>>),
  D(<<"a">>, <<A("int", <<2>>, <<8, 9>>)>>),
  D(<<"a", "b">>, <<[t |-> "str", s |-> "x y"], [t |-> "none"]>>),
  D(<<"g">>, <<D(<<"p">>, <<A("bool", <<2>>, <<1, 0>>)>>)>>),
  D(<<"b", "c">>, <<D(<<"b">>, <<[t |-> "none"]>>), [t |-> "slist", s |-> <<"u", "vv", "<none>">>]>>),
  D(<<>>, <<>>) >>
Init == disk = [f \in Files |-> 0] /\ h = <<>>
Save(f, i) == disk' = [disk EXCEPT ![f] = i] /\ h' = Append(h, [op |-> "save", f |-> f, x |-> Trees[i], name |-> "data"])
Load(f) == disk[f] # 0 /\ h' = Append(h, [op |-> "load", f |-> f, got |-> File(Trees[disk[f]], "data")]) /\ UNCHANGED disk
Open(f) == disk[f] # 0 /\ h' = Append(h, [op |-> "lazy", f |-> f, got |-> Lazy(Trees[disk[f]], "data")]) /\ UNCHANGED disk
Next == Len(h) < Depth /\ \E f \in Files : (\E i \in Pick : Save(f, i)) \/ Load(f) \/ Open(f)
Spec == Init /\ [][Next]_vars
(* the reading of a history given in StoreOps agrees with the disk *)
HistoryIsDisk == \A f \in Files : LET j == Upto(h, Len(h), f) IN
  IF j = 0 THEN disk[f] = 0 ELSE disk[f] # 0 /\ h[j].x = Trees[disk[f]]
(* loading twice, or after loading another file, gives the same *)
LoadsRepeat == \A i, j \in 1..Len(h) : (i < j /\ h[i].op = "load" /\ h[j].op = "load" /\ h[i].f = h[j].f
   /\ Upto(h, i, h[i].f) = Upto(h, j, h[i].f)) => h[i].got = h[j].got
(* what was loaded can be saved and loaded again without further change *)
Stable == \A i \in DOMAIN Trees : Same(Loaded(Loaded(Trees[i])), Loaded(Trees[i]))
Emit == Len(h) = Depth /\ h[Depth].op # "save" => PrintT("@@" \o ToJson([h |-> h]))
=============================================================================
