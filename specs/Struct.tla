-------------------------------- MODULE Struct -------------------------------
(* Conversion of a value by rewriting: any one part whose own parts are done is *)
(* converted at a time, in any order.  Nothing is lost or moved on the way, and *)
(* the order does not matter.                                                   *)
EXTENDS StructOps, TLC, Json
CONSTANTS Pairs, Quads
VARIABLES x0, x
vars == <<x0, x>>
RECURSIVE Steps(_)
Steps(t) ==
  CASE Done(t) -> {}
    [] t.k \in {"num", "txt", "nul"} -> {Node(t)}
    [] t.k = "ptr" -> IF Done(t.v) THEN {Node(t)} ELSE {[t EXCEPT !.v = y] : y \in Steps(t.v)}
    [] t.k = "ptrs" -> IF \A i \in DOMAIN t.v : Done(t.v[i]) THEN {Node(t)}
                       ELSE UNION {{[t EXCEPT !.v[i] = y] : y \in Steps(t.v[i])} : i \in DOMAIN t.v}
    [] t.k = "rec" -> IF \A r \in DOMAIN t.v : \A j \in DOMAIN t.f : Done(t.v[r][j]) THEN {Node(t)}
                      ELSE UNION {{[t EXCEPT !.v[r][j] = y] : y \in Steps(t.v[r][j])} : r \in DOMAIN t.v, j \in DOMAIN t.f}
(* the content in reading order: structures column by column *)
RECURSIVE Cat(_)
Cat(s) == IF Len(s) = 0 THEN <<>> ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Content(_)
Content(t) ==
  CASE t.k = "num" -> [i \in DOMAIN t.v |-> ToString(t.v[i])]
    [] t.k = "txt" -> [i \in DOMAIN t.v |-> ToString(t.v[i])]
    [] t.k \in {"leaf", "text"} -> <<ToString(t.x)>>
    [] t.k \in {"nul", "nan"} -> <<"nan">>
    [] t.k = "ptr" -> Content(t.v)
    [] t.k \in {"ptrs", "list"} -> Cat([i \in DOMAIN t.v |-> Content(t.v[i])])
    [] t.k = "rec" -> Cat([j \in DOMAIN t.f |-> Cat([r \in DOMAIN t.v |-> Content(t.v[r][j])])])
    [] t.k = "dict" -> Cat([j \in DOMAIN t.f |-> Content(t.v[j])])
(* the values looked at: o tells the numbers apart *)
Num(ty, d, o) == [k |-> "num", ty |-> ty, d |-> d, v |-> [i \in 1..Prod(d) |-> <<10 * o + i, IF ty = "dcomplex" THEN i ELSE 0>>]]
Txt(d, s) == [k |-> "txt", d |-> d, v |-> s]
Nul == [k |-> "nul"]
Ptr(v) == [k |-> "ptr", v |-> v]
Ptrs(d, v) == [k |-> "ptrs", d |-> d, v |-> v]
Rec(f, v) == [k |-> "rec", f |-> f, v |-> v]
Forms == <<"f", "f2", "f3", "f1", "f12", "f22", "i", "i2", "c2", "t", "te", "t2", "t22", "nul", "s", "s2">>
At(form, o) ==
  CASE form = "f" -> Num("float", <<>>, o) [] form = "f2" -> Num("double", <<2>>, o) [] form = "f3" -> Num("double", <<3>>, o)
    [] form = "f1" -> Num("float", <<1>>, o) [] form = "f12" -> Num("double", <<1, 2>>, o) [] form = "f22" -> Num("double", <<2, 2>>, o)
    [] form = "i" -> Num("int", <<>>, o) [] form = "i2" -> Num("long", <<2>>, o) [] form = "c2" -> Num("dcomplex", <<2>>, o)
    [] form = "t" -> Txt(<<>>, <<ToString(o)>>) [] form = "te" -> Txt(<<>>, <<"">>)
    [] form = "t2" -> Txt(<<2>>, <<ToString(o), "">>) [] form = "t22" -> Txt(<<2, 2>>, <<"", ToString(o), "b", "c">>)
    [] form = "nul" -> Nul
    [] form = "s" -> Rec(<<"p">>, <<<<Num("int", <<>>, o)>>>>)
    [] form = "s2" -> Rec(<<"p", "q">>, <<<<Num("int", <<>>, o), Txt(<<>>, <<"u">>)>>, <<Num("int", <<>>, o + 5), Txt(<<>>, <<"">>)>>>>)
F == Range(Forms)
Held(v) == IF v.k = "nul" THEN Nul ELSE Ptr(v)
Base == {At(f, 1) : f \in F} \cup {Held(At(f, 1)) : f \in F}
Couples == {<<f, g>> : f \in Pairs, g \in Pairs}
Points == {Ptrs(<<2>>, <<At(c[1], 1), At(c[2], 2)>>) : c \in Couples} \cup {Ptrs(<<1>>, <<At(f, 1)>>) : f \in Pairs}
          \cup {Ptrs(<<2, 2>>, <<At(q[1], 1), At(q[2], 2), At(q[1], 3), At(q[3], 4)>>) : q \in {<<f, g, h>> : f \in Quads, g \in Quads, h \in Quads}}
Rows == {Rec(<<"a", "b">>, <<<<At(c[1], 1), Held(At(c[2], 2))>>>>) : c \in Couples}
        \cup {Rec(<<"a">>, <<<<At(f, 1)>>, <<At(f, 2)>>>>) : f \in F \ {"nul"}}
        \cup {Rec(<<"a">>, <<<<Held(At(c[1], 1))>>, <<Held(At(c[2], 2))>>>>) : c \in Couples}
Deep == {Ptrs(<<2>>, <<Ptrs(<<2>>, <<At(f, 1), At(g, 2)>>), Ptrs(<<2>>, <<At(f, 3), At(h, 4)>>)>>) : f \in Quads, g \in Quads, h \in Quads}
        \cup {Rec(<<"a">>, <<<<Ptrs(<<2>>, <<At(f, 1), At(g, 2)>>)>>, <<Ptrs(<<2>>, <<At(f, 3), At(h, 4)>>)>>>>) : f \in Quads, g \in Quads, h \in Quads}
        \cup {Rec(<<"a">>, <<<<Rec(<<"b">>, <<<<At(f, 1)>>>>)>>, <<Rec(<<"b">>, <<<<At(f, 2)>>>>)>>>>) : f \in F \ {"nul"}}
        \cup {Rec(<<"a", "b">>, <<<<Rec(<<"b">>, <<<<At(f, 1)>>, <<At(f, 2)>>>>), Num("byte", <<2>>, 7)>>>>) : f \in F \ {"nul"}}
Init == /\ \E v \in Base \cup Points \cup Rows \cup Deep : x0 = Rec(<<"v">>, <<<<v>>>>)
        /\ x = x0
Next == x' \in Steps(x) /\ UNCHANGED x0
Spec == Init /\ [][Next]_vars
Preserved == Content(x) = Content(x0)
Confluent == Done(x) => x = Conv(x0)
Always == Conv(x) = Conv(x0)
Finishes == ~Done(x) => Steps(x) # {}
Reflexive == Same(Conv(x0), Conv(x0))
Emit == Done(x) => PrintT("@@" \o ToJson([x |-> x0]))
=============================================================================
