------------------------------- MODULE Config -------------------------------
EXTENDS ConfigOps, Json
CONSTANTS Picks, Texts
VARIABLES o, phase, x
vars == <<o, phase, x>>
Theory == {0, 150, -90}
Gains == {<<>>, <<1, 1>>, <<1, 2>>}
Opts == [ra : BOOLEAN, rb : BOOLEAN, rg : BOOLEAN, he : BOOLEAN, sv : BOOLEAN, bot : {-5, 0, 56}, bpb : BOOLEAN, ik : BOOLEAN, hyper : BOOLEAN,
         mfile : BOOLEAN, mdelay : BOOLEAN, mtheory : Theory, gain : Gains]
Init == o \in Opts /\ phase = 0 /\ x = <<>>
Next == phase < 2 /\ o' = Settle(o) /\ phase' = phase + 1 /\ x' = o
Spec == Init /\ [][Next]_vars
SettledConsistent == phase >= 1 => Consistent(o)
Idempotent == phase = 2 => x = o
(* what is consistent already is left alone *)
LeftAlone == (phase = 1 /\ Consistent(x)) => o = x
(* the settings that take part in no conflict are never touched *)
OnlyConflicts == phase = 1 =>
   /\ o.ra = x.ra /\ o.he = x.he /\ o.bpb = x.bpb
   /\ (~x.ra => o.rb = x.rb /\ o.rg = x.rg) /\ (~x.he => o.sv = x.sv) /\ (~x.bpb => o.ik = x.ik)
   /\ (Modes(x) <= 1 => o.mfile = x.mfile /\ o.mdelay = x.mdelay /\ o.mtheory = x.mtheory)
   /\ (x.mtheory # 0 => o.mtheory = x.mtheory)
Hash(q) == Nb(q.ra) + 2 * Nb(q.rb) + 3 * Nb(q.rg) + 5 * Nb(q.he) + 7 * Nb(q.sv) + 11 * (q.bot + 5) + 13 * Nb(q.bpb) + 17 * Nb(q.ik)
           + 19 * Nb(q.hyper) + 23 * Nb(q.mfile) + 29 * Nb(q.mdelay) + 31 * (q.mtheory + 90) + 37 * Len(q.gain)
Emit == (phase = 0 /\ Hash(o) % 53 \in Picks) => PrintT("@@" \o ToJson(o))
(* ------------------------------------------------- writing and reading   *)
Chars == {"a", "q", "s", "h"}
Text == UNION {[1..n -> Chars] : n \in 0..Texts}
Kinds == {"flag", "num", "text", "list"}
Values(k) == CASE k = "flag" -> {[t |-> "flag", v |-> b] : b \in BOOLEAN}
               [] k = "num" -> {[t |-> "none", v |-> <<>>]} \cup {[t |-> "num", v |-> n] : n \in -2..2}
               [] k = "text" -> {[t |-> "none", v |-> <<>>]} \cup {[t |-> "text", v |-> s] : s \in Text}
               [] OTHER -> {[t |-> "list", v |-> l] : l \in UNION {[1..n -> UNION {[1..m -> Chars] : m \in 0..2}] : n \in 0..2}}
WInit == \E k \in Kinds : \E val \in Values(k) : o = [k |-> k, v |-> val] /\ phase = 0 /\ x = <<>>
WNext == phase = 0 /\ x' = WriteV(o.v) /\ phase' = 1 /\ UNCHANGED o
WSpec == WInit /\ [][WNext]_vars
RoundTrip == phase = 1 => ReadV(o.k, x) = o.v
WEmit == phase = 0 => PrintT("@@" \o ToJson(o))
=============================================================================
