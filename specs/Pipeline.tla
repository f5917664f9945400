------------------------------ MODULE Pipeline ------------------------------
(* Histories of driver runs over one output directory: a run may be cut at  *)
(* any stage; the next run starts from any of the checkpoints on the disk   *)
(* (or from none).  Stages are deterministic: memo maps <<stage, inputs>>   *)
(* to the position that determines its output tokens, so equal inputs give  *)
(* equal results and different inputs different ones.                       *)
EXTENDS PipelineOps, Json
CONSTANTS Cfgs, MaxRuns
VARIABLES cfg, memo, disk, runs, ref, last, phase
vars == <<cfg, memo, disk, runs, ref, last, phase>>
ABSENT == 0
Wide == {"vis", "wts", "mod", "img", "wuv", "muv"}
Out(c, idx, w) == [k \in 1..Len(w) |->
    IF w[k].i = 0 /\ w[k].n \in Wide THEN [e \in 1..c.npol |-> idx * 100 + k * 10 + e] ELSE <<idx * 100 + k * 10 + 1>>]
RECURSIVE IndexOf(_, _, _)
IndexOf(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE IndexOf(s, x, i + 1)
(* performing the first n steps of a plan *)
Do(c, st, x) ==
  LET ins == GetAll(x.env, st.r)
  IN CASE st.k = "run" ->
            LET key == <<st.s, ins>>
                at == IndexOf(x.memo, key, 1)
                idx == IF at = 0 THEN Len(x.memo) + 1 ELSE at
            IN [x EXCEPT !.env = SetAll(x.env, st.w, Out(c, idx, st.w)),
                         !.memo = IF at = 0 THEN Append(@, key) ELSE @,
                         !.ev = Append(@, [s |-> st.s, in |-> ins, out |-> Out(c, idx, st.w)])]
       [] st.k = "file" -> [x EXCEPT !.disk = (st.s :> ins) @@ @]
       [] OTHER -> [x EXCEPT !.env = SetAll(x.env, st.w, x.disk[LoadPath(c, st.s)])]
RECURSIVE Perform(_, _, _)
Perform(c, plan, x) == IF Len(plan) = 0 THEN x ELSE Perform(c, Tail(plan), Do(c, Head(plan), x))
Start(c, m, d) == [env |-> Env0(c, ABSENT), memo |-> m, disk |-> d, ev |-> <<>>]
NoSel == [ob |-> FALSE, cb |-> FALSE, gb |-> FALSE]
Sels == [ob : BOOLEAN, cb : BOOLEAN, gb : BOOLEAN]
Avail(c, d, s) == /\ s.ob => CkPath(c, "obs") \in DOMAIN d
                  /\ s.cb => CkPath(c, "calibration") \in DOMAIN d
                  /\ s.gb => CkPath(c, "gridding") \in DOMAIN d
Occ(ev, s) == Cardinality({j \in 1..Len(ev) : ev[j].s = s})
DiskList(d) == d
Rec(c, s, x, fault) == [ob |-> s.ob, cb |-> s.cb, gb |-> s.gb, ev |-> x.ev, fault |-> fault]
Empty == [p \in {} |-> <<>>]
Init == /\ cfg \in Cfgs
        /\ LET c == NoSel @@ cfg
               x == Perform(c, Plan(c), Start(c, <<>>, Empty))
           IN memo = x.memo /\ ref = [ev |-> x.ev, disk |-> x.disk]
        /\ disk = Empty /\ runs = <<>> /\ last = [ev |-> <<>>] /\ phase = "idle"
(* cut before stage number k of the plan is performed *)
Crash ==
  /\ phase = "idle" /\ Len(runs) < MaxRuns - 1
  /\ \E s \in Sels :
       /\ Avail(cfg, disk, s)
       /\ LET c == s @@ cfg
              plan == Plan(c)
          IN \E k \in {j \in 1..Len(plan) : plan[j].k = "run"} :
               LET x == Perform(c, SubSeq(plan, 1, k - 1), Start(c, memo, disk))
               IN /\ runs' = Append(runs, [sel |-> s, stage |-> plan[k].s, k |-> Occ(x.ev, plan[k].s) + 1])
                  /\ memo' = x.memo /\ disk' = x.disk /\ last' = [ev |-> x.ev]
  /\ UNCHANGED <<cfg, ref, phase>>
Finish ==
  /\ phase = "idle" /\ Len(runs) > 0
  /\ \E s \in Sels :
       /\ Avail(cfg, disk, s) /\ s # NoSel
       /\ LET c == s @@ cfg
              x == Perform(c, Plan(c), Start(c, memo, disk))
          IN /\ runs' = Append(runs, [sel |-> s, stage |-> "", k |-> 0])
             /\ memo' = x.memo /\ disk' = x.disk /\ last' = [ev |-> x.ev]
  /\ phase' = "done" /\ UNCHANGED <<cfg, ref>>
Next == Crash \/ Finish
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------ properties *)
C(x, s) == {<<x.ev[j].in, x.ev[j].out>> : j \in {k \in 1..Len(x.ev) : x.ev[k].s = s}}
ResumeSame == phase = "done" =>
   /\ \A s \in {"quickview", "healpix", "dirty"} : C(last, s) = C(ref, s)
   /\ \A p \in DOMAIN ref.disk : p \in DOMAIN disk /\ disk[p] = ref.disk[p]
NothingNew == Len(memo) = Cardinality({memo[i] : i \in 1..Len(memo)}) /\ \A j \in 1..Len(last.ev) : IndexOf(memo, <<last.ev[j].s, last.ev[j].in>>, 1) > 0
NoNewValues == (phase = "done") => \A j \in 1..Len(last.ev) : \E i \in 1..Len(ref.ev) : ref.ev[i].s = last.ev[j].s /\ ref.ev[i].in = last.ev[j].in
Performed(s) == Occ(last.ev, s) > 0
NoRecomputation == phase = "done" =>
   LET s == runs[Len(runs)].sel
   IN /\ (s.ob \/ s.cb) => \A g \in {"header", "params", "visibilities", "layout", "obs"} : ~Performed(g)
      /\ s.cb => \A g \in {"flag_basic", "weights", "model", "calibrate", "mix", "flag_vis", "noise", "deproject"} : ~Performed(g)
      /\ s.gb => ~Performed("grid") /\ ~Performed("reformat")
DiskKnown == \A p \in DOMAIN disk : p \in DOMAIN ref.disk /\ disk[p] = ref.disk[p]
Emit == phase = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, runs |-> runs]))

(* ------------------------------------ every configuration, one run each *)
PInit == /\ cfg \in Cfgs
         /\ memo = <<>> /\ disk = Empty /\ runs = <<>> /\ last = [ev |-> <<>>] /\ ref = [ev |-> <<>>] /\ phase = "idle"
PNext == /\ phase = "idle"
         /\ LET c == NoSel @@ cfg
                x == Perform(c, Plan(c), Start(c, <<>>, Empty))
            IN memo' = x.memo /\ disk' = x.disk /\ last' = [ev |-> x.ev]
         /\ phase' = "done" /\ UNCHANGED <<cfg, runs, ref>>
PSpec == PInit /\ [][PNext]_vars
Pos(s) == {j \in 1..Len(last.ev) : last.ev[j].s = s}
Times(s) == Cardinality(Pos(s))
Done == phase = "done"
(* a stage is performed exactly as often as its switch says *)
Nb(b) == IF b THEN 1 ELSE 0
Switches == Done =>
   /\ \A s \in {"header", "params", "visibilities", "layout", "obs", "psf", "model"} : Times(s) = 1
   /\ Times("deproject") = Nb(cfg.dp) /\ Times("flag_basic") = Nb(cfg.fb) /\ Times("flag_model") = Nb(cfg.fm)
   /\ Times("calibrate") = Nb(cfg.cal) /\ Times("noise") = Nb(cfg.cal) /\ Times("weights") = 1 + Nb(cfg.cal)
   /\ Times("mix") = Nb(cfg.cal /\ cfg.npol = 4) /\ Times("flag_vis") = Nb(cfg.cal /\ cfg.fv)
   /\ Times("grid") = (IF ~cfg.cs /\ Gridding(cfg) THEN cfg.npol ELSE 0)
   /\ Times("reformat") = (IF ~cfg.cs /\ Gridding(cfg) /\ cfg.npol = 4 THEN 3 ELSE 0)
   /\ Times("quickview") = Nb(~cfg.cs /\ cfg.ex) /\ Times("healpix") = Nb(~cfg.cs /\ cfg.hp)
(* everything a stage consumes was produced before it *)
Made(j) == UNION {UNION {Range(last.ev[i].out[m]) : m \in 1..Len(last.ev[i].out)} : i \in 1..(j - 1)}
Dataflow == Done => \A j \in 1..Len(last.ev) :
   \A m \in 1..Len(last.ev[j].in) : \A e \in 1..Len(last.ev[j].in[m]) :
      (last.ev[j].s = "grid" /\ m > 6) \/ last.ev[j].in[m][e] \in Made(j) \cup {ABSENT}
(* files hold values that exist, never placeholders *)
FilesKnown == Done => \A p \in DOMAIN disk : \A m \in 1..Len(disk[p]) : \A e \in 1..Len(disk[p][m]) :
      disk[p][m][e] \in Made(Len(last.ev) + 1) \cup {ABSENT}
OffIsOff == Done =>
   /\ ~cfg.so => ("metadata/" \o cfg.id \o "_obs.h5") \notin DOMAIN disk
   /\ ~cfg.sc => ("calibration/" \o cfg.id \o "_cal.h5") \notin DOMAIN disk
   /\ ~cfg.ck => CkPath(cfg, "obs") \notin DOMAIN disk /\ CkPath(cfg, "calibration") \notin DOMAIN disk /\ CkPath(cfg, "gridding") \notin DOMAIN disk
   /\ "config/run-final.yaml" \in DOMAIN disk
(* the recorded run of the specification satisfies the judgement used on    *)
(* recorded runs of the code                                                *)
DiskSeq(d) == LET RECURSIVE f(_)
                  f(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE q \in S : TRUE IN <<[p |-> p, c |-> d[p]]>> \o f(S \ {p})
              IN f(DOMAIN d)
JudgeAgrees == Done => RunVerdict(cfg, ABSENT, [ob |-> FALSE, cb |-> FALSE, gb |-> FALSE, ev |-> last.ev, fault |-> "", out |-> (IF cfg.cs THEN "exit0" ELSE "done"),
                                    disk |-> DiskSeq(disk), closed |-> TRUE], Empty) = {}
PEmit == Done => PrintT("@@" \o ToJson([cfg |-> cfg]))
=============================================================================
