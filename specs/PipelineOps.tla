---------------------------- MODULE PipelineOps ----------------------------
(* The PyFHD driver as data flow.                                           *)
(*                                                                          *)
(* A value is a sequence of content tokens (one per polarisation for        *)
(* visibilities, weights, model and planes).  A run of a configuration c is *)
(* the sequence of steps Plan(c): stages ("run": reads r, writes w), files  *)
(* ("file": s is the path, r what it holds) and checkpoint loads ("load").  *)
(* Walk follows a plan over recorded stage calls: a step is done by the     *)
(* call with that name that consumed exactly the values the environment     *)
(* holds, so the order of independent stages is left open while every       *)
(* dependency is enforced.                                                  *)
EXTENDS Seqs, TLC
V(n) == [n |-> n, i |-> 0]
P(n, i) == [n |-> n, i |-> i]
K(x) == [n |-> "#", i |-> x]
B(b) == K(IF b THEN 1 ELSE 0)
Rn(s, r, w) == <<[k |-> "run", s |-> s, r |-> r, w |-> w]>>
Fl(p, r) == <<[k |-> "file", s |-> p, r |-> r, w |-> <<>>]>>
Ld(p, w) == <<[k |-> "load", s |-> p, r |-> <<>>, w |-> w]>>
If(b, s) == IF b THEN s ELSE <<>>
RECURSIVE Cat(_)
Cat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

VS(s) == [i \in 1..Len(s) |-> V(s[i])]
Obs == VS(<<"obs", "noi", "nfv">>)
ObsCk == Obs \o VS(<<"par", "vis", "wts">>)
CalCk == Obs \o VS(<<"par", "vis", "mod", "wts", "cal", "mix">>)
GridCk == Obs \o VS(<<"img", "wuv", "var", "fil", "muv">>)
Name(c) == IF c.desc = "" THEN c.id ELSE c.desc
CkPath(c, kind) == "checkpoints/" \o Name(c) \o "_" \o kind \o "_checkpoint.h5"

(* the products that metadata/calibration export writes, at the end of a    *)
(* run that stops after calibration and by quickview alike                  *)
Products(c) ==
     If(c.so, Fl("metadata/" \o c.id \o "_obs.h5", Obs))
  \o If(c.sp, Fl("metadata/" \o c.id \o "_params.h5", VS(<<"par">>)))
  \o If(c.sc /\ c.cal, Fl("calibration/" \o c.id \o "_cal.h5", VS(<<"cal", "mix">>)))
  \o If(c.sw, Fl("visibilities/" \o c.id \o "_calibrated_vis_weights.h5", VS(<<"wts">>)))
  \o If(c.sv, Fl("visibilities/" \o c.id \o "_calibrated_vis_arr.h5", VS(<<"vis">>)))
GridProducts(c) ==
  If(c.sv /\ c.rg,
     Fl("gridding/" \o c.id \o "_image_uv.h5", VS(<<"img">>))
     \o Fl("gridding/" \o c.id \o "_weights_uv.h5", VS(<<"wuv">>))
     \o Fl("gridding/" \o c.id \o "_variance_uv.h5", VS(<<"var">>))
     \o Fl("gridding/" \o c.id \o "_uniform_filter_uv.h5", VS(<<"fil">>))
     \o Fl("gridding/" \o c.id \o "_model_uv.h5", VS(<<"muv">>)))
PolName(p) == <<"XX", "YY", "XY", "YX">>[p]
(* file names of the images: the third and fourth planes are the real and   *)
(* imaginary halves of the cross polarisation                               *)
FitsName(c, p) == IF p < 3 THEN PolName(p) ELSE IF p = 3 THEN "XY_real" ELSE "XY_imag"
Images(c) ==
  Cat([q \in 1..c.npol |->
     LET fn(kind) == "fits/" \o c.id \o "_" \o kind \o "_" \o FitsName(c, q) \o ".fits"
         pic(d) == IF q < 3 THEN <<P(d, q)>> ELSE <<P(d \o (IF q = 3 THEN "r" ELSE "i"), 3)>>
     IN   Fl(fn(c.filt \o "_dirty"), pic("dty"))
       \o Fl(fn(c.filt \o "_model"), pic("dmo"))
       \o Fl(fn(c.filt \o "_residual"), pic("dty"))   \* recorded as residual + model
       \o Fl(fn("beam"), <<>>)
       \o Fl(fn("uv_weights"), IF q < 3 THEN <<P("wuv", q)>> ELSE <<>>)])
Grid(c, p) == Rn("grid", <<P("vis", p), P("wts", p), P("mod", p), V("obs"), V("psf"), V("par"),
                           K(p - 1), B(p = 1), B(p > 2), B(c.bpb /\ ~c.beam1)>>,
                 <<P("img", p), P("wuv", p), P("var", p), P("muv", p)>>
                 \o (IF p = 1 THEN <<V("fil")>> ELSE <<>>) \o <<V("nfv")>>)
Dirty(c, p) ==
     Rn("dirty", <<P("img", p), V("fil"), P("wuv", p)>>, <<P("dty", p), P("dtyr", p), P("dtyi", p)>>)
  \o Rn("dirty", <<P("muv", p), V("fil"), P("wuv", p)>>, <<P("dmo", p), P("dmor", p), P("dmoi", p)>>)
Gridding(c) == c.rg \/ c.ex
Plan(c) ==
     If(~c.ob /\ ~c.cb,
           Rn("header", <<>>, VS(<<"hdr", "pdat", "ahdr", "adat">>))
        \o Rn("params", VS(<<"hdr", "pdat">>), VS(<<"par">>))
        \o Rn("visibilities", VS(<<"hdr", "pdat">>), VS(<<"vis", "wts">>))
        \o If(c.sv, Fl("visibilities/" \o c.id \o "_raw_vis_arr.h5", VS(<<"vis">>)))
        \o If(c.sw, Fl("visibilities/" \o c.id \o "_raw_vis_weights.h5", VS(<<"wts">>)))
        \o Rn("layout", VS(<<"ahdr", "adat">>), VS(<<"lay">>))
        \o Rn("obs", VS(<<"hdr", "par", "lay">>), VS(<<"obs", "nfv">>))
        \o If(c.ck, Fl(CkPath(c, "obs"), ObsCk)))
  \o If(c.ob, Ld("obs", ObsCk))
  \o Rn("psf", <<>>, VS(<<"psf">>))
  \o If(~c.cb,
           If(c.dp, Rn("deproject", VS(<<"obs", "par", "vis">>), VS(<<"vis">>)))
        \o If(c.fb, Rn("flag_basic", VS(<<"wts", "vis", "obs">>), VS(<<"wts", "obs">>)))
        \o Rn("weights", VS(<<"wts", "obs", "psf", "par">>), VS(<<"wts", "obs">>))
        \o Rn("model", VS(<<"obs">>), VS(<<"mod", "pmod">>))
        \o If(c.fm, Rn("flag_model", VS(<<"mod", "par", "pmod", "obs">>), VS(<<"mod">>)))
        \o If(c.cal,
                 Rn("calibrate", VS(<<"obs", "par", "vis", "wts", "mod">>), VS(<<"vis", "cal", "obs">>))
              \o If(c.npol = 4, Rn("mix", VS(<<"vis", "mod", "wts", "obs">>), VS(<<"mix">>)))
              \o Rn("weights", VS(<<"wts", "obs", "psf", "par">>), VS(<<"wts", "obs">>))
              \o If(c.fv, Rn("flag_vis", VS(<<"vis", "wts", "obs", "par">>), VS(<<"wts", "obs">>)))
              \o Rn("noise", VS(<<"obs", "vis", "wts">>), VS(<<"noi">>))
              \o If(c.ck, Fl(CkPath(c, "calibration"), CalCk))))
  \o If(c.cb, Ld("calibration", CalCk))
  \o (IF c.cs THEN Products(c)
      ELSE   If(Gridding(c) /\ ~c.gb,
                   Cat([p \in 1..c.npol |-> Grid(c, p)])
                \o If(c.npol = 4, Rn("reformat", VS(<<"img">>), VS(<<"img">>))
                                  \o Rn("reformat", VS(<<"wuv">>), VS(<<"wuv">>))
                                  \o Rn("reformat", VS(<<"muv">>), VS(<<"muv">>)))
                \o If(c.ck, Fl(CkPath(c, "gridding"), GridCk)))
          \o If(c.gb, Ld("gridding", GridCk))
          \o If(c.ex,
                   Rn("quickview", Obs \o VS(<<"psf", "par", "cal", "mix", "vis", "wts", "img", "wuv", "var", "fil", "muv">>), <<>>)
                \o Products(c) \o GridProducts(c)
                \o Cat([p \in 1..c.npol |-> Dirty(c, p)])
                \o Images(c))
          \o If(c.hp, Rn("healpix", Obs \o VS(<<"psf", "cal", "mix", "par", "vis", "mod", "wts">>), <<>>)))
  \o Fl("config/run-final.yaml", <<>>)
  \o Fl("config/pyfhd_config.h5", <<>>)

(* ------------------------------------------------------------ environment *)
Names == {"hdr", "pdat", "ahdr", "adat", "par", "vis", "wts", "lay", "obs", "noi", "nfv", "psf", "mod",
          "pmod", "cal", "mix", "img", "wuv", "var", "fil", "muv", "dty", "dtyr", "dtyi", "dmo", "dmor", "dmoi"}
(* without calibration there are no gains: absent is the token of None *)
Env0(c, absent) == [n \in Names |-> IF n \in {"img", "wuv", "var", "muv", "dty", "dtyr", "dtyi", "dmo", "dmor", "dmoi"} THEN Rep(0, c.npol)
                                    ELSE IF n = "cal" THEN <<absent>> ELSE <<>>]
Get(env, r) == IF r.n = "#" THEN <<r.i>>
               ELSE IF r.i = 0 THEN env[r.n]
               ELSE IF r.i \in DOMAIN env[r.n] THEN <<env[r.n][r.i]>> ELSE <<-1>>
Set(env, w, v) == IF w.i = 0 THEN [env EXCEPT ![w.n] = v]
                  ELSE IF w.i \in DOMAIN env[w.n] /\ Len(v) = 1 THEN [env EXCEPT ![w.n][w.i] = v[1]] ELSE env
RECURSIVE SetAll(_, _, _)
SetAll(env, ws, vs) == IF Len(ws) = 0 THEN env
                       ELSE SetAll(Set(env, ws[1], IF Len(vs) = 0 THEN <<-1>> ELSE vs[1]), Tail(ws),
                                   IF Len(vs) = 0 THEN <<>> ELSE Tail(vs))
GetAll(env, rs) == [i \in 1..Len(rs) |-> Get(env, rs[i])]
Unknown(vs) == \E i \in 1..Len(vs) : \E j \in 1..Len(vs[i]) : vs[i][j] = -1

(* ------------------------------------------------------- following a plan *)
(* state of the walk: environment, calls not yet accounted for, disk        *)
(* (path -> content), names of steps nobody performed                       *)
LoadPath(c, kind) == CkPath(c, kind)
StepWalk(c, st, ev, x) ==
  LET ins == GetAll(x.env, st.r)
  IN CASE st.k = "run" ->
            LET m == {j \in x.left : ev[j].s = st.s /\ ev[j].in = ins}
            IN IF m = {} THEN [x EXCEPT !.env = SetAll(x.env, st.w, <<>>), !.miss = @ \cup {st.s}]
               ELSE [x EXCEPT !.env = SetAll(x.env, st.w, ev[MinOf(m)].out), !.left = @ \ {MinOf(m)}]
       [] st.k = "file" -> IF Unknown(ins) THEN x
                           ELSE [x EXCEPT !.disk = (st.s :> ins) @@ @]
       [] OTHER -> IF LoadPath(c, st.s) \in DOMAIN x.disk
                   THEN [x EXCEPT !.env = SetAll(x.env, st.w, x.disk[LoadPath(c, st.s)])]
                   ELSE [x EXCEPT !.env = SetAll(x.env, st.w, <<>>), !.miss = @ \cup {"load"}]
RECURSIVE Walk(_, _, _, _)
Walk(c, plan, ev, x) == IF Len(plan) = 0 THEN x ELSE Walk(c, Tail(plan), ev, StepWalk(c, Head(plan), ev, x))

(* ------------------------------------------------- judging recorded runs *)
With(c, r) == [ob |-> r.ob, cb |-> r.cb, gb |-> r.gb] @@ c
DiskOf(l) == [p \in {l[i].p : i \in 1..Len(l)} |-> l[CHOOSE i \in 1..Len(l) : l[i].p = p].c]
RunVerdict(c0, absent, r, disk0) ==
  LET c == With(c0, r)
      x == Walk(c, Plan(c), r.ev, [env |-> Env0(c, absent), left |-> 1..Len(r.ev), disk |-> disk0, miss |-> {}])
      disk == DiskOf(r.disk)
      extra == {r.ev[j].s : j \in x.left}
  IN IF r.fault = ""
     THEN (IF r.out = (IF c.cs THEN "exit0" ELSE "done") THEN {} ELSE {"outcome:" \o r.out})
          \cup {"stage_not_performed_on_its_inputs:" \o s : s \in x.miss}
          \cup {"stage_unexpected:" \o s : s \in extra}
          \cup {"file_missing:" \o p : p \in DOMAIN x.disk \ DOMAIN disk}
          \cup {"file_unexpected:" \o p : p \in DOMAIN disk \ DOMAIN x.disk}
          \cup {"file_content:" \o p : p \in {q \in DOMAIN disk \cap DOMAIN x.disk : disk[q] # x.disk[q]}}
          \cup (IF r.closed THEN {} ELSE {"psf_left_open"})
     ELSE (IF r.out = "fail" THEN {} ELSE {"fault_hidden"})
          \cup {"stage_unexpected:" \o s : s \in extra}
          \cup {"file_lost:" \o p : p \in DOMAIN disk0 \ DOMAIN disk}
          \cup {"file_unexpected:" \o p : p \in DOMAIN disk \ DOMAIN x.disk}
          \cup {"file_content:" \o p : p \in {q \in DOMAIN disk \cap DOMAIN x.disk :
                       disk[q] # x.disk[q] /\ ~(q \in DOMAIN disk0 /\ disk[q] = disk0[q])}}
          \cup (IF "config/run-final.yaml" \in DOMAIN disk \ DOMAIN disk0 THEN {"final_config_after_fault"} ELSE {})
RECURSIVE RunsVerdict(_, _, _, _)
RunsVerdict(c, absent, rs, disk0) ==
  IF Len(rs) = 0 THEN {}
  ELSE RunVerdict(c, absent, rs[1], disk0) \cup RunsVerdict(c, absent, Tail(rs), DiskOf(rs[1].disk))
(* a single run, or a history of runs over one output directory             *)
Verdict02(rec) == RunsVerdict(rec.cfg, rec.absent, rec.runs, [p \in {} |-> <<>>])
(* a history whose last run finishes, against the run that was never stopped *)
Calls(r, s) == {<<r.ev[j].in, r.ev[j].out>> : j \in {k \in 1..Len(r.ev) : r.ev[k].s = s}}
Verdict01(rec) ==
  LET last == rec.runs[Len(rec.runs)]
      d == DiskOf(last.disk)
      u == DiskOf(rec.ref.disk)
  IN RunsVerdict(rec.cfg, rec.absent, rec.runs, [p \in {} |-> <<>>])
     \cup {"resumed_" \o s \o "_differs" : s \in {t \in {"quickview", "healpix", "dirty"} : Calls(last, t) # Calls(rec.ref, t)}}
     \cup {"resumed_product_differs:" \o p : p \in {q \in DOMAIN u : q \notin DOMAIN d \/ (q \in DOMAIN d /\ d[q] # u[q])}}
     \cup (IF last.out = rec.ref.out THEN {} ELSE {"resumed_outcome"})
=============================================================================
