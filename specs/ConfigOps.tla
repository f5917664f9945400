----------------------------- MODULE ConfigOps -----------------------------
(* Validation and settling of the options (pyfhd_setup) and the written     *)
(* configuration (write_collated_yaml_config and the parser).               *)
EXTENDS Seqs, TLC
Nb(b) == IF b THEN 1 ELSE 0
(* ------------------------------------------------------------ validation *)
(* state of an option that names a file: 0 not given, 1 there, 2 not there  *)
Files == {"beam_file_path", "obs_checkpoint", "calibrate_checkpoint", "gridding_checkpoint", "cal_bp_transfer", "diffuse_calibrate",
          "calibration_catalog_file_path", "transfer_calibration", "transfer_model_uv", "transfer_weights", "diffuse_model",
          "model_catalog_file_path", "model_file_path", "in_situ_sim_input", "eor_vis_filepath", "sim_noise", "extra_vis_filepath", "IDL_variables_file"}
Problems(c) ==
    Nb(~c.inp) + Nb(~c.inp \/ ~c.uv) + Nb(~c.inp \/ ~c.meta)
  + Cardinality({f \in Files : c.f[f] = 2})
  + Nb(c.f["healpix_inds"] = 2 /\ c.restrict)
  + Nb(c.sidelobe)
  + (IF c.f["model_file_path"] # 0 /\ c.mtype = "sav"
     THEN Nb(~c.mparams) + (IF c.nsav <= 2 THEN 1 ELSE Nb(c.npol > 0 /\ c.nsav < c.npol + 1)) ELSE 0)
  + Nb(~c.sim /\ (c.f["in_situ_sim_input"] # 0 \/ c.f["eor_vis_filepath"] # 0 \/ c.f["sim_noise"] # 0))
  + Nb(c.enhance > 1 /\ c.f["eor_vis_filepath"] = 0)
  + Cardinality({i \in 1..Len(c.psf) : c.psf[i] # "there"})
(* --------------------------------------------------------------- settling *)
(* o: the options that take part in conflicts and implications              *)
Modes(o) == Nb(o.mfile) + Nb(o.mdelay) + Nb(o.mtheory # 0)
Settle(o) ==
  [o EXCEPT !.rb = @ \/ o.ra, !.rg = @ \/ o.ra,
            !.sv = @ \/ o.he,
            !.bot = Max2(@, 0),
            !.ik = @ /\ ~o.bpb,
            !.hyper = @ /\ ~o.mfile,
            !.mfile = @ /\ Modes(o) <= 1,
            !.mdelay = @ /\ Modes(o) <= 1,
            !.mtheory = IF Modes(o) > 1 /\ @ = 0 THEN 1 ELSE @,
            !.gain = IF @ = <<>> THEN <<3, 4>> ELSE @]
Consistent(o) ==
  /\ o.ra => o.rb /\ o.rg
  /\ o.he => o.sv
  /\ o.bot >= 0
  /\ ~(o.bpb /\ o.ik)
  /\ Modes(o) <= 1
  /\ ~(o.hyper /\ o.mfile)
  /\ o.gain # <<>>
Fields == {"ra", "rb", "rg", "he", "sv", "bot", "bpb", "ik", "hyper", "mfile", "mdelay", "mtheory", "gain"}
Name(k) == [ra |-> "recalculate_all", rb |-> "recalculate_beam", rg |-> "recalculate_grid", he |-> "snapshot_healpix_export", sv |-> "save_visibilities",
            bot |-> "beam_offset_time", bpb |-> "beam_per_baseline", ik |-> "interpolate_kernel", hyper |-> "cal_reflection_hyperresolve",
            mfile |-> "cal_reflection_mode_file", mdelay |-> "cal_reflection_mode_delay", mtheory |-> "cal_reflection_mode_theory", gain |-> "cal_base_gain"][k]
Verdict04(r) ==
  LET n == Problems(r.c)
      s == Settle(r.o)
  IN IF n > 0
     THEN (IF r.out = "exit" THEN {} ELSE {"started_with_problems:" \o r.out})
          \cup (IF r.out = "exit" /\ r.reported # n THEN {"problems_reported"} ELSE {})
          \cup (IF r.wrote THEN {"configuration_written_though_refused"} ELSE {})
     ELSE IF r.out # "ok" THEN {"refused_a_valid_configuration:" \o r.out}
     ELSE {"settled_" \o Name(k) : k \in {q \in Fields : r.after[q] # s[q]}}
          \cup {"changed_" \o k : k \in Range(r.changed) \ {Name(q) : q \in {p \in Fields : r.o[p] # s[p]}}}
          \cup {"path_" \o k : k \in Range(r.badpath)}
          \cup (IF r.ring = r.ringwant THEN {} ELSE {"ring_radius"})
          \cup {"resettled_" \o k : k \in Range(r.again)}
          \cup (IF r.wrote THEN {} ELSE {"configuration_not_written"})

(* ------------------------------------------------- the written text       *)
(* an option value is [t |-> kind, v |-> payload]; text is a sequence of    *)
(* characters, "q" stands for the single quote                              *)
RECURSIVE Escape(_)
Escape(s) == IF Len(s) = 0 THEN <<>> ELSE (IF s[1] = "q" THEN <<"q", "q">> ELSE <<s[1]>>) \o Escape(Tail(s))
Quoted(s) == <<"q">> \o Escape(s) \o <<"q">>
(* reading a single quoted scalar: the position after it and its text       *)
RECURSIVE ReadQ(_, _, _)
ReadQ(s, i, acc) == IF i > Len(s) THEN [at |-> 0, txt |-> acc]
                    ELSE IF s[i] # "q" THEN ReadQ(s, i + 1, Append(acc, s[i]))
                    ELSE IF i < Len(s) /\ s[i + 1] = "q" THEN ReadQ(s, i + 2, Append(acc, "q"))
                    ELSE [at |-> i + 1, txt |-> acc]
RECURSIVE JoinQ(_)
JoinQ(l) == IF Len(l) = 0 THEN <<>> ELSE IF Len(l) = 1 THEN Quoted(l[1]) ELSE Quoted(l[1]) \o <<",">> \o JoinQ(Tail(l))
WriteV(x) == CASE x.t = "none" -> <<"~">>
               [] x.t = "flag" -> <<IF x.v THEN "T" ELSE "F">>
               [] x.t = "num" -> <<"N", x.v>>
               [] x.t = "text" -> Quoted(x.v)
               [] x.t = "list" -> IF Len(x.v) = 0 THEN <<"skip">> ELSE <<"[">> \o JoinQ(x.v) \o <<"]">>
RECURSIVE ReadL(_, _, _)
ReadL(s, i, acc) == IF s[i] = "]" THEN acc
                    ELSE IF s[i] = "," THEN ReadL(s, i + 1, acc)
                    ELSE LET r == ReadQ(s, i + 1, <<>>) IN ReadL(s, r.at, Append(acc, r.txt))
ReadV(kind, s) == CASE s = <<"~">> -> [t |-> "none", v |-> <<>>]
                    [] s = <<"skip">> -> [t |-> "list", v |-> <<>>]
                    [] kind = "flag" -> [t |-> "flag", v |-> s = <<"T">>]
                    [] kind = "num" -> [t |-> "num", v |-> s[2]]
                    [] kind = "text" -> [t |-> "text", v |-> ReadQ(s, 2, <<>>).txt]
                    [] kind = "list" -> [t |-> "list", v |-> ReadL(s, 2, <<>>)]
(* a configuration that was written and read again.  r.v lists              *)
(* [o |-> option, k |-> kind, a |-> value in the run, b |-> value read]     *)
Verdict05(r) ==
  (IF r.out = "ok" THEN {} ELSE {"not_readable"})
  \cup {"lost_" \o r.v[i].o : i \in {j \in 1..Len(r.v) : r.v[j].a # r.v[j].b}}
  \cup {"kind_" \o r.v[i].o : i \in {j \in 1..Len(r.v) : r.v[j].k # r.v[j].kb}}
  \cup (IF r.again THEN {} ELSE {"second_generation_differs"})
=============================================================================
