------------------------------- MODULE Layout --------------------------------
(* Every way a file can lack up to MaxMissing entries of the layout.            *)
EXTENDS LayoutOps, Json
CONSTANTS MaxMissing, Ns
VARIABLES x
Init == x \in [missing : {<<>>}, n : Ns, ts : {"UTC", "IAT"}, uniform : BOOLEAN, ncal : {0, 1, 3}]
Order == <<"array_center", "coordinate_frame", "gst0", "earth_degpd", "refdate", "time_system", "dut1", "diff_utc", "nleap_sec", "pol_type", "n_pol_cal_params", "antenna_names", "antenna_numbers", "antenna_coords", "mount_type", "axis_offset", "pola", "pola_orientation", "pola_cal_params", "polb", "polb_orientation", "polb_cal_params", "diameters", "beam_fwhm">>
Idx(k) == CHOOSE i \in 1..24 : Order[i] = k
Next == /\ Len(x.missing) < MaxMissing
        /\ \E i \in 1..24 : (\A k \in Range(x.missing) : Idx(k) < i) /\ x' = [x EXCEPT !.missing = Append(@, Order[i])]
Spec == Init /\ [][Next]_x
Covered == Range(Order) = HeaderKeys \cup ColumnKeys
Total == \A k \in LKeys : Entry(x, k) \in STRING
(* losing an entry changes that entry and what is derived from it, nothing else *)
Local == \A k \in Range(x.missing) : \A j \in LKeys :
           LET y == [x EXCEPT !.missing = SelectSeq(@, LAMBDA z : z # k)] IN
           Entry(x, j) # Entry(y, j) => j = k \/ <<k, j>> \in {<<"time_system", "nleap_sec">>, <<"diff_utc", "nleap_sec">>, <<"n_pol_cal_params", "pola_cal_params">>, <<"n_pol_cal_params", "polb_cal_params">>}
Emit == PrintT("@@" \o ToJson([x |-> x, e |-> [k \in LKeys |-> Entry(x, k)]]))
=============================================================================
