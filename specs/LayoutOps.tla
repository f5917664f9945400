------------------------------ MODULE LayoutOps ------------------------------
(* The antenna layout: every entry is the one of the file, or the documented    *)
(* replacement when the file does not have it.  Values are text.  x.missing are *)
(* the keywords and columns the file lacks, x.n the number of antennas, x.ts    *)
(* the time system in the file, x.uniform whether the per-antenna columns hold  *)
(* one value, x.ncal the number of calibration parameters in the header.        *)
EXTENDS Integers, Sequences, FiniteSets, Seqs, TLC
HeaderKeys == {"array_center", "coordinate_frame", "gst0", "earth_degpd", "refdate", "time_system", "dut1", "diff_utc", "nleap_sec", "pol_type", "n_pol_cal_params"}
ColumnKeys == {"antenna_names", "antenna_numbers", "antenna_coords", "mount_type", "axis_offset", "pola", "pola_orientation", "pola_cal_params", "polb", "polb_orientation", "polb_cal_params", "diameters", "beam_fwhm"}
LKeys == HeaderKeys \cup ColumnKeys \cup {"n_antenna"}
Has(x, k) == k \notin Range(x.missing)
RECURSIVE Join(_)
Join(s) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN Head(s) ELSE Head(s) \o "," \o Join(Tail(s))
Num(x, f(_)) == Join([i \in 1..x.n |-> ToString(f(i))])
(* columns holding one value for all antennas are reduced to it *)
Reduced == {"mount_type", "axis_offset", "pola_orientation", "polb_orientation"}
Column(x, k) ==
  LET base == CASE k = "mount_type" -> 1 [] k = "axis_offset" -> 2 [] k = "pola_orientation" -> 45 [] k = "polb_orientation" -> 135 [] OTHER -> 7
      val(i) == IF x.uniform THEN base ELSE base + i
  IN CASE k = "antenna_names" -> Join([i \in 1..x.n |-> "T" \o ToString(i + 10)])
       [] k = "antenna_numbers" -> Join([i \in 1..x.n |-> ToString(2 * i + 1)])
       [] k = "antenna_coords" -> Join([i \in 1..(3 * x.n) |-> ToString(i * 5)])
       [] k = "pola" -> Join([i \in 1..x.n |-> "R"]) [] k = "polb" -> Join([i \in 1..x.n |-> "L"])
       [] k = "pola_cal_params" -> Num(x, LAMBDA i : 30 + i) [] k = "polb_cal_params" -> Num(x, LAMBDA i : 60 + i)
       [] k = "diameters" -> Num(x, LAMBDA i : 4 + i) [] k = "beam_fwhm" -> Num(x, LAMBDA i : 20 + i)
       [] OTHER -> IF x.uniform \/ x.n = 1 THEN ToString(val(1)) ELSE Num(x, val)
FileText(x, k) ==
  CASE k = "array_center" -> "11,12,13" [] k = "coordinate_frame" -> "ITRF2" [] k = "gst0" -> "77" [] k = "earth_degpd" -> "361"
    [] k = "refdate" -> "2013-08-23" [] k = "time_system" -> x.ts [] k = "dut1" -> "3" [] k = "diff_utc" -> "4" [] k = "nleap_sec" -> "35"
    [] k = "pol_type" -> "LIN" [] k = "n_pol_cal_params" -> ToString(x.ncal) [] k = "n_antenna" -> ToString(x.n)
    [] OTHER -> Column(x, k)
NCal(x) == IF Has(x, "n_pol_cal_params") THEN x.ncal ELSE 0
System(x) == IF Has(x, "time_system") THEN x.ts ELSE "UTC"
Replacement(x, k) ==
  CASE k = "array_center" -> "-2559454.07880307,5095372.14368305,-2849057.18534633"
    [] k = "coordinate_frame" -> "IRTF" [] k = "gst0" -> "-1" [] k = "earth_degpd" -> "360.985" [] k = "refdate" -> "-1" [] k = "time_system" -> "UTC"
    [] k = "dut1" -> "0" [] k = "diff_utc" -> "0"
    [] k = "nleap_sec" -> IF System(x) = "IAT" THEN (IF Has(x, "diff_utc") THEN FileText(x, "diff_utc") ELSE "0") ELSE "-1"
    [] k = "pol_type" -> "X-Y LIN" [] k = "n_pol_cal_params" -> "0"
    [] k = "antenna_names" -> Num(x, LAMBDA i : i - 1) [] k = "antenna_numbers" -> Num(x, LAMBDA i : i)
    [] k = "antenna_coords" -> Join([i \in 1..(3 * x.n) |-> "0"])
    [] k \in {"mount_type", "axis_offset", "pola_orientation"} -> "0" [] k = "polb_orientation" -> "90"
    [] k = "pola" -> "X" [] k = "polb" -> "Y"
    [] k \in {"pola_cal_params", "polb_cal_params"} -> IF NCal(x) > 1 THEN Join([i \in 1..NCal(x) |-> "0"]) ELSE "0"
    [] k \in {"diameters", "beam_fwhm"} -> "absent"
Entry(x, k) == IF Has(x, k) THEN FileText(x, k) ELSE Replacement(x, k)
LVerdict(rec) == IF ~rec.ok THEN {"returns"} ELSE {k \in LKeys : rec.out[k] # Entry(rec.x, k)} \cup (IF rec.saved THEN {} ELSE {"saved"})
=============================================================================
