------------------------------ MODULE PlotsOps ------------------------------
(* Calibration plots: 128 panels (8 rows of 16) a page; and the colours of    *)
(* images.  Gains are Gaussian integers with whole moduli.                    *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
PerPage == 128
PageOf(t) == ((t - 1) \div PerPage) + 1
PanelOf(t) == ((t - 1) % PerPage) + 1
PageCount(n) == (n + PerPage - 1) \div PerPage
Kinds == <<"cal_amp", "cal_phase", "cal_residual_amp", "cal_residual_phase", "cal_raw_amp", "cal_raw_phase">>
RECURSIVE RootFrom(_, _)
RootFrom(n, k) == IF k * k >= n THEN k ELSE RootFrom(n, k + 1)
Abs(z) == RootFrom(z[1] * z[1] + z[2] * z[2], 0)
Used(x) == SelectSeq([f \in 1..Len(x.freq) |-> f], LAMBDA f : x.fu[f])
Sol(x, p, f, t) == x.gain[p][f][t]
Raw(x, p, f, t) == CAdd(x.gain[p][f][t], x.res[p][f][t])
Shown(x, t) == x.tu[t]
(* what a panel shows: the amplitude, or a vector with the phase *)
Amp(x, kind, p, f, t) ==
  CASE kind = 1 -> Abs(Sol(x, p, f, t)) [] kind = 5 -> Abs(Raw(x, p, f, t)) [] kind = 3 -> Abs(Raw(x, p, f, t)) - Abs(Sol(x, p, f, t))
Dirn(x, kind, p, f, t) ==
  CASE kind = 2 -> Sol(x, p, f, t) [] kind = 6 -> Raw(x, p, f, t) [] kind = 4 -> CMul(Raw(x, p, f, t), CConj(Sol(x, p, f, t)))
(* a point is <<amplitude, 0, 1>>, or the cosine and sine of a phase over 625 *)
PointIs(x, kind, p, f, t, pt) ==
  IF kind \in {1, 3, 5} THEN pt[3] = 1 /\ pt[1] = Amp(x, kind, p, f, t)
  ELSE LET z == Dirn(x, kind, p, f, t) m == Abs(z) IN pt[3] = 625 /\ pt[1] * m = 625 * z[1] /\ pt[2] * m = 625 * z[2]
(* residual phases do not jump: a step is the difference of the principal steps of both phases, given in half turns below it *)
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
DotC(a, b) == a[1] * b[1] + a[2] * b[2]
Half(a) == IF a[2] > 0 \/ (a[2] = 0 /\ a[1] > 0) THEN 0 ELSE -1   \* of the principal angle in half turns, below
AngleLess(a, b) == IF Half(a) # Half(b) THEN Half(a) < Half(b) ELSE Cross(a, b) > 0
Straight(a) == a[2] = 0 /\ a[1] < 0
StepIs(a, b, got) ==
  IF Straight(a) \/ Straight(b) \/ (Cross(a, b) = 0) THEN TRUE
  ELSE IF AngleLess(b, a) THEN got = (IF Cross(b, a) > 0 THEN 0 ELSE 1)
  ELSE got = (IF Cross(b, a) < 0 THEN -1 ELSE -2)
StepsOf(z1, z2) == CMul(CConj(z1), z2)
Page(rec, kind, pg) == LET I == {i \in DOMAIN rec.figs : rec.figs[i].kind = kind /\ rec.figs[i].page = pg} IN rec.figs[CHOOSE i \in I : TRUE]
(* ---- images: colours are 0..255, those of an image with missing values start at 1 *)
First(x) == IF x.missing THEN 1 ELSE 0
LinearColour(x, v) ==
  IF x.missing /\ v = x.mval THEN <<0, 1>>
  ELSE IF v < x.lo THEN <<First(x), 1>> ELSE IF v > x.hi THEN <<255, 1>>
  ELSE <<(v - x.lo) * (255 - First(x)) + First(x) * (x.hi - x.lo), x.hi - x.lo>>
(* values are powers of ten given by their exponent (tag 0, or 2 with a minus sign) or zero (tag 1), or missing (tag 3) *)
Within(e, lo, hi) == IF e < lo THEN lo ELSE IF e > hi THEN hi ELSE e
Rise(e, lo, hi, first) == <<(Within(e, lo, hi) - lo) * (255 - first) + first * (hi - lo), hi - lo>>
LogColour(x, v) ==
  LET mp == First(x) + (IF x.zeros THEN 2 ELSE 1) IN
  CASE v[1] \in {2, 3} -> <<0, 1>> [] v[1] = 1 -> <<1, 1>> [] v[1] = 0 -> Rise(v[2], x.lo, x.hi, mp)
(* the symmetric scale shows the size of a value, whatever its sign, and zero as the smallest *)
SymColour(x, v) ==
  CASE v[1] = 3 -> <<0, 1>> [] v[1] = 1 -> <<First(x), 1>> [] v[1] \in {0, 2} -> Rise(v[2], x.lo, x.hi, First(x))
(* the absolute scale is linear in the size *)
AbsColour(x, v) == IF x.missing /\ v = x.mval THEN <<0, 1>> ELSE Rise(IF v < 0 THEN -v ELSE v, x.lo, x.hi, First(x))
ScaleColour(rec, v) ==
  CASE rec.kind = "log" -> LogColour(rec.x, v) [] rec.kind = "sym" -> SymColour(rec.x, v) [] rec.kind = "abs" -> AbsColour(rec.x, v)
(* the colour bar of the exponents: five ticks, the whole powers among them *)
TicksNamed(rec) ==
  /\ Len(rec.ticks) = 5 /\ Len(rec.expo) = 5
  /\ \A i \in 1..5 : /\ QEq(rec.ticks[i], <<First(rec.x) * 4 + (255 - First(rec.x)) * (i - 1), 4>>)
                     /\ ((rec.x.hi - rec.x.lo) * (i - 1)) % 4 = 0 => rec.expo[i] = rec.x.lo + ((rec.x.hi - rec.x.lo) * (i - 1)) \div 4
RECURSIVE PlotHolds(_, _)
PlotClauses == {"returns", "pages", "names", "blank", "lines", "values", "channels", "steps", "inside", "kept", "colours", "ticks", "file"}
PlotHolds(c, rec) ==
  CASE c = "returns" -> rec.ok
    [] c = "kept" -> rec.ok => rec.kept
    [] c = "pages" -> rec.ok /\ rec.kind = "cals" =>
         /\ Len(rec.figs) = 6 * PageCount(rec.x.n)
         /\ \A k \in 1..6, pg \in 1..PageCount(rec.x.n) : Cardinality({i \in DOMAIN rec.figs : rec.figs[i].kind = k /\ rec.figs[i].page = pg}) = 1
         /\ \A i \in DOMAIN rec.figs : Len(rec.figs[i].panels) = PerPage
    [] c = "names" -> rec.ok /\ rec.kind = "cals" /\ PlotHolds("pages", rec) => \A k \in 1..6 : \A t \in 1..rec.x.n :
         Page(rec, k, PageOf(t)).panels[PanelOf(t)].title = rec.x.names[t]
    [] c = "blank" -> rec.ok /\ rec.kind = "cals" /\ PlotHolds("pages", rec) => \A i \in DOMAIN rec.figs : \A j \in 1..PerPage :
         LET t == (rec.figs[i].page - 1) * PerPage + j IN
           IF t <= rec.x.n /\ Shown(rec.x, t) THEN rec.figs[i].panels[j].on ELSE rec.figs[i].panels[j].lines = <<>>
    [] c = "lines" -> rec.ok /\ rec.kind = "cals" /\ PlotHolds("pages", rec) => \A k \in 1..6 : \A t \in 1..rec.x.n :
         Shown(rec.x, t) => LET l == Page(rec, k, PageOf(t)).panels[PanelOf(t)].lines IN
           Len(l) = rec.x.np /\ \A p \in 1..rec.x.np : l[p].colour = <<"blue", "red">>[p] /\ Len(l[p].pts) = Len(Used(rec.x))
    [] c = "values" -> rec.ok /\ rec.kind = "cals" /\ PlotHolds("lines", rec) => \A k \in 1..6 : \A t \in 1..rec.x.n :
         Shown(rec.x, t) => LET l == Page(rec, k, PageOf(t)).panels[PanelOf(t)].lines u == Used(rec.x) IN
           \A p \in 1..rec.x.np : \A i \in DOMAIN u : PointIs(rec.x, k, p, u[i], t, l[p].pts[i])
    [] c = "channels" -> rec.ok /\ rec.kind = "cals" /\ PlotHolds("lines", rec) => \A k \in 1..6 : \A t \in 1..rec.x.n :
         Shown(rec.x, t) => LET l == Page(rec, k, PageOf(t)).panels[PanelOf(t)].lines u == Used(rec.x) IN
           \A p \in 1..rec.x.np : l[p].xs = [i \in DOMAIN u |-> rec.x.freq[u[i]]]
    [] c = "steps" -> rec.ok /\ rec.kind = "cals" /\ PlotHolds("lines", rec) => \A t \in 1..rec.x.n :
         Shown(rec.x, t) => LET l == Page(rec, 4, PageOf(t)).panels[PanelOf(t)].lines u == Used(rec.x) IN
           \A p \in 1..rec.x.np : \A i \in 1..(Len(u) - 1) :
             StepIs(StepsOf(Raw(rec.x, p, u[i], t), Raw(rec.x, p, u[i + 1], t)), StepsOf(Sol(rec.x, p, u[i], t), Sol(rec.x, p, u[i + 1], t)), l[p].steps[i])
    [] c = "inside" -> rec.ok /\ rec.kind = "cals" => \A i \in DOMAIN rec.figs : rec.figs[i].inside
    [] c = "colours" -> rec.ok /\ rec.kind = "linear" => Len(rec.out) = Len(rec.x.vals) /\ \A i \in DOMAIN rec.x.vals : QEq(rec.out[i], LinearColour(rec.x, rec.x.vals[i]))
                     /\ rec.clim = <<0, 255>>
    [] c = "ticks" -> rec.ok /\ rec.kind = "linear" => \A i \in 1..Len(rec.ticks) :
         QEq(rec.ticks[i], <<First(rec.x) * 4 + (255 - First(rec.x)) * (i - 1), 4>>) /\ (rec.x.named => QEq(rec.labels[i], <<rec.x.lo * 4 + (rec.x.hi - rec.x.lo) * (i - 1), 4>>))
    [] c = "file" -> rec.ok /\ rec.kind \in {"linear", "log", "sym", "abs"} => rec.file = rec.wantfile
PlotVerdict(rec) == {c \in PlotClauses : ~PlotHolds(c, rec)}
                    \cup (IF rec.ok /\ rec.kind \in {"log", "sym", "abs"}
                             /\ ~(rec.clim = <<0, 255>> /\ Len(rec.out) = Len(rec.x.vals) /\ \A i \in DOMAIN rec.x.vals : QEq(rec.out[i], ScaleColour(rec, rec.x.vals[i]))) THEN {rec.kind \o "-colours"} ELSE {})
                    \cup (IF rec.ok /\ rec.kind \in {"log", "sym"} /\ ~TicksNamed(rec) THEN {rec.kind \o "-ticks"} ELSE {})
=============================================================================
