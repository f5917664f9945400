------------------------------ MODULE IngestOps ------------------------------
(* A random-group file.  x.enc is the way baselines are stored ("pair": two     *)
(* antenna columns, "256": 256 a + b, "2048": 65536 + 2048 a + b, "mixed": the  *)
(* second only where the first cannot hold the antennas), x.rows the            *)
(* rows in the order of the file, each [a, b, t, d, u, v, w] (d: the second     *)
(* part of the time if x.dates = 2), x.nf and x.np the channels and             *)
(* polarisations of the file, x.cfgpol the polarisations asked for (0: all).    *)
(* A group is the parameters of the row followed by the samples; the component  *)
(* (real, imaginary, weight) is the fastest axis, then polarisation, channel.   *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
Code(enc, a, b) == IF enc = "2048" \/ (enc = "mixed" /\ (a > 255 \/ b > 255)) THEN 65536 + 2048 * a + b ELSE 256 * a + b
Decode(c) == IF c > 65536 THEN <<(c - 65536) \div 2048, (c - 65536) % 2048>> ELSE <<c \div 256, c % 256>>
Codable(enc, n) == n >= 1 /\ (enc = "256" => n <= 255) /\ (enc \in {"2048", "mixed"} => n <= 2047)
NPolOut(x) == IF x.cfgpol = 0 THEN x.np ELSE x.cfgpol
(* the sample stored for row r, channel f, polarisation p, component c (0, 1, 2) *)
Word(x, r, f, p, c) == (((r - 1) * x.nf + f - 1) * x.np + p - 1) * 3 + c - x.shift
Group(x, r) == [i \in 1..(x.nf * x.np * 3) |-> Word(x, r, (i - 1) \div (x.np * 3) + 1, (((i - 1) \div 3) % x.np) + 1, (i - 1) % 3)]
(* what has to come out *)
TimeW(x, r) == x.rows[r].t + (IF x.dates = 2 THEN x.rows[r].d ELSE 0)
Ant(x, r) == <<x.rows[r].a, x.rows[r].b>>
Vis(x, p, f, r) == <<Word(x, r, f, p, 0), Word(x, r, f, p, 1)>>
Wgt(x, p, f, r) == Word(x, r, f, p, 2)
(* the description of the observation *)
MetaKeys == {"obsra", "obsdec", "lon", "lat", "alt"}
Stored(k) == CASE k = "obsra" -> 10 [] k = "obsdec" -> -11 [] k = "lon" -> 116 [] k = "lat" -> -26 [] k = "alt" -> 378
Instead(k) == CASE k = "obsra" -> 20 [] k = "obsdec" -> -21 [] k = "lon" -> 100 [] k = "lat" -> -30 [] k = "alt" -> 400
MetaVal(x, k) == IF k \in Range(x.has) THEN Stored(k) ELSE Instead(k)
(* the reference channel in halves: it may lie between two *)
Freq(x, f) == (2 * f - x.crpix2) * (x.fres \div 2) + x.fref
Jd0(x) == IF x.dates = 2 THEN TimeW(x, 1) ELSE 0

IClauses == {"returns", "rows", "antennas", "uvw", "times", "visibilities", "weights", "counts", "channels", "tiles", "position", "site", "date"}
IHolds(k, rec) ==
  LET x == rec.x  n == Len(x.rows) IN
  IF k = "returns" THEN rec.ok ELSE IF ~rec.ok THEN TRUE ELSE
  CASE k = "rows" -> Len(rec.ant) = n /\ Len(rec.time) = n /\ Len(rec.uvw) = n
    [] k = "antennas" -> \A r \in 1..Min2(n, Len(rec.ant)) : rec.ant[r] = Ant(x, r)
    [] k = "uvw" -> \A r \in 1..Min2(n, Len(rec.uvw)) : rec.uvw[r] = <<x.rows[r].u, x.rows[r].v, x.rows[r].w>>
    [] k = "times" -> \A r \in 1..Min2(n, Len(rec.time)) : rec.time[r] = TimeW(x, r)
    [] k = "visibilities" -> /\ Len(rec.vis) = NPolOut(x)
                             /\ \A p \in 1..NPolOut(x) : Len(rec.vis[p]) = x.nf /\ \A f \in 1..x.nf : rec.vis[p][f] = [r \in 1..n |-> Vis(x, p, f, r)]
    [] k = "weights" -> /\ Len(rec.wgt) = NPolOut(x)
                        /\ \A p \in 1..NPolOut(x) : Len(rec.wgt[p]) = x.nf /\ \A f \in 1..x.nf : rec.wgt[p][f] = [r \in 1..n |-> Wgt(x, p, f, r)]
    [] k = "counts" -> rec.meta.n_freq = x.nf /\ rec.meta.n_pol = x.np /\ rec.meta.n_baselines = n
    [] k = "channels" -> rec.freq = [f \in 1..x.nf |-> Freq(x, f)]
    [] k = "tiles" -> rec.meta.n_tile = x.tiles
    [] k = "position" -> rec.meta.obsra = MetaVal(x, "obsra") /\ rec.meta.obsdec = MetaVal(x, "obsdec")
    [] k = "site" -> rec.meta.lon = MetaVal(x, "lon") /\ rec.meta.lat = MetaVal(x, "lat") /\ rec.meta.alt = MetaVal(x, "alt")
    [] k = "date" -> rec.meta.jd0 = Jd0(x) /\ rec.meta.dateobs = Jd0(x)
IVerdict(rec) == {k \in IClauses : ~IHolds(k, rec)}
=============================================================================
