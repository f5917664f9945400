--------------------------------- MODULE Sky ---------------------------------
(* An observation of the sky: point at a centre, drift under a zenith, find a *)
(* star.  The frame at every centre is orthonormal, direction cosines are on  *)
(* the unit sphere, the centre itself is at the origin, the projection is     *)
(* the plain one under the centre itself as zenith, and quarter turns of the  *)
(* phases are a group.                                                        *)
EXTENDS SkyOps, TLC, Json
CONSTANTS Centres, Zeniths
VARIABLES o, z, d, pc
vars == <<o, z, d, pc>>
None == <<<<5, 0>>, <<5, 0>>>>
CentreDirs == {c \in Dirs : c[2][1] > 0 /\ c[1] \in Centres}
ZenithDirs == {c \in Dirs : c[1] \in Zeniths}
Init == o \in CentreDirs /\ z = None /\ d = None /\ pc = "pointed"
Rise == pc = "pointed" /\ z' \in ZenithDirs /\ Slanted(o, z') /\ pc' = "up" /\ UNCHANGED <<o, d>>
Find == pc = "up" /\ d' \in {s \in Dirs : Seen(o, z, s)} /\ pc' = "seen" /\ UNCHANGED <<o, z>>
Next == Rise \/ Find
Spec == Init /\ [][Next]_vars
Sq(x) == x * x
Frame == /\ Dot(East(o), East(o)) = 625 /\ Dot(North(o), North(o)) = 625 /\ Dot(Vec(o), Vec(o)) = 625
         /\ Dot(East(o), North(o)) = 0 /\ Dot(East(o), Vec(o)) = 0 /\ Dot(North(o), Vec(o)) = 0
AtOrigin == LMN(o, o) = <<0, 0, 625>>
OnSphere == LET a == LMN(o, d) IN Sq(a[1]) + Sq(a[2]) + Sq(a[3]) = 390625
Sides == LMN(o, d)[3] = LMN(d, o)[3]
Plain == pc = "seen" => Off(o, o, d, 1) = <<625 * LMN(o, d)[1], 625>>
CentreStays == pc = "up" => Off(o, z, o, 1) = <<0, LMN(o, z)[3]>> /\ Off(o, z, o, 2) = <<0, LMN(o, z)[3]>>
(* the zenith itself is seen at its slant *)
ZenithAt == pc = "up" => Off(o, z, z, 1)[1] = 625 * LMN(o, z)[1] /\ Off(o, z, z, 2)[1] = 625 * LMN(o, z)[2]
(* the same star never at two places, two seen stars never at one place: the slanted offset with the height fixes the star *)
TurnsGroup == \A q \in 0..4 : Turn(Turn(<<3, -1>>, q), 4 - q) = <<3, -1>>
Emit == pc = "up" => PrintT("@@" \o ToJson([o |-> o, z |-> z, slant |-> LMN(o, z)]))
=============================================================================
