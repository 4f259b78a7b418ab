------------------------------- MODULE Project -------------------------------
(***************************************************************************)
(* Points on their way between two and three dimensions: a cloud is laid   *)
(* out in a plane, its plane is found, it is projected along that plane    *)
(* and comes back.                                                         *)
(***************************************************************************)
EXTENDS Planes, TLC, Json

CONSTANTS W, N
VARIABLES flat,      \* the points in two dimensions
          plane,
          cloud,     \* the points in three dimensions
          back,
          pc
vars == <<flat, plane, cloud, back, pc>>
Axes == {"XY", "XZ", "YZ"}
Every(s, F(_)) == [k \in 1..Len(s) |-> F(s[k])]
Init == flat = <<>> /\ plane \in Axes /\ cloud = <<>> /\ back = <<>> /\ pc = "draw"
Draw == /\ pc = "draw" /\ Len(flat) < N /\ \E q \in Grid(W, W) : flat' = Append(flat, q)
        /\ UNCHANGED <<plane, cloud, back, pc>>
Raise == /\ pc = "draw" /\ LET F(p) == To3(plane, p) IN cloud' = Every(flat, F)
         /\ pc' = "raised" /\ UNCHANGED <<flat, plane, back>>
Find == /\ pc = "raised" /\ pc' = "found"
        /\ plane' = (IF ExactPlane(cloud) = "none" THEN plane ELSE ExactPlane(cloud))
        /\ UNCHANGED <<flat, cloud, back>>
Lower == /\ pc = "found" /\ LET F(p) == To2(plane, p) IN back' = Every(cloud, F)
         /\ pc' = "lowered" /\ UNCHANGED <<flat, plane, cloud>>
Next == Draw \/ Raise \/ Find \/ Lower
Spec == Init /\ [][Next]_vars

ThereAndBack == pc = "lowered" => back = flat
PointsToo == \A pl \in Axes : \A p \in Grid(W, W) : P2(pl, P3(pl, p)) = p /\ To2(pl, To3(pl, p)) = p
(* a flat cloud that is not a point or a line along an axis has one plane, the one it was drawn in *)
Extended == pc = "raised" /\ flat # <<>> /\ LET d == Extent(BoxOf(flat)) IN d[1] > 0 /\ d[2] > 0
Found == Extended => ExactPlane(cloud) = plane
(* the relaxed answer is the exact one as long as no extent is that much smaller than another *)
Agrees == Extended => RelaxedPlane(cloud, 5) = ExactPlane(cloud)
Nowhere == (pc = "raised" /\ ~Extended) => ExactPlane(cloud) = "none"
Emit == pc = "raised" => PrintT("CASE " \o ToJson([k |-> "plane", pts |-> cloud, eps |-> 5]))
EmitToo == pc = "lowered" => PrintT("CASE " \o ToJson([k |-> "proj", plane |-> plane, pts |-> cloud, pts2 |-> flat]))
=============================================================================
