-------------------------------- MODULE Alike --------------------------------
(***************************************************************************)
(* Approximate equality.  Coordinates are on a lattice and the tolerance   *)
(* is eps + 1/2 lattice units, so that two coordinates are equal enough    *)
(* iff they are at most eps units apart.                                   *)
(***************************************************************************)
EXTENDS Geo

NearP(p, q, e) == \A c \in 1..Len(p) : Abs(p[c] - q[c]) <= e
(* segments have no direction *)
NearLine(a, b, c, d, e) == \/ NearP(a, c, e) /\ NearP(b, d, e)
                           \/ NearP(a, d, e) /\ NearP(b, c, e)
NearString(p, q, e) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : NearP(p[k], q[k], e)
(* but equality is directed and exact *)
SameLine(a, b, c, d) == a = c /\ b = d
=============================================================================
