--------------------------------- MODULE T05 ---------------------------------
(***************************************************************************)
(* Trace specification for the sequential convex hulls: one trace is one   *)
(* point cloud handed to every hull algorithm of the library.              *)
(***************************************************************************)
EXTENDS Hull, TraceIO
VARIABLES i, pc
vars == <<i, pc>>

Pick(p, ix) == [k \in 1..Len(ix) |-> p[ix[k] + 1]]
ValidIx(r, out) == RangeOf(out) \subseteq RangeOf(r.ix)

(* the loops returned as points *)
PointLoop(r, h) == IsHull(RangeOf(r.pts), h)
(* the loops returned as indices into the vertices *)
IndexLoop(r, h) == ValidIx(r, h) /\ IsHull(RangeOf(Pick(r.pts, r.ix)), Pick(r.pts, h))
IndexOpen(r, h) == ValidIx(r, h) /\ IsHullNoLoop(RangeOf(Pick(r.pts, r.ix)), Pick(r.pts, h))

(* the deprecated scan is only good for points without duplicates, and three on a line come out as they are *)
Opened(p) == IF Len(p) > 1 /\ p[1] = p[Len(p)] THEN Tail(p) ELSE p
Plain(p) == /\ Cardinality(RangeOf(p)) = Len(p)
            /\ Len(p) > 3 \/ (Len(p) = 3 /\ Orient(p[1], p[2], p[3]) # 0)

Accept(r) ==
    /\ r.st = "ok"
    /\ Plain(Opened(r.pts)) => PointLoop(r, r.wo)
    /\ PointLoop(r, r.gs) /\ PointLoop(r, r.gw) /\ PointLoop(r, r.ls)
    /\ IndexLoop(r, r.igs) /\ IndexLoop(r, r.igw)
    /\ IndexOpen(r, r.ign) /\ IndexOpen(r, r.igl)

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
