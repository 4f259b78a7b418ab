-------------------------------- MODULE Hits --------------------------------
(* Where a line string and a segment meet, edge by edge. *)
EXTENDS Geo

(* the classification of every edge against the segment c-d, in order *)
EdgeHits(pts, c, d) == [e \in 1..(IF Len(pts) > 1 THEN Len(pts) - 1 ELSE 0) |->
                           Classify(pts[e], pts[e + 1], c, d)]
IsHit(x) == x.kind # "none"
(* the points an answer of at most two points is made of *)
Candidates(x) == CASE x.kind = "none" -> {}
                   [] x.kind = "point" -> {x.p}
                   [] x.kind = "overlap" -> {IntPt(x.lo), IntPt(x.hi)}
AllCandidates(x) == UNION {Candidates(x[e]) : e \in 1..Len(x)}
=============================================================================
