------------------------------ MODULE RayMarch ------------------------------
(***************************************************************************)
(* closest_ray_intersection(): edge by edge, the nearest hit so far is     *)
(* kept.                                                                   *)
(***************************************************************************)
EXTENDS Rays, TLC, Json

CONSTANTS W, H, N
VARIABLES pts, o, dir,
          k,            \* the next edge
          best,         \* <<>> or <<nearest hit so far>>
          pc
vars == <<pts, o, dir, k, best, pc>>

Dirs == {<<1, 0>>, <<0, -1>>, <<1, 1>>, <<-2, 1>>, <<-1, 0>>, <<1, 2>>}
Init == /\ pts = <<>> /\ o \in Grid(W, H) /\ dir \in Dirs
        /\ k = 1 /\ best = <<>> /\ pc = "build"
AddPoint == /\ pc = "build" /\ Len(pts) < N
            /\ \E q \in Grid(W, H) :
                 /\ pts # <<>> => ~RunsOut(o, dir, pts[Len(pts)], q)
                 /\ pts' = Append(pts, q)
            /\ UNCHANGED <<o, dir, k, best, pc>>
Cast == pc = "build" /\ pc' = "march" /\ UNCHANGED <<pts, o, dir, k, best>>
Nearest(T) == CHOOSE t \in T : \A u \in T : ~Less(u, t)
March == /\ pc = "march" /\ k < Len(pts)
         /\ LET T == Ahead(Ts(o, dir, pts[k], pts[k + 1]))
            IN best' = IF T = {} THEN best
                       ELSE IF best = <<>> THEN <<Nearest(T)>>
                       ELSE IF Less(Nearest(T), best[1]) THEN <<Nearest(T)>> ELSE best
         /\ k' = k + 1 /\ UNCHANGED <<pts, o, dir, pc>>
Stop == pc = "march" /\ k >= Len(pts) /\ pc' = "done" /\ UNCHANGED <<pts, o, dir, k, best>>
Next == AddPoint \/ Cast \/ March \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Cast \/ March \/ Stop)

Done == pc = "done"
Edges == 1..Len(pts) - 1
OnString(p) == \E e \in Edges : ROnSegment(pts[e], pts[e + 1], p)
(* what was found is on the line string and ahead of the origin *)
IsHit == best # <<>> => best[1].n > 0 /\ OnString(PlaceAt(o, dir, best[1]))
(* so far nothing is nearer *)
NearestSoFar == pc = "march" =>
    \A e \in 1..k - 1 : \A t \in Ahead(Ts(o, dir, pts[e], pts[e + 1])) : best # <<>> /\ ~Less(t, best[1])
(* seen from a grid twice as fine: any of its points that the line string
   covers and that lies ahead on the ray is not nearer than what was found *)
Fine == {[x |-> x, y |-> y, d |-> 2] : x \in 0..2 * W, y \in 0..2 * H}
From(p) == <<p.x - 2 * o[1], p.y - 2 * o[2]>>
On(p) == Perp(From(p), dir) = 0 /\ Dot2(From(p), dir) > 0
Param(p) == [n |-> Dot2(From(p), dir), d |-> 2 * Dot2(dir, dir)]
NothingNearer == Done => \A p \in Fine :
    (On(p) /\ OnString(p)) => best # <<>> /\ ~Less(Param(p), best[1])
(* which way the line string is walked doesn't matter *)
Same(T, U) == {PlaceAt(o, dir, t) : t \in T} = {PlaceAt(o, dir, t) : t \in U}
Reversible == Done => LET A == Hits(pts, o, dir) B == Hits(Rev(pts), o, dir)
                      IN (A = {} /\ B = {}) \/ (A # {} /\ B # {}
                           /\ ~Less(Nearest(A), Nearest(B)) /\ ~Less(Nearest(B), Nearest(A)))
Terminates == <>Done
Emit == Done => PrintT("CASE " \o ToJson([pts |-> pts, o |-> o, dir |-> dir]))
=============================================================================
