-------------------------------- MODULE Query --------------------------------
(***************************************************************************)
(* A line string is asked for its intersections with a segment: for all of *)
(* them, for the first one, and (a convex loop) for the two places where   *)
(* the segment enters and leaves. All three go over the edges in order.    *)
(***************************************************************************)
EXTENDS Hits, Hull, TLC, Json

CONSTANTS W, H, N, Convex     \* Convex: only strictly convex loops are built
VARIABLES pts, c, d, k,
          all, two,           \* answers so far: edges that meet it, and at most two places
          pc
vars == <<pts, c, d, k, all, two, pc>>
Closed(l) == Append(l, l[1])

Init == /\ pts = <<>> /\ c = <<0, 0>> /\ d = <<0, 0>>
        /\ k = 1 /\ all = <<>> /\ two = <<>> /\ pc = "build"
AddPoint == /\ pc = "build" /\ Len(pts) < N
            /\ \E q \in Grid(W, H) :
                 /\ Convex => /\ pts # <<>> => LexLess(pts[1], q)
                              /\ \A m \in 1..Len(pts) : pts[m] # q
                              /\ \A m \in 1..Len(pts) - 1 : Orient(pts[m], pts[m + 1], q) = 1
                 /\ pts' = Append(pts, q)
            /\ UNCHANGED <<c, d, k, all, two, pc>>
Close == /\ pc = "build" /\ Convex /\ Len(pts) >= 3 /\ IsHullLoop(RangeOf(pts), Closed(pts))
         /\ pts' = Closed(pts) /\ pc' = "built" /\ UNCHANGED <<c, d, k, all, two>>
Leave == /\ pc = "build" /\ ~Convex /\ pc' = "built" /\ UNCHANGED <<pts, c, d, k, all, two>>
Ask == /\ pc = "built"
       /\ c' \in Grid(W, H) /\ d' \in Grid(W, H) /\ (Convex => c' # d')
       /\ pc' = "edges" /\ UNCHANGED <<pts, k, all, two>>
Add(s, p) == IF Len(s) = 2 \/ \E m \in 1..Len(s) : s[m] = p THEN s ELSE Append(s, p)
Edge == /\ pc = "edges" /\ k < Len(pts)
        /\ LET x == Classify(pts[k], pts[k + 1], c, d) IN
           /\ all' = IF IsHit(x) THEN Append(all, x) ELSE all
           /\ two' = CASE x.kind = "none" -> two
                       [] x.kind = "point" -> Add(two, x.p)
                       [] x.kind = "overlap" -> Add(Add(two, IntPt(x.lo)), IntPt(x.hi))
        /\ k' = k + 1 /\ UNCHANGED <<pts, c, d, pc>>
Stop == pc = "edges" /\ k >= Len(pts) /\ pc' = "done" /\ UNCHANGED <<pts, c, d, k, all, two>>
Next == AddPoint \/ Close \/ Leave \/ Ask \/ Edge \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Ask \/ Edge \/ Stop)

Done == pc = "done"
Places == AllCandidates(EdgeHits(pts, c, d))
AllOfThem == Done => all = SelectSeq(EdgeHits(pts, c, d), IsHit)
(* a convex loop is met in two places at most, and those are found *)
TwoAreEnough == (Done /\ Convex) => Cardinality(Places) <= 2 /\ RangeOf(two) = Places
TwoOfThem == Done => RangeOf(two) \subseteq Places /\ Len(two) = Min(2, Cardinality(Places))
(* with one end strictly inside and the other one strictly outside there is exactly one place *)
InAndOut == (Done /\ Convex /\ InsideExclusive(pts, c) /\ ~InsideInclusive(pts, d)) => Len(two) = 1
(* no intersection with a convex loop: both ends are on the same side of it *)
Unmet == (Done /\ Convex /\ all = <<>>) => InsideExclusive(pts, c) = InsideExclusive(pts, d)
Terminates == (pc = "edges") ~> Done
Emit == Done => PrintT("CASE " \o ToJson([k |-> IF Convex THEN "convex" ELSE "line", pts |-> pts, c |-> c, d |-> d]))
=============================================================================
