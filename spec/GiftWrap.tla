------------------------------ MODULE GiftWrap ------------------------------
(***************************************************************************)
(* Gift wrapping with a `visited` set of rejected points, as the library   *)
(* performs it.                                                            *)
(***************************************************************************)
EXTENDS Hull, TLC

CONSTANTS Inputs
VARIABLES pts, start, cur, best, j, visited, hull, pc
vars == <<pts, start, cur, best, j, visited, hull, pc>>

N == Len(pts)
DropClosing(s) == IF Len(s) > 1 /\ s[1] = s[Len(s)] THEN SubSeq(s, 2, Len(s)) ELSE s

Init == /\ \E s \in Inputs : pts = DropClosing(s)
        /\ start = Lowest(pts)
        /\ cur = start /\ best = 0 /\ j = 0 /\ visited = {} /\ hull = <<>>
        /\ pc = IF Len(pts) <= 2 THEN "trivial" ELSE "emit"
(* one or two points are returned as they are *)
Trivial == /\ pc = "trivial" /\ hull' = pts /\ pc' = "done"
           /\ UNCHANGED <<pts, start, cur, best, j, visited>>

(* record the current vertex and pick an initial candidate *)
Emit == /\ pc = "emit"
        /\ hull' = Append(hull, pts[cur])
        /\ visited' = IF cur = start THEN visited ELSE visited \cup {cur}
        /\ LET e == (cur % N) + 1 IN best' = IF e \in visited' THEN start ELSE e
        /\ j' = 1
        /\ pc' = "scan"
        /\ UNCHANGED <<pts, start, cur>>

Skip == j = cur \/ j = best \/ j \in visited
Consider ==
    /\ pc = "scan" /\ j <= N
    /\ IF Skip THEN UNCHANGED <<best, visited>>
       ELSE LET o == Orient(pts[cur], pts[best], pts[j]) IN
            CASE o = -1 -> best' = j /\ UNCHANGED visited
              [] o = 0 -> IF Dist2(pts[cur], pts[j]) > Dist2(pts[cur], pts[best])
                          THEN best' = j /\ UNCHANGED visited
                          ELSE /\ visited' = IF j # start THEN visited \cup {j} ELSE visited
                               /\ UNCHANGED best
              [] OTHER -> UNCHANGED <<best, visited>>
    /\ j' = j + 1
    /\ UNCHANGED <<pts, start, cur, hull, pc>>
Advance ==
    /\ pc = "scan" /\ j > N
    /\ cur' = best
    /\ IF pts[best] = pts[start]
       THEN hull' = Append(hull, pts[best]) /\ pc' = "done"
       ELSE pc' = "emit" /\ UNCHANGED hull
    /\ UNCHANGED <<pts, start, best, j, visited>>
Next == Trivial \/ Emit \/ Consider \/ Advance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ClosedConvexHull == pc = "done" => IsHull(RangeOf(pts), hull)
VerticesAreInputs == RangeOf(hull) \subseteq RangeOf(pts)
(* wrapping never visits more vertices than there are input points *)
Bounded == Len(hull) <= N + 1
Terminates == <>(pc = "done")

CONSTANTS W, H, MaxLen
AllInputs == SeqsUpTo(Grid(W, H), 0, MaxLen)
=============================================================================
