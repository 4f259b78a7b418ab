------------------------------- MODULE Graham -------------------------------
(***************************************************************************)
(* Graham's scan as the library performs it: pick the lowest-x start, sort *)
(* by angle around it (nearest first among equal angles), then push the    *)
(* points on a stack, popping while the turn is not strictly left.         *)
(***************************************************************************)
EXTENDS Hull, TLC, Json

CONSTANTS Inputs        \* the set of point sequences to explore
VARIABLES pts,          \* input (without a repeated closing point)
          todo,         \* sorted points not scanned yet
          hull,         \* the stack
          pc
vars == <<pts, todo, hull, pc>>

Start == pts[Lowest(pts)]

(* angle order around the start point; all points have x >= start.x, so the
   directions span a half plane and the cross product orders them *)
AngleLess(p, q) ==
    LET c == Cross(Start, p, q) IN c > 0 \/ (c = 0 /\ Dist2(Start, p) < Dist2(Start, q))

DropClosing(s) == IF Len(s) > 1 /\ s[1] = s[Len(s)] THEN SubSeq(s, 2, Len(s)) ELSE s

Init == /\ \E s \in Inputs : pts = DropClosing(s)
        /\ todo = <<>> /\ hull = <<>> /\ pc = "sort"

(* one or two points are returned as they are *)
Trivial == /\ pc = "sort" /\ Len(pts) <= 2
           /\ hull' = pts /\ pc' = "done"
           /\ UNCHANGED <<pts, todo>>
SortByAngle ==
    /\ pc = "sort" /\ Len(pts) > 2
    /\ LET rest == SelectSeq(pts, LAMBDA p : p # Start)
       IN  todo' = SortSeq(rest, AngleLess)
    /\ hull' = <<Start>>
    /\ pc' = "scan"
    /\ UNCHANGED pts

NotLeft(p) == Len(hull) > 1 /\ Cross(hull[Len(hull) - 1], hull[Len(hull)], p) <= 0

Pop == /\ pc = "scan" /\ todo # <<>>
       /\ NotLeft(Head(todo))
       /\ hull' = SubSeq(hull, 1, Len(hull) - 1)
       /\ UNCHANGED <<pts, todo, pc>>
Push == /\ pc = "scan" /\ todo # <<>>
        /\ ~NotLeft(Head(todo))
        /\ hull' = Append(hull, Head(todo))
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<pts, pc>>
Close == /\ pc = "scan" /\ todo = <<>>
         /\ hull' = IF Len(hull) > 1 THEN Append(hull, hull[1]) ELSE hull
         /\ pc' = "done"
         /\ UNCHANGED <<pts, todo>>
Next == Trivial \/ SortByAngle \/ Pop \/ Push \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* properties *)
ClosedConvexHull == pc = "done" => IsHull(RangeOf(pts), hull)
(* the stack is a strictly left-turning chain at every step *)
StackIsConvex == \A i \in 1..Len(hull) - 2 : pc = "scan" => Orient(hull[i], hull[i + 1], hull[i + 2]) = 1
VerticesAreInputs == RangeOf(hull) \subseteq RangeOf(pts)
HullIsExtremePoints ==
    (pc = "done" /\ Spanning(RangeOf(pts))) => RangeOf(hull) = HullVertices(RangeOf(pts))
Terminates == <>(pc = "done")

CONSTANTS W, H, MaxLen
AllInputs == SeqsUpTo(Grid(W, H), 0, MaxLen)
Emit == pc = "sort" => PrintT("CASE " \o ToJson([pts |-> pts]))
=============================================================================
