------------------------------ MODULE Contain ------------------------------
(***************************************************************************)
(* Point in convex hull by bisection, as the library performs it: a fan of *)
(* triangles around the first vertex of the loop is halved by one edge and *)
(* one diagonal test until a single triangle is left.                      *)
(* First a hull is built, vertex by vertex, then a point is looked up.     *)
(* The loops of one or two vertices, that the hull algorithms return for   *)
(* points on a line, are compared as the segment they are.                 *)
(***************************************************************************)
EXTENDS Hull, TLC, Json

CONSTANTS W, H, MaxN
VARIABLES loop,         \* the vertices of the hull, counter clockwise
          p,            \* the point that is looked up
          lo, hi,       \* the part of the loop that is left
          anchored,     \* the part is seen from the first vertex (which lies before it)
          answer,       \* "none" as long as undecided, or the two answers
          pc
vars == <<loop, p, lo, hi, anchored, answer, pc>>

Left(a, b, q) == Orient(a, b, q) = 1
LeftOrOn(a, b, q) == Orient(a, b, q) >= 0
(* the queries: all of the grid, and one row more around it *)
Queries == {<<x, y>> : x \in (0 - 1)..(W + 1), y \in (0 - 1)..(H + 1)}
Closed(l) == Append(l, l[1])

Init == /\ loop = <<>> /\ p = <<0, 0>> /\ lo = 0 /\ hi = 0 /\ anchored = FALSE
        /\ answer = "none" /\ pc = "build"
AddVertex == /\ pc = "build" /\ Len(loop) < MaxN
             /\ \E q \in Grid(W, H) :
                  /\ \A k \in 1..Len(loop) : loop[k] # q
                  /\ \A k \in 1..Len(loop) - 1 : Left(loop[k], loop[k + 1], q)
                  /\ loop' = Append(loop, q)
             /\ UNCHANGED <<p, lo, hi, anchored, answer, pc>>
Complete == /\ pc = "build" /\ Len(loop) >= 1
            /\ Len(loop) >= 3 => IsHullLoop(RangeOf(loop), Closed(loop))
            /\ pc' = "hull"
            /\ UNCHANGED <<loop, p, lo, hi, anchored, answer>>
Ask == /\ pc = "hull"
       /\ \E q \in Queries : p' = q
       /\ lo' = 1 /\ hi' = Len(loop) /\ anchored' = FALSE /\ pc' = "bisect"
       /\ UNCHANGED <<loop, answer>>

Size == hi - lo + 1
Small == IF anchored THEN Size <= 2 ELSE Size <= 3
(* the vertex at which the part is halved *)
Mid == IF anchored THEN lo + ((Size + 1) \div 2) - 1 ELSE lo + Size \div 2
Flat == Len(loop) < 3
Bisect ==
    /\ pc = "bisect" /\ ~Small
    /\ IF ~LeftOrOn(loop[Mid - 1], loop[Mid], p)
       THEN pc' = "done" /\ answer' = "outside" /\ UNCHANGED <<lo, hi, anchored>>
       ELSE /\ UNCHANGED <<pc, answer>>
            /\ IF LeftOrOn(loop[1], loop[Mid], p)
               THEN lo' = Mid /\ anchored' = TRUE /\ UNCHANGED hi
               ELSE hi' = Mid /\ UNCHANGED <<lo, anchored>>
    /\ UNCHANGED <<loop, p>>

(* the last triangle; its first edge is a diagonal of the hull if anchored *)
Edges == {<<k, k + 1>> : k \in lo..hi - 1} \cup {<<hi, 1>>}
(* the bisection knows the point to be on the inner side of a diagonal *)
OnDiagonalSide == anchored => LeftOrOn(loop[1], loop[lo], p)
Decide ==
    /\ pc = "bisect" /\ Small /\ ~Flat
    /\ answer' =
        IF OnDiagonalSide /\ \A e \in Edges : Left(loop[e[1]], loop[e[2]], p) THEN "inside"
        ELSE IF OnDiagonalSide /\ \A e \in Edges : LeftOrOn(loop[e[1]], loop[e[2]], p) THEN "border"
        ELSE "outside"
    /\ pc' = "done"
    /\ UNCHANGED <<loop, p, lo, hi, anchored>>
(* no area: on the line of the two points (both are the same one if there is only one), and not beyond them *)
DecideFlat ==
    /\ pc = "bisect" /\ Flat
    /\ LET a == loop[1]
           b == loop[Len(loop)]
       IN answer' = IF /\ LeftOrOn(a, b, p) /\ LeftOrOn(b, a, p)
                       /\ Dot2(Sub(p, a), Sub(p, b)) <= 0
                    THEN "border" ELSE "outside"
    /\ pc' = "done"
    /\ UNCHANGED <<loop, p, lo, hi, anchored>>
Next == AddVertex \/ Complete \/ Ask \/ Bisect \/ Decide \/ DecideFlat
Spec == Init /\ [][Next]_vars /\ WF_vars(Bisect \/ Decide \/ DecideFlat)

(* a segment is the set of points between its ends *)
InClosure == IF Flat THEN OnSegment(loop[1], loop[Len(loop)], p) ELSE InsideInclusive(Closed(loop), p)
Exact == pc = "done" =>
    answer = IF ~Flat /\ InsideExclusive(Closed(loop), p) THEN "inside"
             ELSE IF InClosure THEN "border" ELSE "outside"
(* a point of the hull is in the part that is left, or a fan triangle of it *)
PartHoldsPoint == (pc = "bisect" /\ ~Flat /\ InsideInclusive(Closed(loop), p)) =>
    LET part == SubSeq(loop, lo, hi)
        fan == IF anchored THEN <<loop[1]>> \o part ELSE part
    IN InsideInclusive(Closed(fan), p)
Terminates == (pc = "bisect") ~> (pc = "done")

QuerySeq == LET w == W + 3 IN [k \in 1..w * (H + 3) |-> <<((k - 1) % w) - 1, ((k - 1) \div w) - 1>>]
Emit == pc = "hull" => PrintT("CASE " \o ToJson([h |-> Closed(loop), q |-> QuerySeq]))
=============================================================================
