------------------------------ MODULE Crossings ------------------------------
(***************************************************************************)
(* What the intersections of a set of line segments are, declaratively.    *)
(* L is a sequence of segments <<a, b>>; a = b is a segment without length *)
(***************************************************************************)
EXTENDS Geo

Low(s) == IF Below(s[2], s[1]) THEN s[2] ELSE s[1]
High(s) == IF Below(s[2], s[1]) THEN s[1] ELSE s[2]

(* all places where something can happen: end points and proper crossings *)
Places(L) ==
    {IntPt(L[i][1]) : i \in 1..Len(L)} \cup {IntPt(L[i][2]) : i \in 1..Len(L)} \cup
    UNION {UNION {LET c == Classify(L[i][1], L[i][2], L[j][1], L[j][2])
                  IN IF c.kind = "point" THEN {c.p} ELSE {} : j \in i + 1..Len(L)} : i \in 1..Len(L)}

Through(L, p) == {i \in 1..Len(L) : ROnSegment(L[i][1], L[i][2], p)}
IsEnd(s, p) == p = IntPt(s[1]) \/ p = IntPt(s[2])
Identical(s, t) == s[1] # s[2] /\ Low(s) = Low(t) /\ High(s) = High(t)

(* two or more segments meet in p; when end points are ignored at least one
   of them must pass through p with its interior, or two segments that are
   identical must start in p *)
Meeting(L, p, ignoreEnds) ==
    LET T == Through(L, p) IN
    /\ Cardinality(T) >= 2
    /\ ~ignoreEnds \/ (\E i \in T : ~IsEnd(L[i], p))
                   \/ (\E i, j \in T : i # j /\ Identical(L[i], L[j]) /\ p = IntPt(Low(L[i])))

Expected(L, ignoreEnds) ==
    {[p |-> p, l |-> Through(L, p)] : p \in {q \in Places(L) : Meeting(L, q, ignoreEnds)}}

(* the first one met when sweeping upwards, and then to the right *)
First(E) == {e \in E : \A f \in E : f = e \/ RBelow(e.p, f.p)}

(***************************************************************************)
(* Self intersection of an open or closed chain of points P (consecutive   *)
(* points differ): two edges share something that is not an end point of   *)
(* both of them.                                                           *)
(***************************************************************************)
SelfIntersecting(P) ==
    \E i \in 1..Len(P) - 1 : \E j \in i + 1..Len(P) - 1 :
        LET c == Classify(P[i], P[i + 1], P[j], P[j + 1])
        IN \/ c.kind = "overlap"
           \/ c.kind = "point" /\ ~(IsEnd(<<P[i], P[i + 1]>>, c.p) /\ IsEnd(<<P[j], P[j + 1]>>, c.p))
=============================================================================
