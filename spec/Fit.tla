--------------------------------- MODULE Fit ---------------------------------
(***************************************************************************)
(* One box is fitted into another one: the boxes are made, a point is sent *)
(* there and back again.                                                   *)
(***************************************************************************)
EXTENDS Frames, TLC, Json

CONSTANTS W, Least
VARIABLES a, b,      \* two corners of the boxes
          p,         \* the point
          there, back,
          pc
vars == <<a, b, p, there, back, pc>>
G == Grid(W, W)
A == BoxOf(a)
B == BoxOf(b)
Init == a = <<>> /\ b = <<>> /\ p = <<0, 0>> /\ there = <<>> /\ back = <<>> /\ pc = "boxes"
Corner == /\ pc = "boxes"
          /\ \E q \in G : \/ Len(a) < 2 /\ a' = Append(a, q) /\ b' = b
                          \/ Len(a) = 2 /\ Len(b) < 2 /\ b' = Append(b, q) /\ a' = a
          /\ UNCHANGED <<p, there, back, pc>>
Choose == /\ pc = "boxes" /\ Len(b) = 2 /\ p' \in G \cup {<<0 - W, 2 * W>>} /\ pc' = "point"
          /\ UNCHANGED <<a, b, there, back>>
(* numerators and denominator, in lowest terms *)
Reduced(n, d) == RatPt(n[1], n[2], d)
There == /\ pc = "point" /\ there' = Reduced(FitAB(A, B, Least, p), 2 * FitDen(A, Least)) /\ pc' = "there"
         /\ UNCHANGED <<a, b, p, back>>
(* the way back, from a fraction: as in FitBA *)
BackFrom(q) ==
    LET d == FitDen(A, Least) n == FitNum(B, Least)
        C(x, c) == (2 * x - Center2(B)[c] * q.d) * d + Center2(A)[c] * n * q.d
    IN Reduced(<<C(q.x, 1), C(q.y, 2)>>, 2 * n * q.d)
Back == /\ pc = "there" /\ back' = BackFrom(there) /\ pc' = "back"
        /\ UNCHANGED <<a, b, p, there>>
Next == Corner \/ Choose \/ There \/ Back
Spec == Init /\ [][Next]_vars

RoundTrip == pc = "back" => back = IntPt(p)
(* both ways round: for integer points BackFrom is FitBA *)
SameWayBack == pc = "point" => BackFrom(IntPt(p)) = Reduced(FitBA(A, B, Least, p), 2 * FitNum(B, Least))
(* what is in A lands in B, unless B is smaller than a box can be *)
LandsInside == (pc \in {"there", "back"} /\ Inside(A, p) /\ \A c \in 1..2 : 2 * (B[2][c] - B[1][c]) >= Least) =>
    \A c \in 1..2 : LET v == IF c = 1 THEN there.x ELSE there.y
                    IN B[1][c] * there.d <= v /\ v <= B[2][c] * there.d
(* the center goes to the center *)
CenterToCenter == (pc = "there" /\ 2 * p[1] = Center2(A)[1] /\ 2 * p[2] = Center2(A)[2]) =>
    there = Reduced(Center2(B), 2)
Emit == pc = "back" => PrintT("CASE " \o ToJson([k |-> "fit", a |-> a, b |-> b, p |-> p]))
=============================================================================
