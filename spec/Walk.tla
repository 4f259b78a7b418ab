-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* discretize() as a state machine: a polyline and a longest distance are  *)
(* chosen, then the walk takes one step at a time.                         *)
(***************************************************************************)
EXTENDS Discrete, TLC, Json

CONSTANTS W, H, N, Lengths   \* distances in quarters, 0 is infinity
VARIABLES pts, d, w,
          trail,             \* the steps so far: positions of the walk
          pc
vars == <<pts, d, w, trail, pc>>
Nowhere == [at |-> 0, sub |-> 0, n |-> 1]

Init == pts = <<>> /\ d \in {<<l, 4>> : l \in Lengths} /\ w = Nowhere /\ trail = <<>> /\ pc = "build"
AddPoint == /\ pc = "build" /\ Len(pts) < N
            /\ \E q \in Grid(W, H) : pts' = Append(pts, q)
            /\ UNCHANGED <<d, w, trail, pc>>
Begin == /\ pc = "build" /\ w' = Start(pts, d) /\ pc' = "walk" /\ UNCHANGED <<pts, d, trail>>
Item == /\ pc = "walk" /\ ~AtEnd(pts, w)
        /\ trail' = Append(trail, w) /\ w' = Step(pts, d, w)
        /\ UNCHANGED <<pts, d, pc>>
End == /\ pc = "walk" /\ AtEnd(pts, w) /\ pc' = "done" /\ UNCHANGED <<pts, d, w, trail>>
Next == AddPoint \/ Begin \/ Item \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Item \/ End)

Done == pc = "done"
Length2(k) == Sq(Sub(pts[k + 1], pts[k]), 1)
RECURSIVE Total(_)
Total(k) == IF k < 1 THEN 0 ELSE Total(k - 1) + Steps(pts[k], pts[k + 1], d)
(* every vertex is an item, in order, and so are the inner points of the segments *)
ItemsOf(k) == SelectSeq(trail, LAMBDA x : x.at = k)
Complete == Done =>
    /\ Len(trail) = (IF pts = <<>> THEN 0 ELSE Total(Len(pts) - 1) + 1)
    /\ \A k \in 1..Len(pts) - 1 :
         LET x == ItemsOf(k) IN
         /\ Len(x) = Steps(pts[k], pts[k + 1], d)
         /\ \A m \in 1..Len(x) : x[m].sub = m - 1 /\ x[m].n = Len(x)
    /\ pts # <<>> => PointAt(pts, trail[Len(trail)]) = pts[Len(pts)]
Ordered == \A k \in 1..Len(trail) - 1 : trail[k].at <= trail[k + 1].at
(* no step is longer than asked for, and there are not more steps than necessary *)
Fits(n, k) == d[1] = 0 \/ n * n * d[1] * d[1] >= d[2] * d[2] * Length2(k)
Fewest == Done => \A k \in 1..Len(pts) - 1 :
    LET n == Steps(pts[k], pts[k + 1], d) IN Fits(n, k) /\ (n = 1 \/ ~Fits(n - 1, k))
Terminates == <>Done
Emit == (pc = "walk" /\ trail = <<>>) => PrintT("CASE " \o ToJson([pts |-> pts, d |-> d[1]]))
=============================================================================
