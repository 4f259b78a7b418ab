------------------------------- MODULE SegInt -------------------------------
(***************************************************************************)
(* The intersection of two segments as the library computes it: segments   *)
(* without length, then bounding boxes, then either the parallel case (the *)
(* end points of the second segment as parameters along the first) or the  *)
(* crossing of the two lines.  One stage is one step.                      *)
(***************************************************************************)
EXTENDS Geo, TLC, Json

CONSTANTS W, H
VARIABLES a, b, c, d,   \* the segments a-b and c-d
          ans,          \* as a record like those of Geo!Classify
          pc
vars == <<a, b, c, d, ans, pc>>
Undecided == [kind |-> "undecided"]

Init == /\ a \in Grid(W, H) /\ b \in Grid(W, H) /\ c \in Grid(W, H) /\ d \in Grid(W, H)
        /\ ans = Undecided /\ pc = "called"
Answer(x) == ans' = x /\ pc' = "done" /\ UNCHANGED <<a, b, c, d>>
Goto(l) == pc' = l /\ UNCHANGED <<a, b, c, d, ans>>

(* a point and a segment: with the point in its bounding box *)
PointOn(p, s, e) == IF OnSegment(s, e, p) THEN CommonPoint(IntPt(p)) ELSE NoCommon
Point == /\ pc = "called"
         /\ IF a = b THEN Answer(PointOn(a, c, d))
            ELSE IF c = d THEN Answer(PointOn(c, a, b))
            ELSE Goto("boxes")
Apart(k) == Max(a[k], b[k]) < Min(c[k], d[k]) \/ Min(a[k], b[k]) > Max(c[k], d[k])
Boxes == /\ pc = "boxes"
         /\ IF Apart(1) \/ Apart(2) THEN Answer(NoCommon) ELSE Goto("direction")
r == Sub(b, a)
s == Sub(d, c)
rxs == Perp(r, s)
Direction == /\ pc = "direction" /\ Goto(IF rxs = 0 THEN "parallel" ELSE "crossing")
(* both segments directed the same way, the common part in units of r.r *)
Parallel ==
    /\ pc = "parallel"
    /\ LET p == LexMin(a, b)
           pe == LexMax(a, b)
           q == LexMin(c, d)
           qe == LexMax(c, d)
           u == Sub(pe, p)
           t0 == Max(Dot2(Sub(q, p), u), 0)
           t1 == Min(Dot2(Sub(q, p), u) + Dot2(Sub(qe, q), u), Dot2(u, u))
           At(t) == RatPt(p[1] * Dot2(u, u) + u[1] * t, p[2] * Dot2(u, u) + u[2] * t, Dot2(u, u))
       IN IF Perp(Sub(q, p), u) # 0 THEN Answer(NoCommon)
          ELSE IF t0 = t1 THEN Answer(CommonPoint(At(t0)))
          ELSE Answer([kind |-> "overlap", from |-> At(t0), to |-> At(t1)])
(* t and u, the parameters of the crossing along both lines, are in 0..1 *)
In01(num, den) == IF den > 0 THEN 0 <= num /\ num <= den ELSE den <= num /\ num <= 0
Crossing ==
    /\ pc = "crossing"
    /\ LET t == Perp(Sub(c, a), s)
           u == Perp(Sub(c, a), r)
       IN IF In01(t, rxs) /\ In01(u, rxs)
          THEN Answer(CommonPoint(RatPt(a[1] * rxs + r[1] * t, a[2] * rxs + r[2] * t, rxs)))
          ELSE Answer(NoCommon)
Next == Point \/ Boxes \/ Direction \/ Parallel \/ Crossing
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "done"
(* the answer is the classification the trace specifications use *)
Exact == Done =>
    LET e == Classify(a, b, c, d)
    IN IF e.kind = "overlap"
       THEN ans.kind = "overlap" /\ ans.from = IntPt(e.lo) /\ ans.to = IntPt(e.hi)
       ELSE ans = e
(* ... which means what it says: of all points of a grid three times as fine,
   those of the answer are the common ones *)
Fine == {[x |-> x, y |-> y, d |-> 3] : x \in 0..3 * W, y \in 0..3 * H}
Common(p) == ROnSegment(a, b, p) /\ ROnSegment(c, d, p)
Meaning == Done =>
    CASE ans.kind = "none" -> \A p \in Fine : ~Common(p)
      [] ans.kind = "point" -> /\ Common(ans.p)
                               /\ \A p \in Fine : Common(p) => RatPt(p.x, p.y, p.d) = ans.p
      [] ans.kind = "overlap" ->
           /\ Common(ans.from) /\ Common(ans.to) /\ ans.from # ans.to
           /\ \A p \in Fine : Common(p) <=>
                ROnSegment(<<ans.from.x, ans.from.y>>, <<ans.to.x, ans.to.y>>, p)
(* who is asked, and which way the segments are directed, doesn't matter *)
Symmetric == Done => /\ Classify(a, b, c, d) = Classify(c, d, a, b)
                     /\ Classify(a, b, c, d) = Classify(b, a, c, d)
                     /\ Classify(a, b, c, d) = Classify(a, b, d, c)
Terminates == <>Done
Emit == Done => PrintT("CASE " \o ToJson([a |-> a, b |-> b, c |-> c, d |-> d]))
=============================================================================
