------------------------------ MODULE SweepTrace ------------------------------
(***************************************************************************)
(* What a recorded run of one of the sweep-line implementations must be:   *)
(* the intersections of the specification, in sweep order, with exactly    *)
(* the lines meeting there.                                                *)
(***************************************************************************)
EXTENDS Crossings, TraceIO
S == 1024
Tol == 8

Lines0(e) == {k - 1 : k \in e.l}    \* the code counts from 0
Same(o, e) == /\ NearRat(o.p, e.p, S, Tol)
              /\ RangeOf(o.l) = Lines0(e) /\ Len(o.l) = Cardinality(e.l)
Reported(out, E) ==
    /\ Len(out) = Cardinality(E)
    /\ \A e \in E : \E k \in 1..Len(out) : Same(out[k], e)
    /\ \A k \in 1..Len(out) : \E e \in E : Same(out[k], e)
(* bottom up, then left to right; rounded positions of one row may differ slightly *)
Ordered(out) ==
    \A k \in 1..Len(out) - 1 :
        \/ out[k].p[2] + 2 * Tol >= out[k + 1].p[2] /\ out[k].p[2] - 2 * Tol <= out[k + 1].p[2]
        \/ out[k].p[2] < out[k + 1].p[2]
Wanted(r) == LET E == Expected(r.segs, r.ign) IN IF r.stop THEN First(E) ELSE E
AcceptSweep(r) == /\ r.st = "ok" /\ r.len = Len(r.out)
                  /\ Reported(r.out, Wanted(r)) /\ Ordered(r.out)
=============================================================================
