--------------------------------- MODULE T06 ---------------------------------
(***************************************************************************)
(* Trace specification for the multi threaded hull: whatever the chunk     *)
(* size, the pool and the schedule were, the result is the hull.           *)
(***************************************************************************)
EXTENDS Hull, TraceIO
VARIABLES i, pc
vars == <<i, pc>>

Pick(p, ix) == [k \in 1..Len(ix) |-> p[ix[k] + 1]]
IndexLoop(r, h) ==
    /\ RangeOf(h) \subseteq RangeOf(r.ix)
    /\ IsHull(RangeOf(Pick(r.pts, r.ix)), Pick(r.pts, h))
Accept(r) ==
    /\ r.st = "ok"
    /\ IndexLoop(r, r.out)
    (* the same vertices as the single threaded algorithm finds *)
    /\ RangeOf(Pick(r.pts, r.out)) = RangeOf(Pick(r.pts, r.seq))
    (* the method on a line string hulls all of its points; it needs chunks of at least two *)
    /\ r.chunk > 1 => IsHull(RangeOf(r.pts), r.m)

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
