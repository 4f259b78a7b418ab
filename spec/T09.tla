--------------------------------- MODULE T09 ---------------------------------
(***************************************************************************)
(* Trace specification for the 3D Ramer-Douglas-Peucker simplifications.   *)
(***************************************************************************)
EXTENDS RdpCore, TraceIO
VARIABLES i, pc
vars == <<i, pc>>

At(p, ix) == [k \in 1..Len(ix) |-> p[ix[k] + 1]]
(* the indices returned are a subsequence of the indices given; `from` is the next one to use *)
RECURSIVE SubseqFrom(_, _, _, _)
SubseqFrom(s, k, t, j) ==
    IF k > Len(s) THEN TRUE
    ELSE IF j > Len(t) THEN FALSE
    ELSE IF s[k] = t[j] THEN SubseqFrom(s, k + 1, t, j + 1)
    ELSE SubseqFrom(s, k, t, j + 1)

Accept(r) ==
    /\ r.st = "ok"
    /\ Simplifies(LineDist3, r.pts, r.d, r.out)
    /\ SubseqFrom(r.iout, 1, r.ix, 1)
    /\ Simplifies(LineDist3, At(r.pts, r.ix), r.d, At(r.pts, r.iout))

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
