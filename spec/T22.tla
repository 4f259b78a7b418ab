--------------------------------- MODULE T22 ---------------------------------
(* Trace specification for the point / line distances. *)
EXTENDS Distance, TraceIO
VARIABLES i, pc
vars == <<i, pc>>
S == 64

Accept(r) ==
    /\ r.st = "ok"
    /\ LET q == IF r.k = "d2" THEN SegDist2(r.a, r.b, r.p) ELSE LineDist3(r.a, r.b, r.p)
       IN Near(r.safe, q.n, q.d, S, 1) /\ Near(r.raw, q.n, q.d, S, 1)

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
