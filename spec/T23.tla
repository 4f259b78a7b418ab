--------------------------------- MODULE T23 ---------------------------------
(* Trace specification for the orientation predicates. *)
EXTENDS Geo, TraceIO
VARIABLES i, pc
vars == <<i, pc>>

Accept(r) ==
    /\ r.st = "ok"
    /\ LET o == Orient(r.a, r.b, r.c)
       IN /\ r.o = o
          /\ r.oleft = (o = 1) /\ r.left = (o = 1)
          /\ r.olc = (o >= 0) /\ r.lc = (o >= 0)
          /\ r.cross = Cross(r.a, r.b, r.c)

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
