--------------------------------- MODULE T07 ---------------------------------
(***************************************************************************)
(* Trace specification for point-in-hull and hull-in-hull queries.         *)
(***************************************************************************)
EXTENDS Hull, TraceIO
VARIABLES i, pc
vars == <<i, pc>>

Points(r) ==
    /\ r.k = "pts"
    /\ \A j \in 1..Len(r.q) :
         LET in == InsideInclusive(r.h, r.q[j])
             ex == InsideExclusive(r.h, r.q[j])
         IN /\ r.inc[j] = in /\ r.minc[j] = in /\ r.oinc[j] = in
            /\ r.exc[j] = ex /\ r.mexc[j] = ex /\ r.oexc[j] = ex
(* loops without area: a point (closed or not) or a segment *)
NoArea(r) ==
    /\ r.k = "deg"
    /\ \A j \in 1..Len(r.q) :
         LET in == InLoop(r.h, r.q[j])
         IN /\ r.inc[j] = in /\ r.minc[j] = in
            /\ ~r.exc[j] /\ ~r.mexc[j]
            /\ Len(r.h) = 2 => r.oinc[j] = in
Hulls(r) ==
    /\ r.k = "hh"
    /\ LET c == \A j \in 1..Len(r.b) : InLoop(r.a, r.b[j])
       IN r.ch = c /\ r.chp = c

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Trace[i].st = "ok"
          /\ Holds(Points(Trace[i]) \/ NoArea(Trace[i]) \/ Hulls(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
