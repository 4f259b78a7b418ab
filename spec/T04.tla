--------------------------------- MODULE T04 ---------------------------------
(* Trace specification for IntersectionTester: the original vertices stay
   in place, new ones are appended, the results refer to them by index. *)
EXTENDS SweepTrace
VARIABLES i, pc
vars == <<i, pc>>

Accept(r) == AcceptSweep(r) /\ r.prefix

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
