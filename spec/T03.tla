--------------------------------- MODULE T03 ---------------------------------
(* Trace specification for IntersectionData. *)
EXTENDS SweepTrace
VARIABLES i, pc
vars == <<i, pc>>

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(AcceptSweep(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
