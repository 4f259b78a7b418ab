--------------------------------- MODULE T12 ---------------------------------
(***************************************************************************)
(* Trace specification for divide_into_shapes().                           *)
(***************************************************************************)
EXTENDS Graph, TraceIO
VARIABLES i, pc
vars == <<i, pc>>

RECURSIVE MaxOf(_, _, _)
MaxOf(s, k, m) == IF k > Len(s) THEN m ELSE MaxOf(s, k + 1, IF s[k] > m THEN s[k] ELSE m)

Accept(r) ==
    /\ r.st = "ok"
    /\ LET E == EdgesOf(r.ix) IN
       /\ Divides(E, r.groups)
       \* the vertices in the middle of shapes (or on loops) are flagged
       /\ {r.set[k] : k \in 1..Len(r.set)} = Through(E)
       /\ r.size = MaxOf(SubSeq(r.ix, 1, 2 * (Len(r.ix) \div 2)), 1, 0) + 1

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
