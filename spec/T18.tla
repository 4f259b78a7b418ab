--------------------------------- MODULE T18 ---------------------------------
(***************************************************************************)
(* Trace specification for save_to_obj_file(): what a reader of the file   *)
(* gets back.                                                              *)
(***************************************************************************)
EXTENDS Geo, TraceIO
VARIABLES i, pc
vars == <<i, pc>>

RECURSIVE Flat(_)
Flat(gs) == IF gs = <<>> THEN <<>> ELSE Head(gs) \o Flat(Tail(gs))

Accept(r) ==
    /\ r.st = "ok"
    \* what could not be written is not passed over in silence
    /\ IF r.k \in {"badpath", "full"} THEN r.failed
       ELSE LET ls == Flat(r.lines)
                P == {ls[k][1] : k \in 1..Len(ls)} \cup {ls[k][2] : k \in 1..Len(ls)}
            IN /\ r.o = <<r.name>>
               \* every point once
               /\ RangeOf(r.v) = P /\ Len(r.v) = Cardinality(P)
               \* the lines, in order, by the number of their points
               /\ Len(r.l) = Len(ls)
               /\ \A k \in 1..Len(ls) :
                    /\ Len(r.l[k]) = 2
                    /\ \A c \in 1..2 : r.l[k][c] \in 1..Len(r.v) /\ r.v[r.l[k][c]] = ls[k][c]

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
