--------------------------------- MODULE T24 ---------------------------------
(***************************************************************************)
(* Trace specification for approximate equality (see Alike).               *)
(***************************************************************************)
EXTENDS Alike, TraceIO
VARIABLES i, pc
vars == <<i, pc>>

Line(r) ==
    /\ LET near == NearLine(r.a, r.b, r.c, r.d, r.eps)
       IN r.abs = near /\ r.sba = near /\ r.ulps = near /\ r.slu = near
    /\ r.eq = SameLine(r.a, r.b, r.c, r.d) /\ r.qe = r.eq
    /\ r.arr = r.a /\ r.arr1 = r.b /\ r.arr2 = r.a /\ r.arr3 = r.b
Vec(r) ==
    LET v == NearString(r.p, r.q, r.eps)
        v3 == v /\ (r.p = <<>> \/ Abs(r.dz) <= r.eps)
    IN r.abs = v /\ r.ulps = v /\ r.abs3 = v3 /\ r.ulps3 = v3

Accept(r) == r.st = "ok" /\ IF r.k = "line" THEN Line(r) ELSE Vec(r)

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
