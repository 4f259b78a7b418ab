--------------------------------- MODULE T01 ---------------------------------
(***************************************************************************)
(* Trace specification for the intersection of two segments: one trace is  *)
(* one pair of segments, asked both ways around.                           *)
(***************************************************************************)
EXTENDS Geo, TraceIO
VARIABLES i, pc
vars == <<i, pc>>
R == Trace[i]
S == R.S

(* the answer of the code agrees with the exact classification *)
Answers(r, c) ==
    CASE c.kind = "none" -> r.kind = "none"
      [] c.kind = "point" -> r.kind = "point" /\ NearRat(r.p, c.p, S, 1)
      [] c.kind = "overlap" ->
            /\ r.kind = "overlap" /\ ~r.same
            /\ \/ NearRat(r.a, IntPt(c.lo), S, 1) /\ NearRat(r.b, IntPt(c.hi), S, 1)
               \/ NearRat(r.a, IntPt(c.hi), S, 1) /\ NearRat(r.b, IntPt(c.lo), S, 1)

(* the convenience accessors *)
Accessors(r, c) ==
    CASE c.kind = "none" -> TRUE
      [] c.kind = "point" -> r.single = r.r.p /\ r.close = r.r.p
      [] c.kind = "overlap" ->
            /\ r.single \in {r.r.a, r.r.b}
            /\ LET dl == Dist2(r.q, c.lo)
                   dh == Dist2(r.q, c.hi)
               IN \/ dl <= dh /\ NearRat(r.close, IntPt(c.lo), S, 1)
                  \/ dh <= dl /\ NearRat(r.close, IntPt(c.hi), S, 1)

Accept(r) ==
    /\ r.st = "ok"
    /\ LET c == Classify(r.a, r.b, r.c, r.d)
       IN Answers(r.r, c) /\ Answers(r.m, c) /\ Accessors(r, c)
    \* (rounding square roots to 24 bits leaves nothing of short distances to long segments)
    /\ r.ask => Answers(r.pc, IF OnSegment(r.a, r.b, r.c) THEN CommonPoint(IntPt(r.c)) ELSE NoCommon)

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
