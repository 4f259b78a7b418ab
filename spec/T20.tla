--------------------------------- MODULE T20 ---------------------------------
(***************************************************************************)
(* Trace specification for the line string / segment queries.              *)
(***************************************************************************)
EXTENDS Hits, TraceIO
VARIABLES i, pc
vars == <<i, pc>>
S == 256

Hit(r, c) ==
    CASE c.kind = "none" -> FALSE
      [] c.kind = "point" -> r.kind = "point" /\ NearRat(r.p, c.p, S, 1)
      [] c.kind = "overlap" ->
            /\ r.kind = "overlap" /\ ~r.same
            /\ \/ NearRat(r.a, IntPt(c.lo), S, 1) /\ NearRat(r.b, IntPt(c.hi), S, 1)
               \/ NearRat(r.a, IntPt(c.hi), S, 1) /\ NearRat(r.b, IntPt(c.lo), S, 1)

(* find_all reports the intersecting edges in order, `intersection` the first *)
AllHits(r) ==
    LET x == SelectSeq(EdgeHits(r.pts, r.c, r.d), IsHit) IN
    /\ Len(r.all) = Len(x)
    /\ \A k \in 1..Len(x) : Hit(r.all[k], x[k])
    /\ IF x = <<>> THEN r.first.kind = "none" ELSE Hit(r.first, x[1])

(* a convex loop meets a segment in one or two places at most (or along an edge) *)
TwoHits(r) ==
    LET P == AllCandidates(EdgeHits(r.pts, r.c, r.d))
    IN IF Cardinality(P) <= 2
       THEN /\ Len(r.two) = Cardinality(P)
            /\ \A p \in P : \E k \in 1..Len(r.two) : NearRat(r.two[k], p, S, 1)
            /\ \A k \in 1..Len(r.two) : \E p \in P : NearRat(r.two[k], p, S, 1)
       ELSE \* not convex: two different ones out of them
            /\ Len(r.two) = 2
            /\ \A k \in 1..2 : \E p \in P : NearRat(r.two[k], p, S, 1)

Accept(r) == /\ r.st = "ok" /\ AllHits(r)
             /\ (r.k = "convex" => TwoHits(r))

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
