--------------------------------- MODULE T19 ---------------------------------
(***************************************************************************)
(* Trace specification for the nearest hit of a ray on a line string.      *)
(* The generator leaves out rays that start on an edge they run along.     *)
(***************************************************************************)
EXTENDS Rays, TraceIO
VARIABLES i, pc
vars == <<i, pc>>
S == 256

(* a single edge: where the ray meets it, as a parameter; the edges that lie on the *)
(* line of the ray, but not ahead, are left out                                     *)
Edge(o, dir, a, b, te) ==
    LET T == Ts(o, dir, a, b) IN
    IF T = {} THEN te = <<>>
    ELSE LET t == CHOOSE x \in T : \A y \in T : ~Less(y, x)
         IN IF t.n > 0 \/ (t.n = 0 /\ Perp(dir, Sub(b, a)) # 0)
            THEN Len(te) = 1 /\ Near(te[1], t.n, t.d, S, 1)
            ELSE Perp(dir, Sub(b, a)) # 0 => te = <<>>
Accept(r) ==
    /\ r.st = "ok"
    /\ Len(r.te) = IF r.pts = <<>> THEN 0 ELSE Len(r.pts) - 1
    /\ \A e \in 1..Len(r.te) : Edge(r.o, r.dir, r.pts[e], r.pts[e + 1], r.te[e])
    /\ LET H == IF Len(r.pts) < 2 THEN {} ELSE Hits(r.pts, r.o, r.dir) IN
       IF H = {} THEN r.r = <<>>
       ELSE LET t == CHOOSE x \in H : \A y \in H : ~Less(y, x)
                p == PlaceAt(r.o, r.dir, t)
            IN Len(r.r) = 1 /\ NearRat(r.r[1], p, S, 1)

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
