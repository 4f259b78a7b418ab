------------------------------- MODULE Nearest -------------------------------
(***************************************************************************)
(* The distance of a point from a segment (2D) or from a line (3D): the    *)
(* point is projected, and the projection is where the distance is         *)
(* measured from, unless (2D) it is beyond an end of the segment.          *)
(***************************************************************************)
EXTENDS Distance, TLC, Json

CONSTANTS W, H, Three
VARIABLES a, b, p,
          t,            \* the projection, a + (b - a) * t.n / t.d
          pc
vars == <<a, b, p, t, pc>>
Space == IF Three THEN {<<x, y, z>> : x \in 0..W, y \in 0..H, z \in 0..H} ELSE Grid(W, H)


Init == a \in Space /\ b \in Space /\ p \in Space /\ t = [n |-> 0, d |-> 1] /\ pc = "asked"
Dot(u, v) == IF Three THEN Dot3(u, v) ELSE Dot2(u, v)
Degenerate == pc = "asked" /\ a = b /\ pc' = "done" /\ UNCHANGED <<a, b, p, t>>
Project == /\ pc = "asked" /\ a # b
           /\ t' = [n |-> Dot(Sub(p, a), Sub(b, a)), d |-> Dot(Sub(b, a), Sub(b, a))]
           /\ pc' = "projected" /\ UNCHANGED <<a, b, p>>
Clamp == /\ pc = "projected"
         /\ t' = IF Three THEN t ELSE [t EXCEPT !.n = Max(0, Min(t.d, @))]
         /\ pc' = "done" /\ UNCHANGED <<a, b, p>>
Next == Degenerate \/ Project \/ Clamp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the squared distance of p from a + (b - a) * n / d, as a fraction over d^2 *)
SqAt(n, d) == LET v == [c \in 1..Len(p) |-> (p[c] - a[c]) * d - (b[c] - a[c]) * n] IN Dot(v, v)
Stated == IF Three THEN LineDist3(a, b, p) ELSE SegDist2(a, b, p)
(* the distance the trace specification demands is the one to the point found *)
Exact == pc = "done" => Stated.n * t.d * t.d = SqAt(t.n, t.d) * Stated.d
(* no other point (of a finite sample) is closer *)
Others == IF Three THEN 0 - 8..16 ELSE 0..8
Closest == pc = "done" => \A m \in Others : Stated.n * 64 <= SqAt(m, 8) * Stated.d
(* it is zero exactly on the segment *)
OnIt == IF Three THEN Cross3(Sub(p, a), Sub(b, a)) = <<0, 0, 0>> /\ (a = b => p = a) ELSE OnSegment(a, b, p)
Zero == pc = "done" => ((Stated.n = 0) <=> OnIt)
Symmetric == pc = "done" =>
    LET o == IF Three THEN LineDist3(b, a, p) ELSE SegDist2(b, a, p) IN o.n * Stated.d = Stated.n * o.d
Terminates == <>(pc = "done")
Emit == pc = "done" => PrintT("CASE " \o ToJson([k |-> IF Three THEN "d3" ELSE "d2", a |-> a, b |-> b, p |-> p]))
=============================================================================
