------------------------------- MODULE VwCore -------------------------------
(***************************************************************************)
(* The decisions of the Visvalingam-Whyatt algorithm. The nodes 1..n of a  *)
(* polyline are linked in a chain; the inner ones can be deleted, the one  *)
(* spanning the smallest triangle with its neighbours first.               *)
(* The 2D version treats the closing vertex of a closed polyline as one    *)
(* more inner node (its successor is node 1 again), and doesn't touch a    *)
(* chain of exactly two inner nodes.                                       *)
(***************************************************************************)
EXTENDS Distance, TLC

Area2(a, b, c) == Abs(Cross(a, b, c))
Area3(a, b, c) == LET x == Cross3(Sub(b, a), Sub(c, a)) IN Dot3(x, x)

IsClosed(p) == p[1] = p[Len(p)]
Inner2(p) == 2..(IF IsClosed(p) THEN Len(p) ELSE Len(p) - 1)
Inner3(p) == 2..Len(p) - 1

(* the chain starts in node 1, and ends in the last node or, when closed (2D), one after it *)
RECURSIVE Prev(_, _), Succ(_, _, _)
Prev(alive, k) == IF k = 2 \/ k - 1 \in alive THEN k - 1 ELSE Prev(alive, k - 1)
Succ(alive, k, end) == IF k + 1 = end \/ k + 1 \in alive THEN k + 1 ELSE Succ(alive, k + 1, end)
At(p, k) == IF k > Len(p) THEN p[1] ELSE p[k]

Area(A(_, _, _), p, alive, end, k) ==
    A(p[Prev(alive, k)], p[k], At(p, Succ(alive, k, end)))
Smallest(A(_, _, _), p, alive, end) ==
    LET f == TLCEval([k \in alive |-> Area(A, p, alive, end, k)])
    IN {k \in alive : \A j \in alive : f[k] <= f[j]}

Sorted(p, alive) == SelectSeq([k \in 1..Len(p) |-> k], LAMBDA k : k \in alive)
Points(p, ix) == [k \in 1..Len(ix) |-> p[ix[k]]]

End2(p) == IF IsClosed(p) THEN Len(p) + 1 ELSE Len(p)
Stop2(alive) == Cardinality(alive) \in {0, 2}
Out2(p, alive) == Points(p, <<1>> \o Sorted(p, alive) \o (IF IsClosed(p) THEN <<>> ELSE <<Len(p)>>))

Out3(p, alive) == Points(p, <<1>> \o Sorted(p, alive) \o <<Len(p)>>)
(* known deviation: the 3D version forgets the last vertex *)
Out3Known(p, alive) == Points(p, <<1>> \o Sorted(p, alive))
=============================================================================
