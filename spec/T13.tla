--------------------------------- MODULE T13 ---------------------------------
(***************************************************************************)
(* Trace specification for discretize(): every item the iterator returned  *)
(* is one step of the walk.                                                *)
(***************************************************************************)
EXTENDS Discrete, TraceIO
VARIABLES i, k, w
vars == <<i, k, w>>
S == 1024
R == Trace[i]

Init == /\ i \in 1..NTrace /\ k = 1
        /\ w = Start(Trace[i].pts, <<Trace[i].d, Trace[i].q>>)

Item == /\ R.st = "ok" /\ ~AtEnd(R.pts, w) /\ k >= 1 /\ k <= Len(R.out)
        /\ Holds(\A c \in 1..Len(R.pts[1]) :
                   Near(R.out[k][c], PointAt(R.pts, w)[c], Denominator(R.pts, w), S, 1))
        /\ k' = k + 1 /\ w' = Step(R.pts, <<R.d, R.q>>, w) /\ UNCHANGED i
(* the walk is over exactly when the iterator ends, and it stays at the end *)
End == /\ R.st = "ok" /\ AtEnd(R.pts, w) /\ k = Len(R.out) + 1 /\ R.fused
       /\ Matched(i) /\ k' = 0 /\ UNCHANGED <<i, w>>
Next == Item \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
