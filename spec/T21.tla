--------------------------------- MODULE T21 ---------------------------------
(***************************************************************************)
(* Trace specification for the edge iterators and simple observations of a *)
(* line string.  One trace is one line string; the steps are the calls of  *)
(* next() on the window iterator, then those on the chunk iterator.        *)
(***************************************************************************)
EXTENDS Geo, TraceIO
VARIABLES i, it, k, pos
vars == <<i, it, k, pos>>
R == Trace[i]

(* pos points have been passed; by is how far next() moves on *)
Edges(n, by) == IF by = 1 THEN Max(n - 1, 0) ELSE n \div 2
Left(n, by, p) == Edges(n, by) - p \div by
Sees(h, n, by, p) == h.len = Left(n, by, p) /\ h.empty = (Left(n, by, p) = 0)

Look(hist, by) ==
    /\ k <= Len(hist)
    /\ LET n == Len(R.pts)
           more == Left(n, by, pos) > 0
           \* the first look is at the fresh iterator
           p == IF k > 1 /\ more THEN pos + by ELSE pos
       IN /\ Holds(hist[k].seg = IF k > 1 /\ more THEN <<R.pts[pos + 1], R.pts[pos + 2]>> ELSE <<>>)
          /\ Holds(Sees(hist[k], n, by, p))
          /\ pos' = p
    /\ k' = k + 1 /\ UNCHANGED <<i, it>>

Closed(p) == p = <<>> \/ p[1] = p[Len(p)]
Shift(p) == [c \in 1..Len(p) |-> IF c = 2 THEN p[c] - 1 ELSE p[c] + 1]
Rest(r) ==
    LET n == Len(r.pts) IN
    /\ r.rem = (IF n % 2 = 1 THEN <<r.pts[n]>> ELSE <<>>)
    /\ r.rest = Edges(n, 1) /\ r.xlen = Edges(n, 1) /\ r.crest = Edges(n, 2)
    /\ r.conn = Closed(r.pts)
    /\ r.k = "d2" => r.count = IF n > 2 /\ Closed(r.pts) THEN n - 1 ELSE n
    /\ r.app = [j \in 1..n |-> Shift(r.pts[j])]

Init == i \in 1..NTrace /\ it = "win" /\ k = 1 /\ pos = 0
Window == R.st = "ok" /\ it = "win" /\ Look(R.win, 1)
Switch == R.st = "ok" /\ it = "win" /\ k = Len(R.win) + 1 /\ it' = "chk" /\ k' = 1 /\ pos' = 0 /\ UNCHANGED i
Chunk == R.st = "ok" /\ it = "chk" /\ Look(R.chk, 2)
End == /\ R.st = "ok" /\ it = "chk" /\ k = Len(R.chk) + 1 /\ Holds(Rest(R))
       /\ Matched(i) /\ it' = "end" /\ UNCHANGED <<i, k, pos>>
Next == Window \/ Switch \/ Chunk \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
