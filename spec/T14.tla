--------------------------------- MODULE T14 ---------------------------------
(***************************************************************************)
(* Trace specification for histories of operations on one box: one step    *)
(* per operation; every observation of the box is compared at every step.  *)
(* Recorded positions are doubled, so that centers are integers.           *)
(***************************************************************************)
EXTENDS Boxes, TraceIO
VARIABLES i, k, b
vars == <<i, k, b>>
R == Trace[i]

Twice(p) == [c \in 1..Len(p) |-> 2 * p[c]]
Pts(s) == [j \in 1..Len(s) |-> Twice(s[j])]
Sees(x, r) ==
    IF x = NoBox
    THEN r.lo = <<>> /\ r.hi = <<>> /\ r.center = <<>> /\ r.ext = <<>>
         /\ r.mm = <<>> /\ r.hull = <<>> /\ r.outline = <<>>
    ELSE /\ r.lo = <<Twice(x[1])>> /\ r.hi = <<Twice(x[2])>>
         /\ r.center = <<[c \in 1..Len(x[1]) |-> x[1][c] + x[2][c]]>>
         /\ r.ext = <<Twice(x[1]), Twice(x[2]), [c \in 1..Len(x[1]) |-> 2 * (x[2][c] - x[1][c])]>>
         /\ IF R.k = "d2"
            THEN r.mm = Pts(x) /\ r.hull = Pts(Corners(x)) /\ r.outline = Pts(Corners(x))
            ELSE TRUE

Init == i \in 1..NTrace /\ k = 1 /\ b = NoBox
Op == /\ R.st = "ok" /\ k >= 1 /\ k <= Len(R.ops)
      /\ LET x == Apply(b, R.ops[k]) IN
         /\ Holds(R.res[k].yes = Answer(b, R.ops[k]))
         /\ Holds(Sees(x, R.res[k]))
         /\ b' = x
      /\ k' = k + 1 /\ UNCHANGED i
End == /\ R.st = "ok" /\ k = Len(R.ops) + 1 /\ Matched(i)
       /\ k' = 0 /\ UNCHANGED <<i, b>>
Next == Op \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
