-------------------------------- MODULE Boxes --------------------------------
(***************************************************************************)
(* Axis aligned boxes of any dimension: <<>> is the empty box, otherwise   *)
(* <<low, high>>.  Each operator is the effect of one operation.           *)
(***************************************************************************)
EXTENDS Geo

NoBox == <<>>
PMin(p, q) == [c \in 1..Len(p) |-> Min(p[c], q[c])]
PMax(p, q) == [c \in 1..Len(p) |-> Max(p[c], q[c])]
Grow(b, p) == IF b = NoBox THEN <<p, p>> ELSE <<PMin(b[1], p), PMax(b[2], p)>>
RECURSIVE GrowAll(_, _, _)
GrowAll(b, ps, k) == IF k > Len(ps) THEN b ELSE GrowAll(Grow(b, ps[k]), ps, k + 1)
BoxOf(ps) == GrowAll(NoBox, ps, 1)
Join(b, o) == IF o = NoBox THEN b ELSE Grow(Grow(b, o[1]), o[2])
Map(b, mul, add) ==
    IF b = NoBox THEN b
    ELSE [e \in 1..2 |-> [c \in 1..Len(b[e]) |-> b[e][c] * mul + add]]
Inside(b, p) == b # NoBox /\ \A c \in 1..Len(p) : b[1][c] <= p[c] /\ p[c] <= b[2][c]

(* the state after operation o *)
Apply(b, o) ==
    CASE o.op = "empty" -> NoBox
      [] o.op \in {"with", "new", "from", "corners"} -> BoxOf(o.v)
      [] o.op = "pt" -> Grow(b, o.v[1])
      [] o.op = "pts" -> GrowAll(b, o.v, 1)
      [] o.op = "box" -> Join(b, BoxOf(o.v))
      [] o.op = "apply" -> Map(b, o.mul, o.add)
      [] OTHER -> b
(* the answer of operation o *)
Answer(b, o) ==
    CASE o.op = "cp" -> Inside(b, o.v[1])
      [] o.op = "cl" -> Inside(b, o.v[1]) /\ Inside(b, o.v[2])
      [] o.op = "cb" -> LET x == BoxOf(o.v) IN x # NoBox /\ Inside(b, x[1]) /\ Inside(b, x[2])
      [] o.op = "eq" -> b = BoxOf(o.v)
      [] OTHER -> FALSE

(* counter clockwise, from the low corner *)
Corners(b) == <<b[1], <<b[2][1], b[1][2]>>, b[2], <<b[1][1], b[2][2]>>, b[1]>>
=============================================================================
