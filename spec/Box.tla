--------------------------------- MODULE Box ---------------------------------
(***************************************************************************)
(* Histories of operations on one 2D box, against what the box means: the  *)
(* least box around all points that were added.                            *)
(***************************************************************************)
EXTENDS Boxes, TLC, Json
CONSTANTS W, MaxOps, Emit
VARIABLES box, pts, ops
vars == <<box, pts, ops>>

P == Grid(W, W)
O(op, v) == [op |-> op, v |-> v, mul |-> 1, add |-> 0]
(* start in any way, then add or transform *)
Ctor == {O("empty", <<>>)} \cup {O(c, <<p>>) : c \in {"with", "new", "from"}, p \in P}
Updates == {O("pt", <<p>>) : p \in P} \cup {O("box", <<p, q>>) : p \in P, q \in P}
           \cup {O("pts", <<>>), O("box", <<>>)} \cup {O("pts", <<p, q>>) : p \in P, q \in P}
           \cup {[op |-> "apply", v |-> <<>>, mul |-> 2, add |-> 1]}
Init == box = NoBox /\ pts = {} /\ ops = <<>>
Step(o) ==
    /\ box' = Apply(box, o) /\ ops' = Append(ops, o)
    /\ pts' = CASE o.op \in {"empty"} -> {}
                [] o.op \in {"with", "new", "from"} -> RangeOf(o.v)
                [] o.op = "apply" -> {[c \in 1..2 |-> p[c] * o.mul + o.add] : p \in pts}
                [] OTHER -> pts \cup RangeOf(o.v)
Construct == ops = <<>> /\ \E o \in Ctor : Step(o)
Update == ops # <<>> /\ Len(ops) < MaxOps /\ \E o \in Updates : Step(o)
Next == Construct \/ Update
Spec == Init /\ [][Next]_vars

Empty == (box = NoBox) <=> (pts = {})
Contains == \A p \in pts : Inside(box, p)
Least == box # NoBox =>
    \A c \in 1..2 : /\ \E p \in pts : p[c] = box[1][c]
                    /\ \E p \in pts : p[c] = box[2][c]
(* containing a box is containing all its points *)
Closed == box # NoBox => \A o \in SUBSET P :
    (\A p \in o : Inside(box, p)) => o = {} \/
        \A p \in P : (\E lo, hi \in o : \A c \in 1..2 : lo[c] <= p[c] /\ p[c] <= hi[c]) => Inside(box, p)
EmitCase == (Emit /\ Len(ops) = MaxOps) => PrintT("CASE " \o ToJson([ops |-> ops]))
=============================================================================
