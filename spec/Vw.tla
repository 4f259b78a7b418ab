--------------------------------- MODULE Vw ---------------------------------
(* Visvalingam-Whyatt as a state machine: one deletion per step. In 2D the
   closing vertex of a closed polyline takes part, in 3D it doesn't. *)
EXTENDS VwCore, TLC, Json

CONSTANTS W, H, N, Three   \* Three: in space
Space == IF Three THEN {<<x, y, z>> : x \in 0..W, y \in 0..H, z \in 0..H} ELSE Grid(W, H)
A(p, q, r) == IF Three THEN Area3(p, q, r) ELSE Area2(p, q, r)
Inner(p) == IF Three THEN Inner3(p) ELSE Inner2(p)
End(p) == IF Three THEN Len(p) ELSE End2(p)
Stop(s) == IF Three THEN s = {} ELSE Stop2(s)
Out(p, s) == IF Three THEN Out3(p, s) ELSE Out2(p, s)
VARIABLES pts, del, alive, deleted, pc
vars == <<pts, del, alive, deleted, pc>>

Init == /\ pts = <<>> /\ del \in 0..N + 1 /\ alive = {} /\ deleted = 0 /\ pc = "build"
AddPoint == /\ pc = "build" /\ Len(pts) < N
            /\ \E q \in Space : pts' = Append(pts, q)
            /\ UNCHANGED <<del, alive, deleted, pc>>
Start == /\ pc = "build" /\ Len(pts) = N
         /\ alive' = Inner(pts) /\ pc' = "run"
         /\ UNCHANGED <<pts, del, deleted>>
Done == Stop(alive) \/ deleted >= del
Delete == /\ pc = "run" /\ ~Done
          /\ \E k \in Smallest(A, pts, alive, End(pts)) : alive' = alive \ {k}
          /\ deleted' = deleted + 1
          /\ UNCHANGED <<pts, del, pc>>
Finish == /\ pc = "run" /\ Done /\ pc' = "done" /\ UNCHANGED <<pts, del, alive, deleted>>
Next == AddPoint \/ Start \/ Delete \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == Out(pts, alive)
Count == pc = "done" =>
    LET inner == Cardinality(Inner(pts))
    IN deleted = Cardinality(Inner(pts)) - Cardinality(alive)
       /\ deleted = (IF Three \/ inner <= 1 THEN Min(inner, del) ELSE Min(inner - 2, del))
StartKept == pc = "done" => Result[1] = pts[1]
OpenEndKept == (pc = "done" /\ (Three \/ ~IsClosed(pts))) => Result[Len(Result)] = pts[N]
(* deleting without any area first: a polyline never loses a corner while a
   straight point (an area of zero) is still there *)
StraightFirst == [][(pc = "run" /\ alive' # alive) =>
    \A k \in alive \ alive' : Area(A, pts, alive, End(pts), k) = 0
        \/ \A j \in alive : Area(A, pts, alive, End(pts), j) > 0]_vars
Terminates == <>(pc = "done")

Emit == pc = "done" => PrintT("CASE " \o ToJson([pts |-> pts, del |-> del]))
=============================================================================
