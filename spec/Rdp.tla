--------------------------------- MODULE Rdp ---------------------------------
(***************************************************************************)
(* Ramer-Douglas-Peucker as a state machine with an explicit stack of the  *)
(* parts not looked at yet. Equally far points may be split at in any way. *)
(***************************************************************************)
EXTENDS RdpCore, TLC, Json

CONSTANTS W, H, N, Limits,    \* all polylines of N points, all limits (n/4)
          Space,              \* where the points come from: Flatland or Solid
          Dist(_, _, _)       \* and the distance that goes with it
Flatland == Grid(W, H)
Solid == {<<x, y, z>> : x \in 0..W, y \in 0..H, z \in 0..H}
VARIABLES pts, n,
          todo,               \* stack of parts <<lo, hi>>
          kept,               \* the indices of the points kept so far
          pc
vars == <<pts, n, todo, kept, pc>>

Init == /\ pts = <<>> /\ n \in Limits /\ todo = <<>> /\ kept = <<>> /\ pc = "build"
AddPoint == /\ pc = "build" /\ Len(pts) < N
            /\ \E q \in Space : pts' = Append(pts, q)
            /\ UNCHANGED <<n, todo, kept, pc>>
Start == /\ pc = "build" /\ Len(pts) = N
         /\ todo' = <<<<1, N>>>> /\ kept' = <<1>> /\ pc' = "run"
         /\ UNCHANGED <<pts, n>>

Lo == Head(todo)[1]
Hi == Head(todo)[2]
Keep == /\ pc = "run" /\ todo # <<>>
        /\ Hi - Lo <= 1 \/ Flat(Dist, pts, Lo, Hi, n)
        /\ kept' = Append(kept, Hi) /\ todo' = Tail(todo)
        /\ UNCHANGED <<pts, n, pc>>
Split == /\ pc = "run" /\ todo # <<>>
         /\ Hi - Lo > 1 /\ ~Flat(Dist, pts, Lo, Hi, n)
         /\ \E m \in Farthest(Dist, pts, Lo, Hi) :
              todo' = <<<<Lo, m>>, <<m, Hi>>>> \o Tail(todo)
         /\ UNCHANGED <<pts, n, kept, pc>>
Finish == /\ pc = "run" /\ todo = <<>> /\ pc' = "done" /\ UNCHANGED <<pts, n, todo, kept>>
Next == AddPoint \/ Start \/ Keep \/ Split \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == [k \in 1..Len(kept) |-> pts[kept[k]]]
EndsKept == pc = "done" => kept[1] = 1 /\ kept[Len(kept)] = N
InOrder == \A k \in 1..Len(kept) - 1 : kept[k] < kept[k + 1]
(* no point that was dropped is farther away than the limit *)
WithinLimit == pc = "done" =>
    \A k \in 1..Len(kept) - 1 : \A j \in kept[k] + 1..kept[k + 1] - 1 :
        ~Exceeds(Dist(pts[kept[k]], pts[kept[k + 1]], pts[j]), n)
(* the parts not looked at yet and the points kept so far cover the polyline *)
Covered == pc = "run" =>
    /\ todo # <<>> => Head(todo)[1] = kept[Len(kept)] /\ todo[Len(todo)][2] = N
    /\ \A k \in 1..Len(todo) - 1 : todo[k][2] = todo[k + 1][1]
(* the recursive form used for checking traces describes the same results *)
Agrees == pc = "done" => Simplifies(Dist, pts, n, Result)
Terminates == <>(pc = "done")

Emit == pc = "done" => PrintT("CASE " \o ToJson([pts |-> pts, d |-> n]))
=============================================================================
