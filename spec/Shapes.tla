------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* The algorithm behind divide_into_shapes() as a state machine: pick a    *)
(* vertex where shapes end and one of its unused edges, walk along it until*)
(* the shape ends, and once no such edge is left, walk the loops.          *)
(* The vertices are taken in any fixed order (here: highest first); which  *)
(* of its edges, where loops start and their direction are left open.      *)
(* The walk only knows what the implementation knows: the set of visited   *)
(* through-vertices and the vertex it came from - it has no set of used    *)
(* edges.                                                                  *)
(***************************************************************************)
EXTENDS Graph, TLC, Json
CONSTANTS N, MaxE, Emit
VARIABLES pc, E, ends, visited, gs, line, prev, todo
vars == <<pc, E, ends, visited, gs, line, prev, todo>>

V == 0..(N - 1)
Pairs == {{a, b} : a \in V, b \in V} \ {{a} : a \in V}

Init ==
    /\ E \in {x \in SUBSET Pairs : Cardinality(x) <= MaxE}
    /\ pc = "pick" /\ gs = <<>> /\ line = <<>> /\ prev = -1 /\ visited = {}
    /\ ends = Nodes(E) \ Through(E)
    \* the edges at every end that still have to be looked at
    /\ todo = [v \in V |-> IF v \in ends THEN Neighbours(E, v) ELSE {}]

(* the vertex whose edges are being looked at *)
Now == {v \in ends : todo[v] # {} /\ \A u \in ends : u > v => todo[u] = {}}
(* a connection between two ends is a shape of its own, kept on one side *)
Direct(v, w) ==
    /\ pc = "pick" /\ v \in Now /\ w \in todo[v] /\ w \in ends
    /\ todo' = [todo EXCEPT ![v] = @ \ {w}]
    /\ gs' = IF v < w THEN Append(gs, <<v, w>>) ELSE gs
    /\ UNCHANGED <<pc, E, ends, visited, line, prev>>
(* the shape has been walked from its other end *)
Used(v, w) ==
    /\ pc = "pick" /\ v \in Now /\ w \in todo[v] /\ w \in visited
    /\ todo' = [todo EXCEPT ![v] = @ \ {w}]
    /\ UNCHANGED <<pc, E, ends, visited, gs, line, prev>>
Leave(v, w) ==
    /\ pc = "pick" /\ v \in Now /\ w \in todo[v] /\ w \notin ends /\ w \notin visited
    /\ todo' = [todo EXCEPT ![v] = @ \ {w}]
    /\ line' = <<v, w>> /\ prev' = v /\ visited' = visited \cup {w} /\ pc' = "walk"
    /\ UNCHANGED <<E, ends, gs>>
At == line[Len(line)]
(* step on to a vertex that is neither visited nor where the walk came from *)
Walk(w) ==
    /\ pc = "walk" /\ w \in Neighbours(E, At) /\ w # prev /\ w \notin visited
    /\ line' = Append(line, w) /\ prev' = At
    /\ IF w \in ends
       THEN /\ pc' = "pick" /\ gs' = Append(gs, line') /\ UNCHANGED visited
       ELSE /\ visited' = visited \cup {w} /\ UNCHANGED <<pc, gs>>
    /\ UNCHANGED <<E, ends, todo>>
Rest == pc = "pick" /\ (\A v \in ends : todo[v] = {})
Loop(v) ==
    /\ Rest /\ v \in Nodes(E) \ (ends \cup visited)
    /\ line' = <<v>> /\ prev' = -1 /\ visited' = visited \cup {v} /\ pc' = "loop"
    /\ UNCHANGED <<E, ends, gs, todo>>
LoopWalk(w) ==
    /\ pc = "loop" /\ w \in Neighbours(E, At) /\ w # prev /\ w \notin visited
    /\ line' = Append(line, w) /\ prev' = At /\ visited' = visited \cup {w}
    /\ UNCHANGED <<pc, E, ends, gs, todo>>
LoopClose ==
    /\ pc = "loop" /\ \A w \in Neighbours(E, At) : w = prev \/ w \in visited
    /\ gs' = Append(gs, Append(line, line[1])) /\ pc' = "pick"
    /\ UNCHANGED <<E, ends, visited, line, prev, todo>>
Done ==
    /\ Rest /\ Nodes(E) \ (ends \cup visited) = {}
    /\ pc' = "done" /\ line' = <<>> /\ prev' = -1
    /\ UNCHANGED <<E, ends, visited, gs, todo>>

Next == \/ \E v, w \in V : Direct(v, w) \/ Used(v, w) \/ Leave(v, w)
        \/ \E w \in V : Walk(w) \/ Loop(w) \/ LoopWalk(w)
        \/ LoopClose \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == /\ pc \in {"pick", "walk", "loop", "done"} /\ visited \subseteq Through(E)
          /\ ends \cap visited = {}
(* the walk never gets stuck *)
NoStuck == pc = "walk" => \E w \in Neighbours(E, At) : w # prev /\ w \notin visited
DividesE == pc = "done" => Divides(E, gs) /\ visited = Through(E)
(* no edge is ever used twice *)
Once == LET s == AllEdges(gs) IN \A a, b \in 1..Len(s) : s[a] = s[b] => a = b
Terminates == <>(pc = "done")

RECURSIVE Ser(_)
Ser(S) == IF S = {} THEN <<>>
          ELSE LET e == CHOOSE x \in S : TRUE
                   a == CHOOSE x \in e : \A y \in e : x <= y
                   b == CHOOSE x \in e : \A y \in e : x >= y
               IN  <<<<a, b>>>> \o Ser(S \ {e})
EmitCase == (Emit /\ pc = "pick" /\ gs = <<>> /\ todo = [v \in V |-> IF v \in ends THEN Neighbours(E, v) ELSE {}]
             /\ visited = {} /\ line = <<>>)
            => PrintT("CASE " \o ToJson([edges |-> Ser(E)]))
=============================================================================
