------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* What it means to divide an undirected graph into shapes.  An edge is    *)
(* the set of its two ends, E is a set of edges.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EdgesOf(ix) == {{ix[2 * k - 1], ix[2 * k]} : k \in 1..(Len(ix) \div 2)}
Nodes(E) == UNION E
Neighbours(E, v) == {w \in Nodes(E) : {v, w} \in E /\ v # w}
Degree(E, v) == Cardinality(Neighbours(E, v))
(* vertices in the middle of a shape have exactly two neighbours *)
Through(E) == {v \in Nodes(E) : Degree(E, v) = 2}

EdgeSeq(g) == [k \in 1..(Len(g) - 1) |-> {g[k], g[k + 1]}]
RECURSIVE AllEdges(_)
AllEdges(gs) == IF gs = <<>> THEN <<>> ELSE EdgeSeq(Head(gs)) \o AllEdges(Tail(gs))

(* every edge is in exactly one shape, once *)
Partition(E, gs) ==
    LET s == AllEdges(gs)
    IN /\ Len(s) = Cardinality(E)
       /\ {s[k] : k \in 1..Len(s)} = E

(* shapes only end where the graph branches or ends, or are closed loops *)
Maximal(E, gs, through) ==
    \A k \in 1..Len(gs) :
        LET g == gs[k] n == Len(g) IN
        /\ n >= 2
        /\ \A j \in 2..(n - 1) : g[j] \in through
        /\ \/ g[1] \notin through /\ g[n] \notin through
           \/ g[1] = g[n] /\ n > 3

Divides(E, gs) == LET th == Through(E) IN Partition(E, gs) /\ Maximal(E, gs, th)
=============================================================================
