------------------------------ MODULE HullPar ------------------------------
(***************************************************************************)
(* The multi threaded hull.  The indices are cut in chunks, every chunk    *)
(* gets its own Graham hull, and the partial hulls are reduced with an     *)
(* associative-looking "combine".  The work-stealing pool decides how the  *)
(* chunks are grouped in leaves, every leaf folds its chunks starting from *)
(* the identity <<lowest>>, and the leaves are combined pairwise in any    *)
(* bracketing.  One action per such scheduler decision.                    *)
(***************************************************************************)
EXTENDS Hull, TLC, Json

CONSTANTS Inputs, ChunkSizes
VARIABLES pts,      \* the vertices
          low,      \* index of the globally lowest vertex
          chunk,    \* points per chunk
          leaves,   \* sequence of [todo |-> chunks, acc |-> partial hull (indices),
                    \*  tree |-> which chunks went in how: "n" folded chunks, or "[left,right]"]
          pc
vars == <<pts, low, chunk, leaves, pc>>

RECURSIVE Chunks(_, _)
Chunks(s, c) == IF Len(s) <= c THEN <<s>>
                ELSE <<SubSeq(s, 1, c)>> \o Chunks(SubSeq(s, c + 1, Len(s)), c)

(* Graham scan of one chunk of indices, not closed *)
RECURSIVE Scan(_, _)
RECURSIVE PopWhile(_, _)
PopWhile(h, i) ==
    IF Len(h) > 1 /\ Cross(pts[h[Len(h) - 1]], pts[h[Len(h)]], pts[i]) <= 0
    THEN PopWhile(SubSeq(h, 1, Len(h) - 1), i) ELSE h
Scan(h, todo) == IF todo = <<>> THEN h
                 ELSE Scan(Append(PopWhile(h, Head(todo)), Head(todo)), Tail(todo))
ChunkHull(c0) ==
    LET c == IF Len(c0) > 1 /\ c0[1] = c0[Len(c0)] THEN SubSeq(c0, 1, Len(c0) - 1) ELSE c0
    IN IF Len(c) <= 2 THEN c
       ELSE LET st == c[Lowest([i \in 1..Len(c) |-> pts[c[i]]])]
                rest == SelectSeq(c, LAMBDA i : pts[i] # pts[st])
                Less(a, b) == LET x == Cross(pts[st], pts[a], pts[b])
                              IN x > 0 \/ (x = 0 /\ Dist2(pts[st], pts[a]) < Dist2(pts[st], pts[b]))
            IN Scan(<<st>>, SortSeq(rest, Less))

(* Combine two hulls by wrapping around both of them, starting at a[1].
   A vertex is [fromA, ii] - which list it came from and its place there. *)
Ix(a, b, v) == IF v.fromA THEN a[v.ii] ELSE b[v.ii]
Candidate(a, b, v) ==
    LET own == IF v.fromA THEN a ELSE b
        nxt == (v.ii % Len(own)) + 1
    IN IF own[nxt] # Ix(a, b, v) THEN [fromA |-> v.fromA, ii |-> nxt]
       ELSE [fromA |-> ~v.fromA, ii |-> 1]
RECURSIVE Wrap1(_, _, _, _, _)
Wrap1(a, b, v, e, jj) ==  \* examine the points of the other list
    LET other == IF v.fromA THEN b ELSE a IN
    IF jj > Len(other) THEN e
    ELSE LET jx == other[jj] IN
         IF jx = Ix(a, b, v) \/ jx = Ix(a, b, e) THEN Wrap1(a, b, v, e, jj + 1)
         ELSE LET o == Orient(pts[Ix(a, b, v)], pts[Ix(a, b, e)], pts[jx])
                  better == \/ o = -1
                            \/ o = 0 /\ Dist2(pts[Ix(a, b, v)], pts[jx])
                                        > Dist2(pts[Ix(a, b, v)], pts[Ix(a, b, e)])
              IN Wrap1(a, b, v, IF better THEN [fromA |-> ~v.fromA, ii |-> jj] ELSE e, jj + 1)
RECURSIVE WrapAll(_, _, _, _)
WrapAll(a, b, v, h) ==
    LET h2 == Append(h, Ix(a, b, v))
        e == Wrap1(a, b, v, Candidate(a, b, v), 1)
    IN IF Len(h2) > Len(a) + Len(b) THEN Assert(FALSE, <<"combine diverges", pts, a, b>>)
       ELSE IF pts[Ix(a, b, e)] = pts[a[1]] THEN h2
       ELSE WrapAll(a, b, e, h2)
Combine(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                 ELSE WrapAll(a, b, [fromA |-> TRUE, ii |-> 1], <<>>)

(* all ways to cut a sequence of chunks into consecutive non-empty leaves *)
RECURSIVE Cuts(_)
Cuts(s) == IF s = <<>> THEN {<<>>}
           ELSE UNION {{<<[todo |-> SubSeq(s, 1, k), acc |-> <<low>>,
                            tree |-> ToString(k)]>> \o t :
                          t \in Cuts(SubSeq(s, k + 1, Len(s)))} : k \in 1..Len(s)}

Init == /\ pts \in Inputs
        /\ low = Lowest(pts)
        /\ chunk \in ChunkSizes
        /\ leaves \in Cuts(Chunks([i \in 1..Len(pts) |-> i], chunk))
        /\ pc = "run"

(* a leaf consumes its next chunk *)
FoldChunk(i) ==
    /\ pc = "run" /\ leaves[i].todo # <<>>
    /\ leaves' = [leaves EXCEPT ![i].todo = Tail(@),
                                ![i].acc = Combine(@, ChunkHull(Head(leaves[i].todo)))]
    /\ UNCHANGED <<pts, low, chunk, pc>>
(* two finished neighbours are combined *)
Merge(i) ==
    /\ pc = "run" /\ i < Len(leaves)
    /\ leaves[i].todo = <<>> /\ leaves[i + 1].todo = <<>>
    /\ leaves' = SubSeq(leaves, 1, i - 1)
                 \o <<[todo |-> <<>>, acc |-> Combine(leaves[i].acc, leaves[i + 1].acc),
                       tree |-> "[" \o leaves[i].tree \o "," \o leaves[i + 1].tree \o "]"]>>
                 \o SubSeq(leaves, i + 2, Len(leaves))
    /\ UNCHANGED <<pts, low, chunk, pc>>
Finish == /\ pc = "run" /\ Len(leaves) = 1 /\ leaves[1].todo = <<>>
          /\ leaves' = [leaves EXCEPT ![1].acc = IF Len(@) > 1 THEN Append(@, @[1]) ELSE @]
          /\ pc' = "done"
          /\ UNCHANGED <<pts, low, chunk>>
Next == Finish \/ \E i \in 1..Len(leaves) : FoldChunk(i) \/ Merge(i)
Spec == Init /\ [][Next]_vars

Points(ix) == [i \in 1..Len(ix) |-> pts[ix[i]]]
(* every schedule produces the closed convex hull *)
ScheduleIndependent == pc = "done" => IsHull(RangeOf(pts), Points(leaves[1].acc))
(* every partial result starts in the lowest vertex and only uses input vertices *)
PartialsAnchored == \A i \in 1..Len(leaves) : pts[leaves[i].acc[1]] = pts[low]

CONSTANTS W, H, MaxLen
(* up to two points are returned as they are *)
AllInputs == {s \in SeqsUpTo(Grid(W, H), 3, MaxLen) : s[1] # s[Len(s)]}
(* a behaviour to be replayed: the input and every decision of the scheduler *)
Emit == pc = "done" =>
    PrintT("CASE " \o ToJson([pts |-> pts, chunk |-> chunk, tree |-> leaves[1].tree]))
=============================================================================
