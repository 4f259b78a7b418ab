------------------------------- MODULE Iterate -------------------------------
(***************************************************************************)
(* The edge iterators of a line string. A window iterator moves on by one  *)
(* point, a chunk iterator by two. Both can be asked at any time, in any   *)
(* order, and past their end.                                              *)
(***************************************************************************)
EXTENDS Geo, TLC, Json

CONSTANTS N, Extra       \* points, and calls past the end
VARIABLES pts, win, chk, \* number of points the iterators have passed
          wcalls, ccalls, wseen, cseen
vars == <<pts, win, chk, wcalls, ccalls, wseen, cseen>>

(* an open line string, or a closed one if it has more than two points *)
Spread(n) == [k \in 1..n |-> <<k, (k * k) % 5>>]
Loop(n) == [k \in 1..n |-> IF k = n THEN <<1, 1>> ELSE <<k, (k * k) % 5>>]
Init == /\ pts \in {Spread(n) : n \in 0..N} \cup {Loop(n) : n \in 3..N}
        /\ win = 0 /\ chk = 0 /\ wcalls = 0 /\ ccalls = 0 /\ wseen = <<>> /\ cseen = <<>>

Edges(n, by) == IF by = 1 THEN Max(n - 1, 0) ELSE n \div 2
Left(by, pos) == Edges(Len(pts), by) - pos \div by
Edge(pos) == <<pts[pos + 1], pts[pos + 2]>>
Nothing == <<>>
NextWindow ==
    /\ wcalls < Edges(Len(pts), 1) + Extra /\ wcalls' = wcalls + 1
    /\ IF Left(1, win) > 0 THEN win' = win + 1 /\ wseen' = Append(wseen, Edge(win))
       ELSE UNCHANGED win /\ wseen' = Append(wseen, Nothing)
    /\ UNCHANGED <<pts, chk, ccalls, cseen>>
NextChunk ==
    /\ ccalls < Edges(Len(pts), 2) + Extra /\ ccalls' = ccalls + 1
    /\ IF Left(2, chk) > 0 THEN chk' = chk + 2 /\ cseen' = Append(cseen, Edge(chk))
       ELSE UNCHANGED chk /\ cseen' = Append(cseen, Nothing)
    /\ UNCHANGED <<pts, win, wcalls, wseen>>
Next == NextWindow \/ NextChunk
Spec == Init /\ [][Next]_vars

(* never beyond the points *)
InBounds == win <= Len(pts) /\ chk <= Len(pts) /\ Left(1, win) >= 0 /\ Left(2, chk) >= 0
(* the edges are those between neighbours, all of them, in order *)
Windows == \A k \in 1..Len(wseen) :
    IF k < Len(pts) THEN wseen[k] = <<pts[k], pts[k + 1]>> ELSE wseen[k] = Nothing
Chunks == \A k \in 1..Len(cseen) :
    IF 2 * k <= Len(pts) THEN cseen[k] = <<pts[2 * k - 1], pts[2 * k]>> ELSE cseen[k] = Nothing
(* the windows are the chunks and what lies between them *)
Consistent == \A k \in 1..Len(cseen) : 2 * k - 1 <= Len(wseen) => cseen[k] = wseen[2 * k - 1] \/ cseen[k] = Nothing
Fused == [][/\ (wseen # <<>> /\ wseen[Len(wseen)] = Nothing) => wseen'[Len(wseen')] = Nothing
            /\ (cseen # <<>> /\ cseen[Len(cseen)] = Nothing) => cseen'[Len(cseen')] = Nothing]_vars
Emit == PrintT("CASE " \o ToJson([pts |-> pts, w |-> wcalls, c |-> ccalls]))
=============================================================================
