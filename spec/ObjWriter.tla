------------------------------ MODULE ObjWriter ------------------------------
(***************************************************************************)
(* Writing lines to an .obj file: the end points are numbered when they    *)
(* are met for the first time, then the numbered points and the lines,     *)
(* as pairs of numbers, are written.                                       *)
(***************************************************************************)
EXTENDS Geo, TLC, Json

CONSTANTS M, N,         \* M different points, N lines
          Room          \* a small device has room for less than this
VARIABLES groups,       \* sequence of sequences of lines
          todo,         \* the end points not numbered yet, in order
          table,        \* the points by number
          refs,         \* the numbers of the end points so far
          file,         \* records <<"v", point>> and <<"l", i, j>>, after the name
          room,         \* of the device, in records
          disk,         \* how many records reached it
          pc
vars == <<groups, todo, table, refs, file, room, disk, pc>>
dev == <<room, disk>>
Plenty == 99

Point(k) == <<k, k % 2, 0>>
Points == {Point(k) : k \in 1..M}
RECURSIVE Flat(_)
Flat(gs) == IF gs = <<>> THEN <<>> ELSE Head(gs) \o Flat(Tail(gs))
RECURSIVE Ends(_)
Ends(ls) == IF ls = <<>> THEN <<>> ELSE <<Head(ls)[1], Head(ls)[2]>> \o Ends(Tail(ls))

Init == groups = <<>> /\ todo = <<>> /\ table = <<>> /\ refs = <<>> /\ file = <<>> /\ pc = "build"
        /\ room \in 0..Room \cup {Plenty} /\ disk = 0
NewGroup == /\ pc = "build" /\ Len(groups) < 2 /\ groups' = Append(groups, <<>>)
            /\ UNCHANGED <<todo, table, refs, file, pc, dev>>
AddLine == /\ pc = "build" /\ groups # <<>> /\ Len(Flat(groups)) < N
           /\ \E p, q \in Points : groups' = [groups EXCEPT ![Len(groups)] = Append(@, <<p, q>>)]
           /\ UNCHANGED <<todo, table, refs, file, pc, dev>>
Save == /\ pc = "build" /\ todo' = Ends(Flat(groups)) /\ pc' = "number"
        /\ UNCHANGED <<groups, table, refs, file, dev>>
Known(p) == \E k \in 1..Len(table) : table[k] = p
Number == /\ pc = "number" /\ todo # <<>>
          /\ LET p == Head(todo)
                 t == IF Known(p) THEN table ELSE Append(table, p)
             IN /\ table' = t
                /\ refs' = Append(refs, CHOOSE k \in 1..Len(t) : t[k] = p)
          /\ todo' = Tail(todo) /\ UNCHANGED <<groups, file, pc, dev>>
Numbered == /\ pc = "number" /\ todo = <<>> /\ pc' = "vertices" /\ UNCHANGED <<groups, todo, table, refs, file, dev>>
Vertex == /\ pc = "vertices" /\ Len(file) < Len(table)
          /\ file' = Append(file, <<"v", table[Len(file) + 1]>>)
          /\ UNCHANGED <<groups, todo, table, refs, pc, dev>>
Lines == /\ pc = "vertices" /\ Len(file) = Len(table) /\ pc' = "lines" /\ UNCHANGED <<groups, todo, table, refs, file, dev>>
Written == Len(file) - Len(table)
Line == /\ pc = "lines" /\ 2 * Written < Len(refs)
        /\ file' = Append(file, <<"l", refs[2 * Written + 1], refs[2 * Written + 2]>>)
        /\ UNCHANGED <<groups, todo, table, refs, pc, dev>>
Flush == /\ pc = "lines" /\ 2 * Written = Len(refs) /\ pc' = "flush" /\ UNCHANGED <<groups, todo, table, refs, file, dev>>
Buffered == Len(file) + 1 - disk        \* with the name
Spill == /\ pc \in {"vertices", "lines", "flush"} /\ Buffered > 0
         /\ IF disk < room THEN disk' = disk + 1 /\ UNCHANGED pc
                           ELSE pc' = "failed" /\ UNCHANGED disk
         /\ UNCHANGED <<groups, todo, table, refs, file, room>>
Close == /\ pc = "flush" /\ Buffered = 0 /\ pc' = "closed" /\ UNCHANGED <<groups, todo, table, refs, file, dev>>
Next == Flush \/ Spill \/ NewGroup \/ AddLine \/ Save \/ Number \/ Numbered \/ Vertex \/ Lines \/ Line \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

IsV(x) == x[1] = "v"
IsL(x) == x[1] = "l"
(* a reader numbers the points as they come, and can only use those it has seen *)
RECURSIVE Read(_, _, _)
Read(f, seen, ls) ==
    IF f = <<>> THEN ls
    ELSE IF IsV(Head(f)) THEN Read(Tail(f), Append(seen, Head(f)[2]), ls)
    ELSE Read(Tail(f), seen, Append(ls, <<seen[Head(f)[2]], seen[Head(f)[3]]>>))
ReadBack == pc = "closed" => Read(file, <<>>, <<>>) = Flat(groups)
EachOnce == \A j, k \in 1..Len(table) : table[j] = table[k] => j = k
NoStrangers == pc = "closed" => RangeOf(table) = RangeOf(Ends(Flat(groups)))
BackReferences == \A k \in 1..Len(file) : IsL(file[k]) =>
    \A c \in 2..3 : file[k][c] <= Cardinality({m \in 1..k : IsV(file[m])})
(* what has not reached the device is never passed over in silence *)
NothingLost == pc = "closed" => disk = Len(file) + 1
OnlyIfFull == pc = "failed" => room < Cardinality(RangeOf(table)) + Len(Flat(groups)) + 1
Terminates == <>(pc \in {"closed", "failed"})
Emit == ((pc = "closed" /\ room = Plenty) \/ (pc = "failed" /\ room = 0 /\ file = <<>>)) =>
    PrintT("CASE " \o ToJson([lines |-> groups, full |-> room = 0]))
=============================================================================
