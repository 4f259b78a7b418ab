-------------------------------- MODULE Screen --------------------------------
(***************************************************************************)
(* Computing a hull of points some of which may not be usable: the work is *)
(* cut in chunks, every chunk is looked through by somebody, in any order, *)
(* and the first unusable point stops everything.  What is asked for       *)
(* decides, not what else is in the table.                                 *)
(***************************************************************************)
EXTENDS Hull, Intake, TLC, Json

CONSTANTS Codes,       \* coordinates one can't compute with
          Table,       \* number of vertices
          Most         \* largest number of indices
VARIABLES verts, ix, chunk,
          pending,     \* the chunks nobody has looked at yet
          seen,        \* positions of ix that have been looked at
          verdict
vars == <<verts, ix, chunk, pending, seen, verdict>>

Base == <<<<0, 0>>, <<2, 0>>, <<0, 2>>, <<1, 1>>, <<2, 2>>>>
Bads == {<<c, 1>> : c \in Codes} \cup {<<1, c>> : c \in Codes}
Tables == {SubSeq(Base, 1, Table)} \cup
          {[SubSeq(Base, 1, Table) EXCEPT ![k] = b] : k \in 1..Table, b \in Bads} \cup
          {[SubSeq(Base, 1, Table) EXCEPT ![k] = b, ![l] = c] :
             k \in 1..Table, l \in 1..Table, b \in Bads, c \in Bads}
Lists == UNION {{s \in [1..n -> 1..Table] : \A k, l \in 1..n : k # l => s[k] # s[l]} : n \in 3..Most}
Chunks(n, c) == {<<k, IF k + c - 1 > n THEN n ELSE k + c - 1>> : k \in {j \in 1..n : (j - 1) % c = 0}}
Init == /\ verts \in Tables /\ ix \in Lists /\ chunk \in 1..Len(ix)
        /\ pending = Chunks(Len(ix), chunk) /\ seen = {} /\ verdict = "none"
GoodAt(k) == UsablePt(verts[ix[k]])
Look == /\ verdict = "none"
        /\ \E c \in pending :
             /\ pending' = pending \ {c}
             /\ seen' = seen \cup (c[1]..c[2])
             /\ verdict' = IF \A k \in c[1]..c[2] : GoodAt(k) THEN "none" ELSE "error"
        /\ UNCHANGED <<verts, ix, chunk>>
Compute == /\ verdict = "none" /\ pending = {} /\ verdict' = "hull"
           /\ UNCHANGED <<verts, ix, chunk, pending, seen>>
Next == Look \/ Compute
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Refused(v, s) == \E k \in 1..Len(s) : ~UsablePt(v[s[k]])
(* the verdict doesn't depend on the chunks or on who is first *)
NoHullOfBad == verdict = "hull" => ~Refused(verts, ix)
NoErrorForGood == verdict = "error" => Refused(verts, ix)
LookedAtAll == verdict = "hull" => seen = 1..Len(ix)
Decides == <>(verdict # "none")
Emit == (seen = {} /\ verdict = "none") =>
    PrintT("CASE " \o ToJson([verts |-> verts, ix |-> [k \in 1..Len(ix) |-> ix[k] - 1], chunk |-> chunk]))
===============================================================================
