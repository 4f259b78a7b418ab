------------------------------- MODULE Compare -------------------------------
(***************************************************************************)
(* Two segments, or two line strings, are drawn and compared: corner by    *)
(* corner, first the one way round, then the other one.                    *)
(***************************************************************************)
EXTENDS Alike, TLC, Json

CONSTANTS W, Tolerances
VARIABLES a, b, c, d, eps,
          way,       \* "straight", then "crosswise"
          k,         \* the next end to be compared
          answer, pc
vars == <<a, b, c, d, eps, way, k, answer, pc>>
G == Grid(W, 1)
Init == /\ a \in G /\ b \in G /\ c \in G /\ d \in G /\ eps \in Tolerances
        /\ way = "straight" /\ k = 1 /\ answer = FALSE /\ pc = "compare"
Mine == IF k = 1 THEN a ELSE b
Other == IF (k = 1) = (way = "straight") THEN c ELSE d
Match == /\ pc = "compare" /\ NearP(Mine, Other, eps)
         /\ IF k = 2 THEN answer' = TRUE /\ pc' = "done" /\ UNCHANGED k
            ELSE k' = 2 /\ UNCHANGED <<answer, pc>>
         /\ UNCHANGED <<a, b, c, d, eps, way>>
Differ == /\ pc = "compare" /\ ~NearP(Mine, Other, eps)
          /\ IF way = "straight" THEN way' = "crosswise" /\ k' = 1 /\ UNCHANGED pc
             ELSE pc' = "done" /\ UNCHANGED <<way, k>>
          /\ UNCHANGED <<a, b, c, d, eps, answer>>
Next == Match \/ Differ
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "done"
Exact == Done => answer = NearLine(a, b, c, d, eps)
Undirected == Done => /\ answer = NearLine(c, d, a, b, eps)
                      /\ answer = NearLine(b, a, c, d, eps) /\ answer = NearLine(a, b, d, c, eps)
Reflexive == NearLine(a, b, a, b, 0) /\ NearLine(a, b, b, a, 0)
Tolerant == (Done /\ answer) => NearLine(a, b, c, d, eps + 1)
Finer == (Done /\ SameLine(a, b, c, d)) => answer
(* two points make a line string, which does have a direction *)
Directed == NearString(<<a, b>>, <<c, d>>, eps) => NearLine(a, b, c, d, eps)
Terminates == <>Done
Emit == Done => /\ PrintT("CASE " \o ToJson([k |-> "line", a |-> a, b |-> b, c |-> c, d |-> d, eps |-> eps]))
                /\ PrintT("CASE " \o ToJson([k |-> "vec", p |-> <<a, b>>, q |-> <<c, d>>, eps |-> eps, z |-> 0, dz |-> 0]))
=============================================================================
