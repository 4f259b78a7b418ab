--------------------------------- MODULE Arc ---------------------------------
(***************************************************************************)
(* The arc of all points as far from a point as from a line is replaced by *)
(* chords, as long as the deviation of a chord is more than allowed.       *)
(*                                                                         *)
(* In the frame of the line: the point is at (0, b), x measured along the  *)
(* line in parts of 1/F.  A chord from x1 to x2 deviates by h^2 / (4 R)    *)
(* from the arc, h = x2 - x1, R = sqrt(4 b^2 + (x1 + x2)^2), most of all   *)
(* halfway in x.  The deviation allowed is m/16.                           *)
(***************************************************************************)
EXTENDS Geo, TLC, Json

CONSTANTS F, Bs, Ms, MaxX
VARIABLES b, m, from, to,
          at,          \* x of the last point of the chain
          todo,        \* stack of the x still to be reached
          chain, pc
vars == <<b, m, from, to, at, todo, chain, pc>>

(* arcs with integer coordinates: y = (x^2 + b^2) / 2b *)
Fits(x) == (x * x + b * b) % (2 * b) = 0
Init == /\ b \in Bs /\ m \in Ms
        /\ from \in {x \in 0 - MaxX..MaxX : Fits(x)} /\ to \in {x \in 0 - MaxX..MaxX : Fits(x)}
        /\ from # to
        /\ at = F * from /\ todo = <<F * to>> /\ chain = <<F * from>> /\ pc = "run"
(* deviation h^2 / 4R (in 1/F) <= m/16: 16 h^4 <= m^2 F^2 R^2, everything in 1/F *)
R2(x1, x2) == 4 * b * b * F * F + (x1 + x2) * (x1 + x2)
Within(x1, x2) == LET h2 == (x2 - x1) * (x2 - x1) IN 16 * h2 * h2 <= m * m * F * F * R2(x1, x2)
Accept == /\ pc = "run" /\ todo # <<>> /\ Within(at, Head(todo))
          /\ at' = Head(todo) /\ todo' = Tail(todo) /\ chain' = Append(chain, Head(todo))
          /\ UNCHANGED <<b, m, from, to, pc>>
Halve == /\ pc = "run" /\ todo # <<>> /\ ~Within(at, Head(todo))
         /\ todo' = <<(at + Head(todo)) \div 2>> \o todo
         /\ UNCHANGED <<b, m, from, to, at, chain, pc>>
Stop == pc = "run" /\ todo = <<>> /\ pc' = "done" /\ UNCHANGED <<b, m, from, to, at, todo, chain>>
Next == Accept \/ Halve \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "done"
Ends == Done => chain[1] = F * from /\ chain[Len(chain)] = F * to
Progress == \A k \in 1..Len(chain) - 1 :
    IF from < to THEN chain[k] < chain[k + 1] ELSE chain[k] > chain[k + 1]
Close == \A k \in 1..Len(chain) - 1 : Within(chain[k], chain[k + 1])
(* the grid of the model is fine enough *)
NoRounding == pc = "run" /\ todo # <<>> /\ ~Within(at, Head(todo)) => (at + Head(todo)) % 2 = 0
(* a larger tolerance is never harder to meet *)
Looser == \A k \in 1..Len(todo) : Within(at, todo[k]) =>
    LET h2 == (todo[k] - at) * (todo[k] - at) IN 16 * h2 * h2 <= (m + 1) * (m + 1) * F * F * R2(at, todo[k])
Terminates == <>Done
Emit == Done => PrintT("CASE " \o ToJson([b |-> b, d0 |-> from, d1 |-> to, md |-> m]))
=============================================================================
