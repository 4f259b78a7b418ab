------------------------------- MODULE Printer -------------------------------
(***************************************************************************)
(* Writing a number digit by digit, by long division, and reading it back. *)
(***************************************************************************)
EXTENDS Printed, Json

CONSTANTS MaxN, Dens      \* denominators, powers of two
VARIABLES n, d, todo,     \* what is left of the magnitude, over d * 10^|places|
          places,         \* weight of the digit to be written next: 10^places
          text, pc,
          value, scale    \* a reader: has read value / 10^scale
vars == <<n, d, todo, places, text, pc, value, scale>>

RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
Lead(m) == CHOOSE k \in 0..9 : m < Pow10(k + 1) /\ (k = 0 \/ m >= Pow10(k))
Init == /\ n \in 0 - MaxN..MaxN /\ d \in Dens
        /\ todo = Mag(n) /\ places = Lead(Mag(n) \div d)
        /\ text = (IF n < 0 THEN "-" ELSE "") /\ pc = "whole" /\ value = 0 /\ scale = 0
WriteWhole ==
    /\ pc = "whole"
    /\ LET w == d * Pow10(places)
           c == todo \div w
       IN text' = text \o Digit(c) /\ todo' = todo - c * w /\ value' = 10 * value + c
    /\ IF places = 0 THEN pc' = "point" /\ UNCHANGED places ELSE places' = places - 1 /\ UNCHANGED pc
    /\ UNCHANGED <<n, d, scale>>
WritePoint == pc = "point" /\ text' = text \o "." /\ pc' = "part" /\ UNCHANGED <<n, d, todo, places, value, scale>>
WritePart ==
    /\ pc = "part"
    /\ LET c == (10 * todo) \div d IN
         text' = text \o Digit(c) /\ todo' = (10 * todo) % d /\ value' = 10 * value + c
    /\ scale' = scale + 1 /\ pc' = IF todo' = 0 THEN "done" ELSE "part"
    /\ UNCHANGED <<n, d, places>>
Next == WriteWhole \/ WritePoint \/ WritePart
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "done"
(* reading gives the number *)
ReadsBack == Done => value * d = Mag(n) * Pow10(scale)
(* at no time was anything lost *)
Invariant == pc = "part" => value * d + todo = Mag(n) * Pow10(scale)
Shortest == Done /\ scale > 1 => value % 10 # 0
Defined == Done => text = NumText(n, d)
Terminates == <>Done
Emit == Done => PrintT("CASE " \o ToJson([n |-> n, d |-> d]))
=============================================================================
