------------------------------ MODULE Printed ------------------------------
(***************************************************************************)
(* The text of shapes.  A coordinate is n / 2^s, the text says so exactly: *)
(* all digits, always a decimal, nothing superfluous.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Digit(d) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[d + 1]
RECURSIVE Whole(_)
Whole(n) == IF n < 10 THEN Digit(n) ELSE Whole(n \div 10) \o Digit(n % 10)
(* r / d < 1 *)
RECURSIVE Decimals(_, _)
Decimals(r, d) == Digit((10 * r) \div d) \o (IF (10 * r) % d = 0 THEN "" ELSE Decimals((10 * r) % d, d))
Mag(n) == IF n < 0 THEN 0 - n ELSE n
NumText(n, d) == (IF n < 0 THEN "-" ELSE "") \o Whole(Mag(n) \div d) \o "." \o Decimals(Mag(n) % d, d)

RECURSIVE Commas(_, _)
Commas(p, d) == IF Len(p) = 1 THEN NumText(p[1], d) ELSE NumText(p[1], d) \o "," \o Commas(Tail(p), d)
PtText(p, d) == "(" \o Commas(p, d) \o ")"
LineText(a, b, d) == PtText(a, d) \o "-" \o PtText(b, d)
BoxText(lo, hi, d) == "Aabb2[" \o LineText(lo, hi, d) \o "]"
NoBoxText == "Aabb2[None]"
=============================================================================
