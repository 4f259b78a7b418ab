--------------------------------- MODULE T26 ---------------------------------
(***************************************************************************)
(* Trace specification for the text of shapes and for shapes that are made *)
(* from plain numbers.  Coordinates are recorded times r.d.                *)
(***************************************************************************)
EXTENDS Printed, TraceIO
VARIABLES i, pc
vars == <<i, pc>>

Pair(r) == <<r.a, r.b>>
Line(r) ==
    /\ r.text = LineText(r.a, r.b, r.d)
    /\ r.flat = Pair(r) /\ r.nested = Pair(r) /\ r.new = Pair(r)
    /\ r.over = r.text /\ r.point
Shift(p) == [c \in 1..Len(p) |-> IF c = 2 THEN p[c] - 1 ELSE p[c] + c]
Line3(r) ==
    /\ r.text = LineText(r.a, r.b, r.d)
    /\ r.flat = Pair(r) /\ r.nested = Pair(r) /\ r.new = Pair(r)
    /\ r.app = <<Shift(r.a), Shift(r.b)>>
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
Lows(p) == <<MinSet({p[k][1] : k \in 1..Len(p)}), MinSet({p[k][2] : k \in 1..Len(p)})>>
Highs(p) == <<MaxSet({p[k][1] : k \in 1..Len(p)}), MaxSet({p[k][2] : k \in 1..Len(p)})>>
Box(r) ==
    /\ r.text = IF r.pts = <<>> THEN NoBoxText ELSE BoxText(Lows(r.pts), Highs(r.pts), r.d)
    /\ r.list = r.text
(* a point plus n / d times a vector *)
Scaled(r) == r.out = <<r.d * r.a[1] + r.n * r.b[1], r.d * r.a[2] + r.n * r.b[2]>>
(* any number at all: every number in the text reads back as itself and has a decimal *)
Two == "(#,#)-(#,#)"
Number(r) ==
    /\ r.line = Two /\ r.box = "Aabb2[" \o Two \o "]" /\ r.line3 = "(#,#,#)-(#,#,#)"
    /\ \A k \in 1..Len(r.same) : r.same[k]
    /\ Len(r.same) = 14

Accept(r) ==
    /\ r.st = "ok"
    /\ CASE r.k = "line" -> Line(r)
         [] r.k = "line3" -> Line3(r)
         [] r.k = "box" -> Box(r)
         [] r.k = "scale" -> Scaled(r)
         [] r.k = "any" -> Number(r)

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
