-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* Exact planar and spatial geometry over the integers and the rationals.  *)
(* A point is a sequence of integers <<x, y>> (or <<x, y, z>>).            *)
(* TLC integers are 32 bit and overflow is an evaluation error, never a    *)
(* silent wrap-around, so an answer given by these operators is exact.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(n) == IF n < 0 THEN -n ELSE n
Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

RangeOf(s) == {s[i] : i \in 1..Len(s)}

Sub(p, q) == [i \in 1..Len(p) |-> p[i] - q[i]]

(* twice the signed area of the triangle a, b, c: positive iff c lies to the
   left of the directed line a -> b *)
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Orient(a, b, c) == Sgn(Cross(a, b, c))

Perp(u, v) == u[1] * v[2] - u[2] * v[1]
Dot2(u, v) == u[1] * v[1] + u[2] * v[2]
Dot3(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
DistSq3(p, q) == Dot3(Sub(p, q), Sub(p, q))

Between(lo, v, hi) == (lo <= v /\ v <= hi) \/ (hi <= v /\ v <= lo)

(* p lies on the closed segment a-b (which may be a single point) *)
OnSegment(a, b, p) ==
    /\ Cross(a, b, p) = 0
    /\ Between(a[1], p[1], b[1])
    /\ Between(a[2], p[2], b[2])

(* the sweep order: y first, then x *)
Below(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])
(* lexicographic: x first, then y *)
LexLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
LexMin(p, q) == IF LexLess(q, p) THEN q ELSE p
LexMax(p, q) == IF LexLess(p, q) THEN q ELSE p

(***************************************************************************)
(* Rational points: [x |-> xn, y |-> yn, d |-> d], d > 0, in lowest terms, *)
(* so that equality of records is equality of points.                      *)
(***************************************************************************)
RatPt(xn, yn, d) ==
    LET s == IF d < 0 THEN -1 ELSE 1
        g == Gcd(Gcd(Abs(xn), Abs(yn)), Abs(d))
    IN  [x |-> (s * xn) \div g, y |-> (s * yn) \div g, d |-> Abs(d) \div g]
IntPt(p) == [x |-> p[1], y |-> p[2], d |-> 1]

(* sweep order of rational points *)
RBelow(p, q) ==
    \/ p.y * q.d < q.y * p.d
    \/ p.y * q.d = q.y * p.d /\ p.x * q.d < q.x * p.d

(* the rational point p lies on the closed integer segment a-b *)
ROnSegment(a, b, p) ==
    /\ (b[1] - a[1]) * (p.y - a[2] * p.d) = (b[2] - a[2]) * (p.x - a[1] * p.d)
    /\ Between(a[1] * p.d, p.x, b[1] * p.d)
    /\ Between(a[2] * p.d, p.y, b[2] * p.d)

(* the crossing of two non-parallel lines a-b and c-d *)
LineCrossing(a, b, c, d) ==
    LET r == Sub(b, a)
        s == Sub(d, c)
        den == Perp(r, s)
        num == Perp(Sub(c, a), s)
    IN  RatPt(a[1] * den + r[1] * num, a[2] * den + r[2] * num, den)

(***************************************************************************)
(* Exact classification of two closed segments a-b and c-d.                *)
(* kind is "none", "point" (p is the only common point, rational) or       *)
(* "overlap" (the common part is the segment lo-hi with lo # hi).          *)
(***************************************************************************)
NoCommon == [kind |-> "none"]
CommonPoint(p) == [kind |-> "point", p |-> p]
CommonPart(lo, hi) == [kind |-> "overlap", lo |-> lo, hi |-> hi]

Classify(a, b, c, d) ==
    IF a = b THEN (IF OnSegment(c, d, a) THEN CommonPoint(IntPt(a)) ELSE NoCommon)
    ELSE IF c = d THEN (IF OnSegment(a, b, c) THEN CommonPoint(IntPt(c)) ELSE NoCommon)
    ELSE IF Perp(Sub(b, a), Sub(d, c)) = 0
    THEN IF Cross(a, b, c) # 0 THEN NoCommon
         ELSE LET lo == LexMax(LexMin(a, b), LexMin(c, d))
                  hi == LexMin(LexMax(a, b), LexMax(c, d))
              IN  IF lo = hi THEN CommonPoint(IntPt(lo))
                  ELSE IF LexLess(hi, lo) THEN NoCommon
                  ELSE CommonPart(lo, hi)
    ELSE IF /\ Orient(a, b, c) * Orient(a, b, d) <= 0
            /\ Orient(c, d, a) * Orient(c, d, b) <= 0
         THEN CommonPoint(LineCrossing(a, b, c, d))
         ELSE NoCommon

(***************************************************************************)
(* Comparing a value the code computed with an exact rational. The code's  *)
(* value v is logged as round(v * S). The comparison never multiplies the  *)
(* logged value, so a wildly wrong one can't overflow.                     *)
(***************************************************************************)
Near(logged, num, den, S, tol) ==
    LET q == (num * S) \div den IN q - tol <= logged /\ logged <= q + tol + 1
NearRat(out, p, S, tol) == Near(out[1], p.x, p.d, S, tol) /\ Near(out[2], p.y, p.d, S, tol)

(***************************************************************************)
(* Sequences                                                               *)
(***************************************************************************)
RECURSIVE SeqMinIdx(_, _, _)
SeqMinIdx(s, i, best) ==
    IF i > Len(s) THEN best ELSE SeqMinIdx(s, i + 1, IF s[i] < s[best] THEN i ELSE best)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* set of all sequences over S with length in lo..hi *)
SeqsUpTo(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}

Grid(w, h) == {<<x, y>> : x \in 0..w, y \in 0..h}
=============================================================================
