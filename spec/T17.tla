--------------------------------- MODULE T17 ---------------------------------
(***************************************************************************)
(* Trace specification for discretized parabolic arcs (the curve between a *)
(* point and a line).  Positions are recorded in 256ths.                   *)
(*                                                                         *)
(* With x measured along the line from the point's projection, b the       *)
(* distance of the point from the line: a chord from x1 to x2 deviates by  *)
(* h^2 / (4 R) from the arc, h = x2 - x1, R = sqrt(4b^2 + (x1 + x2)^2),    *)
(* most of all halfway in x.                                               *)
(***************************************************************************)
EXTENDS Geo, TraceIO
VARIABLES i, pc
vars == <<i, pc>>
S == 256
Big == 16000

RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) == \* lo^2 <= n < (hi+1)^2
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m - 1)
ISqrt(n) == SqrtIn(n, 0, 46340)

Up(p) == <<S * p[1], S * p[2]>>
Sane(o) == \A k \in 1..Len(o) : \A c \in 1..Len(o[k]) : -Big <= o[k][c] /\ o[k][c] <= Big
(* n / d with an error of less than 1 *)
Along(r, p) == Dot2(Sub(p, Up(r.sa)), Sub(r.sb, r.sa)) \div r.len
Off(r, p) == Perp(Sub(r.sb, r.sa), Sub(p, Up(r.sa))) \div r.len
CellDist(r, p) == ISqrt(Dist2(p, Up(r.cell)))

(* as far from the point as from the line *)
OnArc(r, p) == Abs(CellDist(r, p) - Abs(Off(r, p))) <= 4

X(r, p) == Along(r, p) - Along(r, Up(r.cell))
RECURSIVE Halved(_, _, _, _, _)
Halved(r, xs, b2, lo, hi) ==
    LET h == Abs(xs[hi] - xs[lo])
        q == xs[hi] + xs[lo]
        R == ISqrt(b2 + q * q)
        d == 4 * 16 * r.md
    IN IF hi = lo + 1
       THEN Max(h - 4, 0) * Max(h - 4, 0) <= d * (R + 6)
       ELSE /\ (h + 4) * (h + 4) >= d * Max(R - 6, 0)
            /\ \E m \in (lo + 1)..(hi - 1) :
                 /\ Abs(2 * xs[m] - q) <= 8
                 /\ Halved(r, xs, b2, lo, m) /\ Halved(r, xs, b2, m, hi)

Arc(r) ==
    LET n == Len(r.o2)
        xs == [k \in 1..n |-> X(r, r.o2[k])]
        b == Off(r, Up(r.cell))
    IN /\ r.ends /\ r.o2[1] = Up(r.p) /\ r.o2[n] = Up(r.q)
       /\ \A k \in 1..n : OnArc(r, r.o2[k])
       /\ Halved(r, xs, 4 * b * b, 1, n)
(* in space: the same points, below the plane by their distance *)
Deep(r, p, z) == z <= 0 /\ Abs(CellDist(r, p) + z) <= 4
Arc3(r) ==
    /\ Len(r.o3) = Len(r.o2)
    /\ \A k \in 1..Len(r.o2) :
         /\ Abs(r.o3[k][1] - r.o2[k][1]) <= 1 /\ Abs(r.o3[k][2] - r.o2[k][2]) <= 1
         /\ Deep(r, r.o2[k], r.o3[k][3])
Straight(r) ==
    /\ Len(r.line) = 2
    /\ r.line[1][1] = S * r.p[1] /\ r.line[1][2] = S * r.p[2] /\ Deep(r, Up(r.p), r.line[1][3])
    /\ r.line[2][1] = S * r.q[1] /\ r.line[2][2] = S * r.q[2] /\ Deep(r, Up(r.q), r.line[2][3])

Accept(r) ==
    /\ r.st = "ok"
    /\ Len(r.o2) >= 2 /\ Sane(r.o2) /\ Sane(r.o3) /\ Sane(r.line)
    /\ Arc(r) /\ Arc3(r) /\ Straight(r)

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
