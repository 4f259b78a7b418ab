------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* The transforms of SimpleAffine, as fractions per axis.                  *)
(* Lengths are in half units, so that centers are integers; a box is never *)
(* taken for smaller than `least` (in half units).                         *)
(***************************************************************************)
EXTENDS Boxes

Dim(b, c, least) == Max(2 * (b[2][c] - b[1][c]), least)
(* box A is fitted into box B: the larger side of A becomes the smaller side of B *)
FitDen(A, least) == Max(Dim(A, 1, least), Dim(A, 2, least))
FitNum(B, least) == Min(Dim(B, 1, least), Dim(B, 2, least))
Center2(b) == [c \in 1..2 |-> b[1][c] + b[2][c]]      \* in half units
(* numerators over 2 * FitDen, and over 2 * FitNum *)
FitAB(A, B, least, p) ==
    [c \in 1..2 |-> (2 * p[c] - Center2(A)[c]) * FitNum(B, least) + Center2(B)[c] * FitDen(A, least)]
FitBA(A, B, least, p) ==
    [c \in 1..2 |-> (2 * p[c] - Center2(B)[c]) * FitDen(A, least) + Center2(A)[c] * FitNum(B, least)]

(* explicit offsets and scales m * 2^s, m is -1 for a flipped axis; numerators over 8 *)
Pow2(n) == 2 ^ n
SetAB(ao, m, s, bo, p) == [c \in 1..2 |-> m[c] * (p[c] + ao[c]) * Pow2(s[c] + 3) + 8 * bo[c]]
SetBA(ao, m, s, bo, p) == [c \in 1..2 |-> m[c] * (p[c] - bo[c]) * Pow2(3 - s[c]) - 8 * ao[c]]
=============================================================================
