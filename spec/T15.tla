--------------------------------- MODULE T15 ---------------------------------
(***************************************************************************)
(* Trace specification for SimpleAffine.                                   *)
(***************************************************************************)
EXTENDS Frames, TraceIO
VARIABLES i, pc
vars == <<i, pc>>
S == 256

(* a box is never taken for smaller than 1.0, which is 2^-e units *)
Least(e) == CASE e = 0 -> 2 [] e = -1 -> 4 [] e = 1 -> 1
(* out is one point near num/den (per axis), or no answer *)
Is(out, num, den) == Len(out) = 1 /\ \A c \in 1..2 : Near(out[1][c], num[c], den[c], S, 1)
Is2(out, n1, n2, den) ==
    Len(out) = 2 /\ \A c \in 1..2 : Near(out[1][c], n1[c], den[c], S, 1) /\ Near(out[2][c], n2[c], den[c], S, 1)

(* ab: numerators over D(c) for point p; ba likewise *)
Transforms(r, AB(_), DAB, BA(_), DBA) ==
    /\ r.made
    /\ Is(r.ab, AB(r.p), DAB) /\ Is(r.ba, BA(r.p), DBA)
    /\ Is(r.back, r.p, <<1, 1>>)
    /\ Is2(r.aba, AB(r.p), AB(r.q), DAB) /\ Is2(r.baa, BA(r.p), BA(r.q), DBA)

Fit(r) ==
    LET A == BoxOf(r.a) B == BoxOf(r.b) IN
    IF A = NoBox \/ B = NoBox THEN ~r.made
    ELSE LET least == Least(r.e)
             AB(p) == FitAB(A, B, least, p)
             BA(p) == FitBA(A, B, least, p)
             den == 2 * FitDen(A, least)
             num == 2 * FitNum(B, least)
         IN Transforms(r, AB, <<den, den>>, BA, <<num, num>>)

SetTo(r) ==
    LET AB(p) == SetAB(r.ao, r.m, r.s, r.bo, p)
        BA(p) == SetBA(r.ao, r.m, r.s, r.bo, p)
    IN Transforms(r, AB, <<8, 8>>, BA, <<8, 8>>)
Default(r) == LET Id(p) == p IN Transforms(r, Id, <<1, 1>>, Id, <<1, 1>>)
(* coordinate w (0..3) of p, q is not finite (4: none): that is an error *)
NotFinite(r) ==
    /\ r.pok = (r.w \notin {0, 1}) /\ r.pok2 = r.pok
    /\ r.qok = (r.w \notin {2, 3}) /\ r.qok2 = r.qok
    /\ r.aok = (r.w = 4) /\ r.aok2 = r.aok

Accept(r) ==
    /\ r.st = "ok"
    /\ CASE r.k = "fit" -> Fit(r)
         [] r.k = "set" -> SetTo(r)
         [] r.k = "default" -> Default(r)
         [] r.k = "inf" -> NotFinite(r)

Init == i \in 1..NTrace /\ pc = "called"
Return == /\ pc = "called" /\ Holds(Accept(Trace[i])) /\ Matched(i)
          /\ pc' = "returned" /\ UNCHANGED i
Spec == Init /\ [][Return]_vars
=============================================================================
