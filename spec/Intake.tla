------------------------------- MODULE Intake -------------------------------
(***************************************************************************)
(* Handing segments over to the sweep, one call after the other.  A call   *)
(* is taken as a whole or refused as a whole.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* codes of coordinates that are not numbers one can sweep over *)
NaN == 1000001
PosInf == 1000002
NegInf == 1000003
Usable(c) == c \notin {NaN, PosInf, NegInf}
UsablePt(p) == \A c \in 1..Len(p) : Usable(p[c])
UsableSeg(l) == UsablePt(l[1]) /\ UsablePt(l[2])
Good(call) == \A k \in 1..Len(call) : UsableSeg(call[k])
(* the segments that are known after the call *)
Fed(kept, call) == kept \o call

(* segments given by indices: only points that are used matter *)
Resolve(verts, call) == [k \in 1..Len(call) |-> <<verts[call[k][1] + 1], verts[call[k][2] + 1]>>]
(* a segment may be turned around *)
SameSeg(l, m) == l = m \/ (l[1] = m[2] /\ l[2] = m[1])
SameSegs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameSeg(a[k], b[k])
=============================================================================
