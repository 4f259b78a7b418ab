--------------------------------- MODULE T27 ---------------------------------
(***************************************************************************)
(* Trace specification for hulls of points some of which may not be        *)
(* usable.  One trace is one point cloud, handed to one algorithm after    *)
(* the other; every one returns a hull or an error.                        *)
(***************************************************************************)
EXTENDS Hull, Intake, TraceIO
VARIABLES i, k, pc
vars == <<i, k, pc>>
R == Trace[i]

Asked == [j \in 1..Len(R.ix) |-> R.verts[R.ix[j] + 1]]
(* a closing point or index counts once; nothing is equal to a point with a NaN *)
Closed(o) == IF o.by = "index" THEN R.ix[1] = R.ix[Len(R.ix)]
             ELSE Asked[1] = Asked[Len(Asked)] /\ NaN \notin RangeOf(Asked[1])
Number(o) == IF Len(R.ix) > 1 /\ Closed(o) THEN Len(R.ix) - 1 ELSE Len(R.ix)
Bad == \E j \in 1..Len(Asked) : ~UsablePt(Asked[j])
Loop(o) == IF o.by = "index" THEN [j \in 1..Len(o.h) |-> R.verts[o.h[j] + 1]] ELSE o.h
Valid(o) == o.by = "index" => RangeOf(o.h) \subseteq RangeOf(R.ix)
HullOf(o) == Valid(o) /\ (IF o.open THEN IsHullNoLoop(RangeOf(Asked), Loop(o)) ELSE IsHull(RangeOf(Asked), Loop(o)))

Init == i \in 1..NTrace /\ k = 1 /\ pc = "asking"
Few(o) == Number(o) < 3         \* nothing to compute, nothing to be refused
Refuse == /\ pc = "asking" /\ R.st = "ok" /\ k <= Len(R.outs)
          /\ ~Few(R.outs[k]) /\ Bad /\ R.outs[k].err
          /\ k' = k + 1 /\ UNCHANGED <<i, pc>>
Answer == /\ pc = "asking" /\ R.st = "ok" /\ k <= Len(R.outs)
          /\ ~Few(R.outs[k]) /\ ~Bad /\ ~R.outs[k].err /\ Holds(HullOf(R.outs[k]))
          /\ k' = k + 1 /\ UNCHANGED <<i, pc>>
Trivial == /\ pc = "asking" /\ R.st = "ok" /\ k <= Len(R.outs) /\ Few(R.outs[k])
           /\ k' = k + 1 /\ UNCHANGED <<i, pc>>
Done == /\ pc = "asking" /\ R.st = "ok" /\ k = Len(R.outs) + 1 /\ Matched(i)
        /\ pc' = "done" /\ UNCHANGED <<i, k>>
Next == Refuse \/ Answer \/ Trivial \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
