--------------------------------- MODULE T25 ---------------------------------
(***************************************************************************)
(* Trace specification for feeding the two sweeps.  One trace is the       *)
(* history of one sweep: calls that feed segments or set an option, until  *)
(* one of them is refused, or the sweep is run.                            *)
(***************************************************************************)
EXTENDS Intake, TraceIO
VARIABLES i, k, kept, pc
vars == <<i, k, kept, pc>>
R == Trace[i]

Edges == R.k = "edges"
Segs(call) == IF Edges THEN Resolve(R.verts, call) ELSE call
Shown(list, got) == IF Edges THEN got = list ELSE SameSegs(got, list)

Init == i \in 1..NTrace /\ k = 1 /\ kept = <<>> /\ pc = "open"
Call == /\ R.st = "ok" /\ pc = "open" /\ k <= Len(R.calls) /\ k <= Len(R.res)
        /\ Good(Segs(R.calls[k].v))
        /\ kept' = Fed(kept, R.calls[k].v)
        /\ R.res[k].ok /\ Holds(Shown(Fed(kept, R.calls[k].v), R.res[k].kept))
        /\ k' = k + 1 /\ UNCHANGED <<i, pc>>
Refuse == /\ R.st = "ok" /\ pc = "open" /\ k <= Len(R.calls) /\ k <= Len(R.res)
          /\ ~Good(Segs(R.calls[k].v)) /\ ~R.res[k].ok
          /\ Len(R.res) = k /\ ~R.ran /\ Matched(i)
          /\ pc' = "refused" /\ UNCHANGED <<i, k, kept>>
Run == /\ R.st = "ok" /\ pc = "open" /\ k = Len(R.calls) + 1 /\ Len(R.res) = Len(R.calls)
       /\ R.ran /\ Matched(i)
       /\ pc' = "ran" /\ UNCHANGED <<i, k, kept>>
Next == Call \/ Refuse \/ Run
Spec == Init /\ [][Next]_vars
=============================================================================
