------------------------------ MODULE TraceIO ------------------------------
(***************************************************************************)
(* Reading recorded executions of the library and reporting which of them  *)
(* the specification accepts.  The file named by the environment variable  *)
(* VTRACE holds one JSON record per line; each is one call of the library  *)
(* (or one history of calls on one object), i.e. one trace.                *)
(*                                                                         *)
(* Every trace gets its own TLC register: 0 = not (yet) matched,           *)
(* 1 = a behaviour of the specification produces it, 2 = only a behaviour  *)
(* using a known deviation of the implementation produces it.              *)
(* Registers are per worker, so trace checking runs with one worker.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VTRACE)
NTrace == Len(Trace)

ASSUME TraceRegisters == \A i \in 1..NTrace : TLCSet(i, 0)

(* evaluate b as a plain expression, not as an action (TLC recurses deeply
   over the conjuncts of an action) *)
Holds(b) == b = TRUE

Matched(i) == TLCSet(i, 1)
MatchedKnown(i) == IF TLCGet(i) = 1 THEN TRUE ELSE TLCSet(i, 2)

(* POSTCONDITION: report every trace that no behaviour explains *)
Report ==
    /\ \A i \in 1..NTrace :
         CASE TLCGet(i) = 0 -> PrintT("REJECT " \o ToString(i))
           [] TLCGet(i) = 2 -> PrintT("KNOWN " \o ToString(i))
           [] OTHER -> TRUE
    /\ PrintT("TRACES " \o ToString(NTrace))
=============================================================================
