------------------------------- MODULE Feeding -------------------------------
(***************************************************************************)
(* Segments are taken one by one; the first one with a coordinate that is  *)
(* not a number ends the history.  Options may be set between the calls.   *)
(***************************************************************************)
EXTENDS Intake, TLC, Json

CONSTANTS Codes,      \* coordinates
          Calls, Most \* calls, and segments per call
VARIABLES calls,      \* the calls so far, complete or not
          kept, open, refused
vars == <<calls, kept, open, refused>>

Pts == {<<x, 1>> : x \in Codes} \cup {<<2, y>> : y \in Codes}
Segs == {<<<<0, 0>>, p>> : p \in Pts} \cup {<<p, <<3, 1>>>> : p \in Pts}
Init == calls = <<>> /\ kept = <<>> /\ open = FALSE /\ refused = FALSE
Begin == /\ ~open /\ ~refused /\ Len(calls) < Calls
         /\ calls' = Append(calls, [op |-> "feed", v |-> <<>>]) /\ open' = TRUE
         /\ UNCHANGED <<kept, refused>>
Option == /\ ~open /\ ~refused /\ Len(calls) < Calls
          /\ \E o \in {"stop", "ignore"} : calls' = Append(calls, [op |-> o, v |-> <<>>])
          /\ UNCHANGED <<kept, open, refused>>
Last == calls[Len(calls)]
Take == /\ open /\ ~refused /\ Len(Last.v) < Most
        /\ \E l \in Segs :
             /\ calls' = [calls EXCEPT ![Len(calls)].v = Append(@, l)]
             /\ IF UsableSeg(l) THEN kept' = Append(kept, l) /\ UNCHANGED <<open, refused>>
                ELSE refused' = TRUE /\ open' = FALSE /\ UNCHANGED kept
Finish == open /\ open' = FALSE /\ UNCHANGED <<calls, kept, refused>>
Next == Begin \/ Option \/ Take \/ Finish
Spec == Init /\ [][Next]_vars

RECURSIVE Whole(_, _)
Whole(k, acc) == IF k > Len(calls) THEN acc ELSE Whole(k + 1, Fed(acc, calls[k].v))
(* what the calls say, all of them at once *)
KeptIsFed == ~refused => kept = Whole(1, <<>>)
RefusedIsBad == refused <=> \E k \in 1..Len(calls) : ~Good(calls[k].v)
OnlyUsable == Good(kept)
RefusedForGood == [][refused => refused']_vars
Grows == [][Len(kept') >= Len(kept) /\ SubSeq(kept', 1, Len(kept)) = kept]_vars
(* how the segments are divided over the calls is lost *)
Emit == (~open /\ calls # <<>>) => PrintT("CASE " \o ToJson([k |-> "lines", calls |-> calls]))
=============================================================================
