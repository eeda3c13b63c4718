----------------------------- MODULE GtfsTrace ------------------------------
(***************************************************************************)
(* Validates recorded runs of the real program against the specification.  *)
(* Each trace is a history: an initial feed and a sequence of runs, each   *)
(* with the feed it produced.  One TLC behaviour per trace, one step per   *)
(* run; a step which the action does not allow is reported with the names  *)
(* of the violated conjuncts, and validation continues behind it.          *)
(***************************************************************************)
EXTENDS GtfsSpec, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, feed
vars == <<t, l, feed>>

Init == /\ t \in DOMAIN Traces
        /\ l = 0
        /\ feed = Traces[t].init

Verdict(e) == IF ~e.ok THEN {"runFailed"} ELSE Violated(e.act, e.args, feed, e.feed)

Report(e, v) == PrintT("@@FAIL " \o ToJson([trace |-> Traces[t].id, step |-> l + 1,
                                             act |-> e.act, clauses |-> v]))

\* the recorded run is a step of the specification - or not: name what is wrong
Judge(e) == LET v == Verdict(e) IN IF v = {} THEN TRUE ELSE Report(e, v)

Next == /\ l < Len(Traces[t].steps)
        /\ LET e == Traces[t].steps[l + 1] IN
             /\ Judge(e)
             /\ feed' = IF e.ok THEN e.feed ELSE feed
             /\ l' = l + 1
             /\ t' = t

Spec == Init /\ [][Next]_vars
=============================================================================
