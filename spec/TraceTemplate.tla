--------------------------- MODULE @TRACE@ ---------------------------
(* Trace specification: every recorded execution of the real code       *)
(* (one JSON line: src = the input, obs = the events observed, res = how *)
(* the call ended) must be a behaviour of @SPEC@.  It reuses @SPEC@'s    *)
(* own actions (Next) and only adds the binding to the recorded events.  *)
(* Verdicts are total: every trace ends in "ok" or in the clause that    *)
(* failed ("event", "outcome", "extra").                                 *)
EXTENDS @SPEC@, Json, IOUtils

Input == ndJsonDeserialize(IOEnv.TRACE_FILE)
TSrc(i) == Input[i].src

VARIABLES n, verdict
tvars == <<sc, st, ev, n, verdict>>

TInit == /\ sc \in 1..Len(Input)
         /\ InitSt
         /\ n = 0
         /\ verdict = "run"

(* the kind is compared first, so that equal kinds have equally typed fields *)
Same(a, b) == a.k = b.k /\ DOMAIN a = DOMAIN b /\ a = b

(* without the report only the results of the interface ("!...") are seen *)
IsApi(e) == Len(e.k) > 0 /\ SubSeq(e.k, 1, 1) = "!"
Shown4(es, api) == IF api THEN SelectSeq(es, IsApi) ELSE es

Say(v, exp) == PrintT("VERDICT " \o ToJson([sc |-> sc, v |-> v, n |-> n, pc |-> st.pc, exp |-> exp]))

TStep ==
  /\ verdict = "run" /\ ~Done
  /\ Next
  /\ LET o == Input[sc].obs
         e == Shown4(ev', Input[sc].api)
         k == Len(e)
         bind == Input[sc].bind
     IN IF ~bind \/ k = 0 THEN n' = n /\ verdict' = "run"
        ELSE IF n + k <= Len(o) /\ \A i \in 1..k : Same(o[n + i], e[i])
        THEN n' = n + k /\ verdict' = "run"
        ELSE n' = n /\ verdict' = "event" /\ Say("event", e)

TFinish ==
  /\ verdict = "run" /\ Done
  /\ UNCHANGED <<sc, st, ev, n>>
  /\ LET v == IF Input[sc].res \notin Outcomes THEN "outcome"
              ELSE IF Input[sc].bind /\ st.pc # "fail" /\ n # Len(Input[sc].obs) THEN "extra"
              ELSE "ok"
     IN verdict' = v /\ Say(v, <<>>)

TNext == TStep \/ TFinish
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
