------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded sessions of the real library against CryptoPure.        *)
(*                                                                         *)
(* The file named by the environment variable TRACE holds one session per  *)
(* line: a JSON object with the session's number and its calls in order.   *)
(* Each session is one initial state, so TLC's workers take them in        *)
(* parallel; each recorded call is one step.  A step is allowed only if    *)
(* CryptoPure!Call allows it with the recorded arguments and reply.        *)
(*                                                                         *)
(* What is compared depends on the environment variable LENS:              *)
(*   value (default)  the whole reply                                      *)
(*   outcome          whether the call returned or panicked; and after a   *)
(*                    call that panicked, whole replies: a failed call     *)
(*                    disturbs nothing                                     *)
(*                                                                         *)
(* How calls are written is described in module Calls.                     *)
(***************************************************************************)
EXTENDS Calls, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

Lens == IF "LENS" \in DOMAIN IOEnv THEN IOEnv.LENS ELSE "value"

VARIABLES trSid, trPos, trBad, trFailed
trVars == <<heap, trSid, trPos, trBad, trFailed>>

Init == /\ CallInit
        /\ trSid \in 1..Len(Sessions)
        /\ trPos = 1
        /\ trBad = "no"
        /\ trFailed = FALSE

\* calls whose replies are checked by looking at what was replied
Bulk == {"law","ed_bulk"}
Outcomes(e,permitted) == IF e.op \in Bulk THEN {"ok"} ELSE {r.t : r \in permitted}
Fits(e,permitted) == IF Lens = "value" \/ trFailed THEN e.r \in permitted ELSE e.r.t \in Outcomes(e,permitted)

Events(s) == Sessions[s].ev
Consume(e,permitted) == /\ Fits(e,permitted)
                        /\ heap' = Effect(e,heap)
                        /\ trPos' = trPos + 1
                        /\ trFailed' = (trFailed \/ e.r.t = "panic")
                        /\ UNCHANGED <<trSid, trBad>>
\* no action of the specification explains the recorded call
Reject(e,permitted) ==
  /\ ~Fits(e,permitted)
  /\ PrintT(<<"REJECTED", Sessions[trSid].sid, trPos, e.op, ToJson(e.r), ToJson(permitted)>>)
  /\ trBad' = "yes"
  /\ UNCHANGED <<heap, trSid, trPos, trFailed>>
Next == /\ trBad = "no"
        /\ trPos <= Len(Events(trSid))
        /\ \E e \in {Decode(Events(trSid)[trPos])} : \E permitted \in {Replies(e,heap)} :
              Consume(e,permitted) \/ Reject(e,permitted)
Spec == Init /\ [][Next]_trVars

Explained == trBad = "no"
\* every call of every session was consumed
AllConsumed == TLCGet("stats").distinct
                 = FoldLeft(LAMBDA acc,s : acc + 1 + Len(s.ev), 0, Sessions)
=============================================================================
