------------------------------ MODULE Leakage -------------------------------
(***************************************************************************)
(* What may be learnt by watching a call run (property C23).               *)
(*                                                                         *)
(* An observer sees the instructions a call executes and the addresses it  *)
(* accesses; the recorder reduces them to a digest, the call's leak.  The  *)
(* observer is entitled to the call's view: the operation, the algorithm,  *)
(* the lengths of all arguments, the public part of the object (how much   *)
(* has been absorbed or drawn, never what), and whether the call accepted. *)
(* Calls with equal views must have equal leaks: the leak is a function of *)
(* the view.  This relates pairs of calls (it is a 2-safety property), so  *)
(* the state holds the leak of every view seen so far.                     *)
(*                                                                         *)
(* The file named by TRACE holds groups of calls recorded from the real    *)
(* library in one process, with every argument at the same address.        *)
(***************************************************************************)
EXTENDS Calls, IOUtils

Groups == ndJsonDeserialize(IOEnv.TRACE)

\* operations on secrets; what their bytes are is not in the view
Erase(e) == [f \in DOMAIN e \ {"r","leak","steps"} |-> IF f \in ByteFields THEN Len(e[f]) ELSE e[f]]
ErasedObj(x) ==
  CASE x.k = "hash"   -> <<"hash", x.h, Len(x.msg)>>
    [] x.k = "hmac"   -> <<"hmac", x.h, Len(x.key), Len(x.msg)>>
    [] x.k = "stream" -> <<"stream", x.pos>>
    [] x.k \in {"blk","aead"} -> <<x.k, x.alg>>
    [] OTHER -> <<x.k>>
Verdict(e) == CASE e.op \in {"hmac_verify","v16"} -> <<e.r.t, e.r.v>>
                [] e.op = "aead_open" -> <<e.r.t, e.r.v[1]>>
                [] OTHER -> <<e.r.t>>
Creates == {"hash_new","hmac_new","blk_new","st_new","aead_new"}
ViewOf(e,h) == <<Erase(e), IF "o" \in DOMAIN e /\ e.op \notin Creates THEN ErasedObj(Obj(e,h)) ELSE <<"none">>, Verdict(e)>>

VARIABLES lkGroup, lkPos, lkSeen      \* lkSeen: view -> <<leak, the first call with it>>
lkVars == <<heap, lkGroup, lkPos, lkSeen>>
Init == CallInit /\ lkGroup \in 1..Len(Groups) /\ lkPos = 1 /\ lkSeen = [x \in {} |-> <<"",0>>]

Same(e,v) == IF v \in DOMAIN lkSeen THEN lkSeen[v][1] = e.leak ELSE TRUE
Observe(e,v) ==
  /\ IF Same(e,v) THEN TRUE ELSE PrintT(<<"LEAKED", lkGroup, lkSeen[v][2], lkPos, e.op, ToJson(lkSeen[v][1]), ToJson(e.leak)>>)
  /\ lkSeen' = IF v \in DOMAIN lkSeen THEN lkSeen ELSE (v :> <<e.leak,lkPos>>) @@ lkSeen
  \* what the reply should have been is module Trace's business
  /\ heap' = Effect(e,heap)
  /\ lkPos' = lkPos + 1 /\ UNCHANGED lkGroup
Next == /\ lkPos <= Len(Groups[lkGroup].ev)
        /\ \E e \in {Decode(Groups[lkGroup].ev[lkPos])} : \E v \in {ViewOf(e,heap)} : Observe(e,v)
Spec == Init /\ [][Next]_lkVars

\* nothing is printed unless some view has two leaks
Views == lkPos > Len(Groups[lkGroup].ev) => PrintT(<<"VIEWS", lkGroup, Cardinality(DOMAIN lkSeen)>>)
AllConsumed == TLCGet("stats").distinct = FoldLeft(LAMBDA acc,s : acc + 1 + Len(s.ev), 0, Groups)
=============================================================================
