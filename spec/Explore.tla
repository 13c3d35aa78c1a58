------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* All histories of a menu of calls, up to a given length.                 *)
(*                                                                         *)
(* The file named by MENU holds one call per line (without reply).  A call *)
(* can be made when its object is live and of the right kind; a            *)
(* constructor only for an object that does not exist yet.  Every          *)
(* interleaving of the calls is a behaviour; the finished ones are printed *)
(* and replayed on the real library, and what the library replied is       *)
(* checked against CryptoPure by module Trace.                             *)
(*                                                                         *)
(* Checked here on every reachable state: what CryptoPure promises about   *)
(* histories (properties C02, C08, C20).                                   *)
(***************************************************************************)
EXTENDS Calls, IOUtils

MenuFile == ndJsonDeserialize(IOEnv.MENU)
MaxLen == atoi(IOEnv.DEPTH)
Menu == [i \in 1..Len(MenuFile) |-> DecodeCall(MenuFile[i])]

VARIABLE xpHist                                  \* indexes into Menu
xpVars == <<heap, xpHist>>

Creates == {"hash_new","hmac_new","blk_new","st_new","aead_new"}
KindOf(op) == CASE op \in {"hash_up","hash_fin"} -> "hash" [] op \in {"hmac_up","hmac_tag"} -> "hmac"
                [] op \in {"st_take","st_nth","st_enc","st_dec"} -> "stream"
                [] op = "blk" -> "blk" [] op \in {"aead_seal","aead_open"} -> "aead" [] OTHER -> "none"
Possible(e,h) == IF e.op \in Creates THEN e.o \notin DOMAIN h
                 ELSE IF KindOf(e.op) = "none" THEN TRUE
                 ELSE IF e.o \in DOMAIN h THEN h[e.o].k = KindOf(e.op) ELSE FALSE

Init == CallInit /\ xpHist = <<>>
Step(i) == /\ Possible(Menu[i], heap)
           /\ heap' = Effect(Menu[i], heap)
           /\ xpHist' = Append(xpHist, i)
           /\ Len(xpHist) + 1 < MaxLen \/ PrintT(<<"HISTORY", ToJson(xpHist')>>)
Next == Len(xpHist) < MaxLen /\ \E i \in 1..Len(Menu) : Step(i)
Spec == Init /\ [][Next]_xpVars

-----------------------------------------------------------------------------
On(o) == SelectSeq(xpHist, LAMBDA i : "o" \in DOMAIN Menu[i] /\ Menu[i].o = o)
RunAlone(is) == FoldLeft(LAMBDA h,i : Effect(Menu[i],h), NoHeap, is)

\* the state of an object is what its own calls alone produce
Isolated == \A o \in DOMAIN heap : RunAlone(On(o))[o] = heap[o]
\* a hasher or MAC has absorbed the concatenation of its pieces
Absorbed == \A o \in DOMAIN heap : heap[o].k \in {"hash","hmac"} =>
  heap[o].msg = Flatten([j \in 1..Len(On(o)) |-> IF Menu[On(o)[j]].op \in {"hash_up","hmac_up"} THEN Menu[On(o)[j]].d ELSE <<>>])
\* a stream is at the number of bytes it has handed out (or skipped, for nth)
Drawn(e) == CASE e.op = "st_take" -> e.n [] e.op = "st_nth" -> e.n + 1
              [] e.op \in {"st_enc","st_dec"} /\ e.n = Len(e.d) -> e.n [] OTHER -> 0
Accounted == \A o \in DOMAIN heap : heap[o].k = "stream" =>
  heap[o].pos = PosAdd(Pos0, FoldLeft(LAMBDA acc,i : acc + Drawn(Menu[i]), 0, On(o)))
\* keys are those of the first constructor that succeeded, and are never replaced
Made(o) == CHOOSE j \in 1..Len(On(o)) : /\ o \in DOMAIN Effect(Menu[On(o)[j]], NoHeap)
                                       /\ \A i \in 1..j-1 : o \notin DOMAIN Effect(Menu[On(o)[i]], NoHeap)
Keyed == \A o \in DOMAIN heap : heap[o].k \in {"hmac","stream","blk","aead"} => heap[o].key = Menu[On(o)[Made(o)]].key
\* a call changes no object but its own
Framed == [][\A o \in DOMAIN heap : heap'[o] # heap[o] => Menu[xpHist'[Len(xpHist')]].o = o]_xpVars
\* what a call may reply depends on its own object only
Local(i) == LET e == Menu[i]  own == IF "o" \in DOMAIN e THEN RunAlone(On(e.o)) ELSE NoHeap
            IN Replies(e,heap) = Replies(e,own)
LocalReplies == Len(xpHist) = MaxLen - 1 => \A i \in 1..Len(Menu) : Possible(Menu[i],heap) => Local(i)
=============================================================================
