----------------------------- MODULE Comparison -----------------------------
(***************************************************************************)
(* A presented tag is the right one after a sequence of changes; the       *)
(* comparison accumulates differences and must amount to equality          *)
(* (properties C04, C18, and the verdicts of C10 and C12).                 *)
(*                                                                         *)
(* BASE holds the right tag (a list of bytes).  Changes: flip a bit, swap  *)
(* neighbours, xor one byte onto another (so that differences cancel under *)
(* a wrong accumulation), drop or add bytes at either end.  All tags       *)
(* reachable by at most DEPTH changes are explored and printed for replay. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC, Json, IOUtils

Base == ndJsonDeserialize(IOEnv.BASE)[1]
Depth == atoi(IOEnv.DEPTH)
N == Len(Base)
At == {1, 2, (N \div 2) + 1, N} \cap 1..N

VARIABLES cmTag, cmDepth
cmVars == <<cmTag, cmDepth>>
TagView == cmTag

Flip(i,b) == i <= Len(cmTag) /\ cmTag' = [cmTag EXCEPT ![i] = @ ^^ (2^b)]
Swap(i) == i < Len(cmTag) /\ cmTag' = [cmTag EXCEPT ![i] = cmTag[i+1], ![i+1] = cmTag[i]]
Onto(i,j) == i # j /\ i <= Len(cmTag) /\ j <= Len(cmTag) /\ cmTag' = [cmTag EXCEPT ![j] = @ ^^ cmTag[i]]
DropLast == Len(cmTag) > 0 /\ cmTag' = SubSeq(cmTag, 1, Len(cmTag)-1)
DropFirst == Len(cmTag) > 0 /\ cmTag' = Tail(cmTag)
AddLast(x) == cmTag' = Append(cmTag, x)
AddFirst(x) == cmTag' = <<x>> \o cmTag
Double == cmTag' = cmTag \o cmTag
Change == (\E i \in At, b \in {0,3,7} : Flip(i,b)) \/ (\E i \in At : Swap(i)) \/ (\E i,j \in At : Onto(i,j))
          \/ DropLast \/ DropFirst \/ (\E x \in {0,Base[1],Base[N]} : AddLast(x) \/ AddFirst(x)) \/ Double

Init == cmTag = Base /\ cmDepth = 0
Next == cmDepth < Depth /\ Change /\ cmDepth' = cmDepth + 1
Spec == Init /\ [][Next]_cmVars

\* how the comparison is computed: all differences are collected, then looked at once
Collected(x,y) == FoldLeft(LAMBDA acc,i : acc | (x[i] ^^ y[i]), 0, [i \in 1..Len(x) |-> i])
Verdict(x,y) == IF Len(x) = Len(y) THEN Collected(x,y) = 0 ELSE FALSE
Exact == Verdict(Base,cmTag) <=> cmTag = Base
Symmetric == Verdict(Base,cmTag) = Verdict(cmTag,Base)
\* printed once for each distinct tag (TLC evaluates this once per distinct state)
Printed == PrintT(<<"TAG", ToJson(<<cmTag, Verdict(Base,cmTag)>>)>>)
=============================================================================
