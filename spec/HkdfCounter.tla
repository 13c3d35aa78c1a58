---------------------------- MODULE HkdfCounter ----------------------------
(***************************************************************************)
(* The block counter of HKDF-Expand (RFC 5869, 2.3), with the largest      *)
(* counter value a parameter (properties C05, C19).                        *)
(*                                                                         *)
(* Lower level: output pieces of the digest size are filled in turn while  *)
(* counter values last; each block is the MAC of the previous block, the   *)
(* info and the counter.  T(i) is modelled by the record of what it is     *)
(* computed from.  Every output length from 0 to one block past the limit  *)
(* is explored.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

D == atoi(IOEnv.DIGEST)
Top == atoi(IOEnv.MAX)                        \* 255 in the standard

VARIABLES hkLen, hkCounter, hkPrev, hkOut, hkState
hkVars == <<hkLen, hkCounter, hkPrev, hkOut, hkState>>

\* what the i-th block is computed from, flattened: the counters of all blocks before it
Block(prev,c) == Append(prev, c)
Bytes(b,n) == [j \in 1..n |-> <<b,j>>]

Init == hkLen \in 0..((Top + 1) * D) /\ hkCounter = 1 /\ hkPrev = <<>> /\ hkOut = <<>> /\ hkState = "new"
Check == hkState = "new" /\ hkState' = (IF hkLen <= Top * D THEN "run" ELSE "refused") /\ UNCHANGED <<hkLen,hkCounter,hkPrev,hkOut>>
Step == LET left == hkLen - Len(hkOut)  n == IF left < D THEN left ELSE D  b == Block(hkPrev,hkCounter)
        IN /\ hkState = "run" /\ left > 0 /\ hkCounter <= Top
           /\ hkOut' = hkOut \o Bytes(b,n) /\ hkPrev' = b /\ hkCounter' = hkCounter + 1
           /\ UNCHANGED <<hkLen,hkState>>
Stop == hkState = "run" /\ (hkLen = Len(hkOut) \/ hkCounter > Top) /\ hkState' = "done" /\ UNCHANGED <<hkLen,hkCounter,hkPrev,hkOut>>
Next == Check \/ Step \/ Stop
Spec == Init /\ [][Next]_hkVars

\* RFC 5869: the first L bytes of T(1) | T(2) | ...
T(i) == [j \in 1..i |-> j]
Rfc5869 == hkState = "done" => /\ Len(hkOut) = hkLen
                               /\ \A k \in 1..hkLen : hkOut[k] = <<T(((k-1) \div D) + 1), ((k-1) % D) + 1>>
Refused == hkState = "refused" <=> (hkState # "new" /\ hkLen > Top * D)
Prefix == hkState = "run" => hkCounter \in 1..(Top+1) /\ hkCounter = Len(hkPrev) + 1
Printed == hkState \in {"done","refused"} => PrintT(<<"LENGTH", ToJson(<<hkLen, hkState = "done">>)>>)
=============================================================================
