------------------------------ MODULE Counters ------------------------------
(***************************************************************************)
(* Block counters of the authenticated ciphers, for a counter of W bits    *)
(* and blocks of BS bytes (properties C09, C11, C19).                      *)
(*                                                                         *)
(* GCM: message blocks are masked with counter values 2, 3, ...; value 1   *)
(* masks the tag.  ChaCha20-Poly1305: message blocks use 1, 2, ...; value  *)
(* 0 gives the Poly1305 key.  No value may be used twice.  The documented  *)
(* limits on message lengths are the largest that allow this.  Every       *)
(* length up to two blocks past the limit is explored.                     *)
(***************************************************************************)
EXTENDS CryptoPure, Json, IOUtils

W == atoi(IOEnv.WIDTH)
BS == atoi(IOEnv.BS)
Modes == {"gcm","chachapoly"}
First(mode) == IF mode = "gcm" THEN 2 ELSE 1
Reserved(mode) == IF mode = "gcm" THEN {1} ELSE {0}
\* documented: 2^36 - 32 is 16 (2^32 - 2); 2^38 - 64 is 64 (2^32 - 1)
Accepted(mode,len) == IF mode = "gcm" THEN len < BS * ((2^W) - 2) ELSE len <= BS * ((2^W) - 1)

VARIABLES cnMode, cnLen, cnNext, cnUsed, cnState
cnVars == <<heap, cnMode, cnLen, cnNext, cnUsed, cnState>>

Init == /\ CallInit
        /\ cnMode \in Modes /\ cnLen \in 0..(BS * ((2^W) + 2))
        /\ cnNext = First(cnMode) /\ cnUsed = <<>> /\ cnState = "new"
Check == /\ cnState = "new" /\ cnState' = (IF Accepted(cnMode,cnLen) THEN "run" ELSE "refused")
         /\ UNCHANGED <<heap,cnMode,cnLen,cnNext,cnUsed>>
\* one block is masked; the counter is a machine word
Mask == /\ cnState = "run" /\ Len(cnUsed) * BS < cnLen
        /\ cnUsed' = Append(cnUsed, cnNext) /\ cnNext' = (cnNext + 1) % (2^W)
        /\ UNCHANGED <<heap,cnMode,cnLen,cnState>>
Done == cnState = "run" /\ Len(cnUsed) * BS >= cnLen /\ cnState' = "done" /\ UNCHANGED <<heap,cnMode,cnLen,cnNext,cnUsed>>
Next == Check \/ Mask \/ Done
Spec == Init /\ [][Next]_cnVars

Elements(s) == {s[i] : i \in 1..Len(s)}
Distinct == /\ \A i,j \in 1..Len(cnUsed) : i # j => cnUsed[i] # cnUsed[j]
            /\ Elements(cnUsed) \cap Reserved(cnMode) = {}
            /\ cnMode = "gcm" => 0 \notin Elements(cnUsed)
Covered == cnState = "done" => Len(cnUsed) = CeilDiv(cnLen, BS)
\* one block more than any accepted length would use a value twice
Tight == cnState = "refused" => CeilDiv(cnLen + 1, BS) > (2^W) - First(cnMode)
Printed == (cnState \in {"done","refused"}) => PrintT(<<"COUNT", ToJson(<<cnMode, cnLen, cnState>>)>>)

\* the limits of CryptoPure are these with W = 32
Two32 == <<0,0,0,0,1>>
ASSUME NatEq(GcmLimit, NatMul(<<16>>, NatSub(Two32,<<2>>)))
ASSUME NatEq(CpLimit, NatMul(<<64>>, NatSub(Two32,<<1>>)))
\* the lengths in the final GHASH block are in bits and fit 64 bits for data below 2^61 bytes
ASSUME NatLt(NatMul(<<8>>, NatSub(<<0,0,0,0,0,0,0,32>>, <<1>>)), <<0,0,0,0,0,0,0,0,1>>)
ASSUME NatLt(NatMul(<<8>>, GcmLimit), <<0,0,0,0,0,0,0,0,1>>)
\* a stream has 2^32 blocks: 256 GB
ASSUME NatEq(NatMul(<<64>>, Two32), NatMul(<<0,1>>, <<0,0,0,64>>))
=============================================================================
