---------------------------- MODULE StreamBuffer ----------------------------
(***************************************************************************)
(* A keystream kept as the current block and an index into it, refilled    *)
(* when a byte is needed and none is left; and that successive operations  *)
(* use successive keystream bytes (properties C07, C08).                   *)
(*                                                                         *)
(* Keystream byte i is the number i (from 0); blocks have BLEN bytes.      *)
(* Operations draw n bytes (take), draw n for encryption or decryption, or *)
(* skip n and draw one (nth).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

B == atoi(IOEnv.BLEN)
MaxOps == atoi(IOEnv.PIECES)
Total == atoi(IOEnv.TOTAL)
Kinds == {"take","enc","dec","nth"}

VARIABLES sbCounter, sbIndex,    \* lower level
          sbPos,                 \* upper level: bytes used so far
          sbLast,                \* bytes handed out by the last operation
          sbOps                  \* history: <<kind, position afterwards>>
sbVars == <<sbCounter, sbIndex, sbPos, sbLast, sbOps>>

Init == sbCounter = 0 /\ sbIndex = 0 /\ sbPos = 0 /\ sbLast = <<>> /\ sbOps = <<>>

\* draw n bytes one by one; s = <<counter, index, bytes>>
Draw(c,i,n) ==
  FoldLeft(LAMBDA s,j : LET r == IF s[2] = B THEN <<s[1]+1,0>> ELSE <<s[1],s[2]>>
                        IN <<r[1], r[2]+1, Append(s[3], (B*r[1]) + r[2])>>,
           <<c,i,<<>>>>, [j \in 1..n |-> j])
Used(kind,n) == IF kind = "nth" THEN n + 1 ELSE n
Op(kind,n) ==
  LET d == Draw(sbCounter, sbIndex, Used(kind,n))
  IN /\ Len(sbOps) < MaxOps /\ sbPos + Used(kind,n) <= Total
     /\ sbCounter' = d[1] /\ sbIndex' = d[2]
     /\ sbPos' = sbPos + Used(kind,n)
     /\ sbLast' = IF kind = "nth" THEN <<d[3][n+1]>> ELSE d[3]
     /\ sbOps' = Append(sbOps, <<kind, sbPos'>>)
     /\ Len(sbOps) + 1 < MaxOps \/ PrintT(<<"OPS", ToJson(sbOps')>>)
Next == \E kind \in Kinds, n \in 0..Total : Op(kind,n)
Spec == Init /\ [][Next]_sbVars

\* the block and index are those of the position, filled lazily
Position == (B * sbCounter) + sbIndex = sbPos /\ sbIndex \in 0..B /\ (sbIndex = 0 => sbPos = 0)
\* the last operation handed out the bytes that follow those used before
Successive == sbOps # <<>> =>
  LET k == sbOps[Len(sbOps)][1]
      before == IF Len(sbOps) = 1 THEN 0 ELSE sbOps[Len(sbOps)-1][2]
  IN sbLast = IF k = "nth" THEN <<sbPos - 1>> ELSE [j \in 1..(sbPos - before) |-> before + j - 1]
=============================================================================
