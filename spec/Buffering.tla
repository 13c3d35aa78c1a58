----------------------------- MODULE Buffering -----------------------------
(***************************************************************************)
(* How an incremental hasher works with a block buffer, and that it hashes *)
(* the concatenation of its pieces (properties C01, C02).                  *)
(*                                                                         *)
(* Upper level: a message grows piece by piece; finishing compresses the   *)
(* blocks of the padded message (FIPS 180-4, 5.1).  Lower level: a buffer  *)
(* that is never cleared, an offset, and a length counter.  Message bytes  *)
(* are the numbers 1,2,3..., so that a lost, repeated or stale byte shows. *)
(* Blocks have BLEN bytes and the length field LFLEN; every history of at  *)
(* most PIECES pieces with a total of at most TOTAL bytes is explored, and *)
(* printed for replay with the positions scaled to real block sizes.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

B == atoi(IOEnv.BLEN)
LF == atoi(IOEnv.LFLEN)
MaxPieces == atoi(IOEnv.PIECES)
Total == atoi(IOEnv.TOTAL)

Marker == 0 - 1
Field(n) == 0 - 100 - n                     \* every byte of the length field of an n-byte message
Up(n) == [i \in 1..n |-> i]
Const(n,x) == [i \in 1..n |-> x]
Blocks(s) == [i \in 1..(Len(s) \div B) |-> SubSeq(s, (B*(i-1))+1, B*i)]

(* upper level *)
Padding(n) == LET z == (B - ((n + 1 + LF) % B)) % B IN <<Marker>> \o Const(z,0) \o Const(LF,Field(n))
Standard(n) == Blocks(Up(n) \o Padding(n))

VARIABLES bfCuts,      \* message length after each piece
          bfBuf, bfOff, bfLen, bfOut, bfDone
bfVars == <<bfCuts, bfBuf, bfOff, bfLen, bfOut, bfDone>>

Init == bfCuts = <<>> /\ bfBuf = Const(B,0) /\ bfOff = 0 /\ bfLen = 0 /\ bfOut = <<>> /\ bfDone = FALSE

Over(buf,at,x) == [i \in 1..B |-> IF i > at /\ i <= at + Len(x) THEN x[i-at] ELSE buf[i]]

(* lower level: one call of update *)
Absorb(s,x) ==     \* s = <<buf, off, out>>
  LET space == B - s[2]
      rest(buf,out,y) == LET m == Len(y) % B
                         IN <<Over(buf,0,SubSeq(y,Len(y)-m+1,Len(y))), m, out \o Blocks(y)>>
  IN IF s[2] > 0 /\ Len(x) < space THEN <<Over(s[1],s[2],x), s[2] + Len(x), s[3]>>
     ELSE IF s[2] > 0 THEN LET full == Over(s[1],s[2],SubSeq(x,1,space))
                           IN rest(full, Append(s[3],full), SubSeq(x,space+1,Len(x)))
     ELSE rest(s[1], s[3], x)

Update(k) ==
  LET s == Absorb(<<bfBuf,bfOff,bfOut>>, [i \in 1..k |-> bfLen + i])
  IN /\ ~bfDone /\ Len(bfCuts) < MaxPieces /\ bfLen + k <= Total
     /\ bfBuf' = s[1] /\ bfOff' = s[2] /\ bfOut' = s[3]
     /\ bfLen' = bfLen + k /\ bfCuts' = Append(bfCuts, bfLen + k)
     /\ UNCHANGED bfDone
Finish ==
  LET b1 == Over(bfBuf, bfOff, <<Marker>>)  o1 == bfOff + 1
      flush == o1 > B - LF
      b2 == IF flush THEN Over(b1, o1, Const(B - o1, 0)) ELSE b1
      o2 == IF flush THEN 0 ELSE o1
      out2 == IF flush THEN Append(bfOut, b2) ELSE bfOut
      b3 == Over(Over(b2, o2, Const(B - LF - o2, 0)), B - LF, Const(LF, Field(bfLen)))
  IN /\ ~bfDone /\ bfDone' = TRUE
     /\ bfBuf' = b3 /\ bfOff' = o2 /\ bfOut' = Append(out2, b3)
     /\ UNCHANGED <<bfCuts, bfLen>>
     /\ PrintT(<<"CUTS", ToJson(bfCuts)>>)
Next == (\E k \in 0..Total : Update(k)) \/ Finish
Spec == Init /\ [][Next]_bfVars

Refines == bfDone => bfOut = Standard(bfLen)
Pending == ~bfDone => /\ bfOff = bfLen % B
                      /\ SubSeq(bfBuf,1,bfOff) = [i \in 1..bfOff |-> bfLen - bfOff + i]
                      /\ bfOut = Blocks(Up(bfLen))
\* what is hashed depends on the concatenation only
ByLength == bfDone => bfLen = IF bfCuts = <<>> THEN 0 ELSE bfCuts[Len(bfCuts)]
=============================================================================
