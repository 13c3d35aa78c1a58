------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* Evaluates accelerated operators on many arguments and prints the        *)
(* results.  run.py runs it with and without the accelerators and compares *)
(* what is printed, which validates java/verif/ against the TLA+ text.     *)
(***************************************************************************)
EXTENDS Mac, ChaCha, Gcm, Curve, Json, IOUtils

Count == atoi(IOEnv.COUNT)
Group == IOEnv.GROUP
Seed == atoi(IOEnv.SEED)

\* bytes from a small generator; some are all zeros, all ones, or mostly extreme
Gen(s,n) == FoldLeft(LAMBDA acc,i : <<(acc[1] * 171 + 11213) % 53125, Append(acc[2], acc[1] % 256)>>, <<(s * 7919 + Seed * 104729) % 53125, <<>>>>, UpTo(n))[2]
Bytes(s,n) == CASE s % 7 = 0 -> Zeros(n) [] s % 7 = 1 -> Fill(n,255)
                [] s % 7 = 2 -> LET g == Gen(s,n) IN Force([i \in 1..n |-> IF g[i] < 60 THEN 0 ELSE IF g[i] < 200 THEN 255 ELSE g[i]])
                [] OTHER -> Gen(s,n)
\* a modulus: not zero
Modulus(s,n) == [Bytes(s,n) EXCEPT ![n] = 1 + (@ % 127)]

KernelValues(i) ==
  LET n == 1 + (i % 33)  m == 1 + ((i \div 3) % 20)
      a == Bytes(i,n)  b == Bytes(i+5,n)  c == Bytes(i+2,m)  q == Modulus(i+3,m)
      ar == Take(PadTo(NatMod(a,q),m),m)
  IN << Zeros(n), Fill(n,m), Rev(a), BlocksOf(a,m), Flatten(BlocksOf(a,m)), Hex(ToHex(a)), ToHex(b),
        XorB(a,b), AndB(a,b), NotB(a), ShRB(a, i % (8*n)), RotRB(a, i % (8*n)), AddB(a,b),
        NatCmp(a,c), NatCmp(a,b), NatAdd(a,c), NatSub(Append(a,1),b), NatMul(a,c), NatMod(a,q),
        ModAdd(a,b,q), ModSub(ar,c,q), ModMul(a,c,q), ModNeg(ar,q), BitLen(a),
        IF m <= 3 THEN ModExp(ar, Take(c,MinI(m,2)), q) ELSE <<>>,
        PadTo(c,n), PadMul(a,m), Take(a,n-1), Drop(a,1), Cyc(c,n) >>

State(w,s) == [j \in 1..8 |-> Bytes(s+j, IF w THEN 8 ELSE 4)]
BlockValues(i) ==
  << Compress(i % 2 = 0, State(i % 2 = 0,i), Bytes(i+3, IF i % 2 = 0 THEN 128 ELSE 64)),
     CompressRep(i % 2 = 1, State(i % 2 = 1,i), Bytes(i+2, IF i % 2 = 1 THEN 128 ELSE 64), i % 3),
     AesBlock(Bytes(i, 16 + 8 * (i % 3)), Bytes(i+1,16)),
     GfMul(Bytes(i,16), Bytes(i+3,16)),
     ChaChaBlock(Bytes(i,32), Bytes(i+1,4), Bytes(i+4,12)),
     ToyMix(Bytes(i+2, i % 40), Bytes(i,16)),
     ToyHash(1 + (i % 64), Bytes(i+3, i % 90)),
     \* the curve operators are slow without acceleration
     IF i % 5 = 0 THEN Ladder(Clamp(Bytes(i+3,32)), DecodeU(Bytes(i+4,32))) ELSE <<>>,
     IF i % 5 = 1 THEN PEncode(PMul(Take(Bytes(i+2,32), 1 + (i % 32)), PAdd(BaseP,BaseP))) ELSE <<>>,
     IF i % 5 = 2 THEN PEncode(PMul(Bytes(i+2, 2), PDecode(Zeros(32)))) ELSE <<>> >>

VARIABLES selfIndex, selfDone
Init == selfIndex \in 1..Count /\ selfDone = FALSE
Next == /\ ~selfDone /\ selfDone' = TRUE /\ UNCHANGED selfIndex
        /\ PrintT(<<"VALUE", selfIndex, ToJson(IF Group = "kernel" THEN KernelValues(selfIndex) ELSE BlockValues(selfIndex))>>)
Spec == Init /\ [][Next]_<<selfIndex,selfDone>>
=============================================================================
