------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* RFC 7748 X25519 and RFC 8032 Ed25519.                                   *)
(* Field elements and scalars are 32-byte little-endian naturals.          *)
(***************************************************************************)
EXTENDS Sha2

P25519 == NatSub(Zeros(31) \o <<128>>, <<19>>)           \* 2^255 - 19
F(n) == PadTo(IntLE(n,4),32)
FAdd(a,b) == ModAdd(a,b,P25519)
FSub(a,b) == ModSub(a,b,P25519)
FMul(a,b) == ModMul(a,b,P25519)
FNeg(a)   == ModNeg(a,P25519)
FInv(a)   == ModExp(a, NatSub(P25519,<<2>>), P25519)     \* 0 for 0
FOne == F(1)

-----------------------------------------------------------------------------
(* X25519 (RFC 7748, section 5) *)
MaskTop(u)  == [u EXCEPT ![32] = @ % 128]
DecodeU(u)  == NatMod(MaskTop(u), P25519)
Clamp(k)    == [k EXCEPT ![1] = @ - (@ % 8), ![32] = (@ % 64) + 64]

Ladder(k,x1) ==
  LET a24 == F(121665)
      step(s,j) ==
        LET t == 255 - j                                  \* 254 down to 0
            kt == BitAt(k,t)
            sw == (s.swap + kt) % 2
            x2 == IF sw = 1 THEN s.x3 ELSE s.x2   x3 == IF sw = 1 THEN s.x2 ELSE s.x3
            z2 == IF sw = 1 THEN s.z3 ELSE s.z2   z3 == IF sw = 1 THEN s.z2 ELSE s.z3
            A == FAdd(x2,z2)  AA == FMul(A,A)
            B == FSub(x2,z2)  BB == FMul(B,B)
            E == FSub(AA,BB)
            C == FAdd(x3,z3)  D == FSub(x3,z3)
            DA == FMul(D,A)   CB == FMul(C,B)
            S1 == FAdd(DA,CB) S2 == FSub(DA,CB)
        IN [swap |-> kt, x3 |-> FMul(S1,S1), z3 |-> FMul(x1,FMul(S2,S2)),
            x2 |-> FMul(AA,BB), z2 |-> FMul(E,FAdd(AA,FMul(a24,E)))]
      f == FoldLeft(LAMBDA s,j : TLCEval(step(s,j)), [swap |-> 0, x2 |-> FOne, z2 |-> F(0), x3 |-> x1, z3 |-> FOne], UpTo(255))
      xo == IF f.swap = 1 THEN f.x3 ELSE f.x2
      zo == IF f.swap = 1 THEN f.z3 ELSE f.z2
  IN FMul(xo, FInv(zo))
X25519(k,u) == Ladder(Clamp(k), DecodeU(u))
BaseU == F(9)

-----------------------------------------------------------------------------
(* edwards25519 (RFC 8032, section 5.1); points are <<X,Y,Z,T>> *)
EdD == Hex("a3785913ca4deb75abd841414d0a700098e879777940c78c73fe6f2bee6c0352")
SqrtM1 == Hex("b0a00e4a271beec478e42fad0618432fa7d7fb3d99004d2b0bdfc14f8024832b")
\* 2^252 + 27742317777372353535851937790883648493
L25519 == Hex("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010")

PId == <<F(0), FOne, FOne, F(0)>>
PAdd(p,q) ==
  LET A == FMul(FSub(p[2],p[1]), FSub(q[2],q[1]))
      B == FMul(FAdd(p[2],p[1]), FAdd(q[2],q[1]))
      C == FMul(FMul(FMul(p[4],F(2)),EdD),q[4])
      D == FMul(FMul(p[3],F(2)),q[3])
      E == FSub(B,A)  FF == FSub(D,C)  G == FAdd(D,C)  H == FAdd(B,A)
  IN <<FMul(E,FF), FMul(G,H), FMul(FF,G), FMul(E,H)>>
PNeg(p) == <<FNeg(p[1]), p[2], p[3], FNeg(p[4])>>
\* [n]p for a natural number n
PMul(n,p) == LET b == BitLen(n)
             IN FoldLeft(LAMBDA acc,j : LET q == PAdd(acc,acc) IN IF BitAt(n,b-j) = 1 THEN PAdd(q,p) ELSE q, PId, UpTo(b))
PEq(p,q) == NatEq(FMul(p[1],q[3]), FMul(q[1],p[3])) /\ NatEq(FMul(p[2],q[3]), FMul(q[2],p[3]))
PEncode(p) == LET zi == FInv(p[3])  x == FMul(p[1],zi)  y == FMul(p[2],zi)
              IN [y EXCEPT ![32] = @ + 128 * (x[1] % 2)]

NoPoint == <<>>
\* section 5.1.3
PDecode(s) ==
  LET sign == s[32] \div 128
      y == MaskTop(s)
      y2 == FMul(y,y)
      u == FSub(y2,FOne)
      v == FAdd(FMul(EdD,y2),FOne)
      v3 == FMul(FMul(v,v),v)
      v7 == FMul(FMul(v3,v3),v)
      x0 == FMul(FMul(u,v3), ModExp(FMul(u,v7), ShRB(NatSub(P25519,<<5>>),3), P25519))
      vxx == FMul(v,FMul(x0,x0))
      x1 == IF NatEq(vxx,u) THEN x0 ELSE FMul(x0,SqrtM1)
      ok == NatEq(vxx,u) \/ NatEq(vxx,FNeg(u))
      x == IF x1[1] % 2 = sign THEN x1 ELSE FNeg(x1)
  IN IF ~NatLt(y,P25519) THEN NoPoint
     ELSE IF ~ok THEN NoPoint
     ELSE IF NatEq(x1,F(0)) /\ sign = 1 THEN NoPoint
     ELSE <<x, y, FOne, FMul(x,y)>>

BaseX == Hex("1ad5258f602d56c9b2a7259560c72c695cdcd6fd31e2a4c0fe536ecdd3366921")
BaseY == Hex("5866666666666666666666666666666666666666666666666666666666666666")
BaseP == <<BaseX, BaseY, FOne, Hex("a3ddb7a5b38ade6df5525177809ff0207de3ab648e4eea6665768bd70f5f8767")>>
\* d = -121665/121666, sqrt(-1) = 2^((p-1)/4), base point = (x, 4/5) with x even; checked by Kat.tla
CurveConstantsDerived ==
  /\ EdD = FMul(FNeg(F(121665)), FInv(F(121666)))
  /\ SqrtM1 = ModExp(F(2), ShRB(NatSub(P25519,<<1>>),2), P25519)
  /\ BaseY = FMul(F(4), FInv(F(5)))
  /\ BaseP = PDecode(BaseY)

EdSecret(sk) == LET h == Hash("sha512",sk) IN [a |-> Clamp(Take(h,32)), prefix |-> Drop(h,32)]
EdPublic(sk) == PEncode(PMul(EdSecret(sk).a, BaseP))
HashModL(m) == NatMod(Hash("sha512",m), L25519)
\* signature with nonce scalar r under secret scalar a and public key encoding pk
EdSignWith(a,pk,r,msg) ==
  LET R == PEncode(PMul(r,BaseP))
      k == HashModL(R \o pk \o msg)
      S == ModAdd(r, ModMul(k,a,L25519), L25519)
  IN R \o S
EdSign(sk,msg) ==
  LET sec == EdSecret(sk)
      pk == PEncode(PMul(sec.a,BaseP))
  IN EdSignWith(sec.a, pk, HashModL(sec.prefix \o msg), msg)

\* "yes", "no", or "either": RFC 8032 5.1.7 requires [8][S]B = [8]R + [8][k]A and permits the
\* stronger test [S]B = R + [k]A, so signatures passing only the first may be answered either way.
\* With the challenge k given:
EdVerifyK(k,sig,pk) ==
  IF Len(sig) # 64 THEN "no" ELSE
  LET Renc == Take(sig,32)  S == Drop(sig,32)
  IN IF ~NatLt(S,L25519) THEN "no" ELSE
     LET A == PDecode(pk) IN IF A = NoPoint THEN "no" ELSE
     LET R == PDecode(Renc) IN IF R = NoPoint THEN "no" ELSE
     LET d == PAdd(PMul(S,BaseP), PNeg(PAdd(R, PMul(k,A))))
     IN IF PEq(d,PId) THEN "yes"
        ELSE IF PEq(PMul(<<8>>,d),PId) THEN "either" ELSE "no"
EdVerify(msg,sig,pk) == EdVerifyK(HashModL(Take(sig,32) \o pk \o msg), sig, pk)
=============================================================================
