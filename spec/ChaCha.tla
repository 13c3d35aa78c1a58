------------------------------- MODULE ChaCha -------------------------------
(***************************************************************************)
(* RFC 8439: ChaCha20, Poly1305 and their AEAD.                            *)
(***************************************************************************)
EXTENDS Kernel

\* "expand 32-byte k"
Sigma == <<101,120,112,97,110,100,32,51,50,45,98,121,116,101,32,107>>

QR(s,a,b,c,d) ==
  LET a1 == AddB(s[a],s[b])   d1 == RotLB(XorB(s[d],a1),16)
      c1 == AddB(s[c],d1)     b1 == RotLB(XorB(s[b],c1),12)
      a2 == AddB(a1,b1)       d2 == RotLB(XorB(d1,a2),8)
      c2 == AddB(c1,d2)       b2 == RotLB(XorB(b1,c2),7)
  IN Force([s EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2])
DoubleRound(s) ==
  LET s1 == QR(QR(QR(QR(s,1,5,9,13),2,6,10,14),3,7,11,15),4,8,12,16)
  IN QR(QR(QR(QR(s1,1,6,11,16),2,7,12,13),3,8,9,14),4,5,10,15)

\* one 64-byte block; counter is a 4-byte natural
ChaChaBlock(key,counter,nonce) ==
  LET init == BlocksOf(Sigma \o key \o counter \o nonce, 4)
      fin  == FoldLeft(LAMBDA s,i : DoubleRound(s), init, UpTo(10))
  IN Flatten([i \in 1..16 |-> AddB(fin[i],init[i])])

\* n keystream bytes starting at byte position pos (an 8-byte natural), first block counter = pos / 64
KeyStream(key,nonce,pos,n) ==
  LET off == pos[1] % 64
      blk == Take(ShRB(pos,6),4)
      all == Flatten([i \in 1..CeilDiv(off+n,64) |->
                 ChaChaBlock(key, Take(NatAdd(blk,IntLE(i-1,4)),4), nonce)])
  IN SubSeq(all, off+1, off+n)
PosAdd(pos,n) == Take(NatAdd(pos,IntLE(n,4)),8)
Pos0 == Zeros(8)

-----------------------------------------------------------------------------
(* Poly1305 *)
P1305 == NatSub(Zeros(16) \o <<4>>, <<5>>)               \* 2^130 - 5
ClampMask == Hex("ffffff0ffcffff0ffcffff0ffcffff0f")
Poly1305(key,msg) ==
  LET r == AndB(Take(key,16), ClampMask)
      s == Drop(key,16)
      step(acc,b) == NatMod(NatMul(NatAdd(acc, b \o <<1>>), r), P1305)
  IN Take(NatAdd(FoldLeft(step, Zeros(17), BlocksOf(msg,16)), s), 16)

\* accumulator after n blocks x from accumulator acc (see GfIter)
PolyMore(r,acc,x,n) ==
  LET e == IntLE(n,4)  b == BitLen(e)
      MulP(u,v) == NatMod(NatMul(u,v), P1305)
      one == <<r, MulP(x \o <<1>>, r)>>
      then(p,q) == <<MulP(p[1],q[1]), NatMod(NatAdd(MulP(p[2],q[1]), q[2]), P1305)>>
      f == FoldLeft(LAMBDA a,k : TLCEval(LET s == then(a,a) IN IF BitAt(e,b-k) = 1 THEN then(s,one) ELSE s),
                    <<<<1>>, Zeros(17)>>, UpTo(b))
  IN NatMod(NatAdd(MulP(acc,f[1]), f[2]), P1305)

-----------------------------------------------------------------------------
(* AEAD_CHACHA20_POLY1305 *)
CpCrypt(key,nonce,x) == XorB(x, KeyStream(key,nonce,<<64,0,0,0,0,0,0,0>>,Len(x)))
CpMacData(aad,ct) == PadMul(aad,16) \o PadMul(ct,16) \o PadTo(IntLE(Len(aad),4),8) \o PadTo(IntLE(Len(ct),4),8)
CpPolyKey(key,nonce) == Take(ChaChaBlock(key,Zeros(4),nonce),32)
CpTag(key,nonce,aad,ct) == Poly1305(CpPolyKey(key,nonce), CpMacData(aad,ct))
CpSeal(key,nonce,aad,pt) == LET ct == CpCrypt(key,nonce,pt) IN [ct |-> ct, tag |-> CpTag(key,nonce,aad,ct)]
\* associated data: an copies of the 16-byte ax; ciphertext: cn copies of cx
CpTagRep(key,nonce,ax,an,cx,cn) ==
  LET pk == CpPolyKey(key,nonce)
      r == AndB(Take(pk,16), ClampMask)
      acc == PolyMore(r, PolyMore(r, Zeros(17), ax, an), cx, cn)
      lens == PadTo(Take(NatMul(IntLE(an,4),<<16>>),5),8) \o PadTo(Take(NatMul(IntLE(cn,4),<<16>>),5),8)
      fin == NatMod(NatMul(NatAdd(acc, lens \o <<1>>), r), P1305)
  IN Take(NatAdd(fin, Drop(pk,16)), 16)
CpKsAt(key,nonce,off,n) == KeyStream(key,nonce,PosAdd(<<64,0,0,0,0,0,0,0>>,off),n)
=============================================================================
