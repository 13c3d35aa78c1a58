-------------------------------- MODULE Gcm ---------------------------------
(***************************************************************************)
(* NIST SP 800-38D GCM with 96-bit nonces and 128-bit tags, over any       *)
(* 16-byte block cipher.                                                   *)
(***************************************************************************)
EXTENDS Ciphers

\* bit i of a block: most significant bit of the first byte is bit 0
MsbAt(x,i) == (x[i \div 8 + 1] \div Pow2(7 - (i % 8))) % 2
\* V * x in GF(2^128): right shift, reduce with R = 11100001 || 0^120
ShiftR(v) == Rev(ShRB(Rev(v),1))
MulX(v) == LET s == ShiftR(v) IN IF MsbAt(v,127) = 1 THEN [s EXCEPT ![1] = @ ^^ 225] ELSE s
\* X . Y (SP 800-38D, section 6.3)
GfMul(x,y) == FoldLeft(LAMBDA acc,i : <<IF MsbAt(x,i-1) = 1 THEN XorB(acc[1],acc[2]) ELSE acc[1], MulX(acc[2])>>,
                       <<Zeros(16), Force(y)>>, UpTo(128))[1]

Len64BE(nbytes) == Rev(PadTo(NatMul(nbytes, <<8>>), 8))   \* nbytes as a natural number
GhashInput(a,c) == PadMul(a,16) \o PadMul(c,16) \o Take(Len64BE(IntLE(Len(a),4)),8) \o Take(Len64BE(IntLE(Len(c),4)),8)
Ghash(h,x) == FoldLeft(LAMBDA y,b : GfMul(XorB(y,b),h), Zeros(16), BlocksOf(x,16))

CtrBlock(nonce,ctr) == nonce \o Rev(ctr)                  \* ctr: 4-byte natural
NatSucc(ctr,k) == Take(NatAdd(ctr, IntLE(k,4)), Len(ctr)) \* ctr + k modulo 2^32

\* CTR keystream of n bytes from counter value c0
CtrStream(alg,key,nonce,c0,n) ==
  Take(Flatten([i \in 1..CeilDiv(n,16) |-> BlockEnc(alg,key,CtrBlock(nonce,NatSucc(c0,i-1)))]), n)

GcmCrypt(alg,key,nonce,x) == XorB(x, CtrStream(alg,key,nonce,<<2,0,0,0>>,Len(x)))
GcmH(alg,key) == BlockEnc(alg,key,Zeros(16))
GcmTag(alg,key,nonce,aad,ct) ==
  XorB(BlockEnc(alg,key,CtrBlock(nonce,<<1,0,0,0>>)), Ghash(GcmH(alg,key), GhashInput(aad,ct)))

GcmSeal(alg,key,nonce,aad,pt) ==
  LET ct == GcmCrypt(alg,key,nonce,pt) IN [ct |-> ct, tag |-> GcmTag(alg,key,nonce,aad,ct)]

-----------------------------------------------------------------------------
(* Messages too long to be written down: n copies of one block (n an integer). *)
\* The step y -> (y + x) . h is affine; its n-fold iteration y -> y . a + b is found by repeated
\* squaring: <<a,b>>.
GfOne == <<128>> \o Zeros(15)                             \* bit 0 set: the unit
GfIter(h,x,n) ==
  LET e == IntLE(n,4)  b == BitLen(e)
      one == <<h, GfMul(x,h)>>
      then(p,q) == <<GfMul(p[1],q[1]), XorB(GfMul(p[2],q[1]), q[2])>>     \* p first
  IN FoldLeft(LAMBDA acc,k : TLCEval(LET s == then(acc,acc) IN IF BitAt(e,b-k) = 1 THEN then(s,one) ELSE s),
              <<GfOne, Zeros(16)>>, UpTo(b))
\* GHASH state after n more blocks x
GhashMore(h,y,x,n) == LET f == GfIter(h,x,n) IN XorB(GfMul(y,f[1]), f[2])
RepBits(n) == Take(Len64BE(NatMul(IntLE(n,4),<<16>>)),8)
\* associated data: an copies of ax; ciphertext: cn copies of cx
GcmTagRep(alg,key,nonce,ax,an,cx,cn) ==
  LET h == GcmH(alg,key)
      y == GhashMore(h, GhashMore(h, Zeros(16), ax, an), cx, cn)
  IN XorB(BlockEnc(alg,key,CtrBlock(nonce,<<1,0,0,0>>)), GfMul(XorB(y, RepBits(an) \o RepBits(cn)), h))
\* n keystream bytes from byte offset off
GcmKsAt(alg,key,nonce,off,n) ==
  Drop(CtrStream(alg,key,nonce,NatSucc(<<2,0,0,0>>, off \div 16), (off % 16) + n), off % 16)
=============================================================================
