----------------------------- MODULE CryptoPure -----------------------------
(***************************************************************************)
(* The public interface of crypto-pure as a state machine.                 *)
(*                                                                         *)
(* State: heap, the live objects.  A hasher or MAC is the message absorbed *)
(* so far, a ChaCha20 stream is its key, nonce and byte position, a cipher *)
(* is its key.  Every public operation is one action; a call is a record e *)
(* with the operation name, its arguments and the reply e.r, and           *)
(*     Call(e)  ==  e.r \in Replies(e, heap)  /\  heap' = Effect(e, heap)  *)
(* Replies(e,h) is the set of replies the interface permits in state h:    *)
(* [t |-> "ok", v |-> value] or [t |-> "panic"].  It is a singleton for    *)
(* every call except Ed25519 verification of signatures that satisfy only  *)
(* the cofactored equation, where RFC 8032 permits both answers.           *)
(***************************************************************************)
EXTENDS Mac, ChaCha, Gcm, Curve

VARIABLE heap

Ok(v)   == [t |-> "ok", v |-> v]
Panic   == [t |-> "panic", v |-> <<>>]
If(pre, v) == {IF pre THEN Ok(v) ELSE Panic}

Dead == [k |-> "dead"]
NoHeap == [x \in {} |-> Dead]
Put(h,o,obj) == (o :> obj) @@ h
Obj(e,h) == h[e.o]

-----------------------------------------------------------------------------
(* AEAD ciphers: GCM over a block cipher, or ChaCha20-Poly1305 *)
AeadAlgs == {"gcm-aes128","gcm-aes192","gcm-aes256","gcm-toyid","gcm-toyxor","gcm-toymix","chachapoly"}
GcmCipher(alg) == CASE alg = "gcm-aes128" -> "aes128" [] alg = "gcm-aes192" -> "aes192"
                    [] alg = "gcm-aes256" -> "aes256" [] alg = "gcm-toyid" -> "toyid"
                    [] alg = "gcm-toyxor" -> "toyxor" [] alg = "gcm-toymix" -> "toymix"
AeadKeyOK(alg,n) == IF alg = "chachapoly" THEN n = 32 ELSE KeyLenOK(GcmCipher(alg),n)
AeadTag(c,nonce,aad,ct) == IF c.alg = "chachapoly" THEN CpTag(c.key,nonce,aad,ct)
                           ELSE GcmTag(GcmCipher(c.alg),c.key,nonce,aad,ct)
AeadCrypt(c,nonce,x) == IF c.alg = "chachapoly" THEN CpCrypt(c.key,nonce,x)
                        ELSE GcmCrypt(GcmCipher(c.alg),c.key,nonce,x)

-----------------------------------------------------------------------------
(* permitted replies *)
R_hash_new(e,h)  == {Ok(<<>>)}
R_hash_up(e,h)   == {Ok(<<>>)}
R_hash_fin(e,h)  == LET s == Obj(e,h) IN If(e.n = s.h.d, H(s.h, s.msg))
R_hash_one(e,h)  == {Ok(H(e.h, e.d))}
\* advertised digest and block sizes
R_hash_sizes(e,h) == {Ok(<<e.h.d, e.h.b>>)}

R_hmac_new(e,h)  == {Ok(<<>>)}
R_hmac_up(e,h)   == {Ok(<<>>)}
R_hmac_tag(e,h)  == LET s == Obj(e,h) IN {Ok(Hmac(s.h, s.key, s.msg))}
R_hmac_one(e,h)  == {Ok(Hmac(e.h, e.key, e.d))}
R_hmac_verify(e,h) == {Ok(e.tag = Hmac(e.h, e.key, e.d))}

R_hkdf_ext(e,h)  == If(e.n = e.h.d, Extract(e.h, e.salt, e.ikm))
R_hkdf_exp(e,h)  == If(Len(e.prk) >= e.h.d /\ e.n <= 255 * e.h.d, Expand(e.h, e.prk, e.info, e.n))

R_blk_new(e,h)   == If(KeyLenOK(e.alg, Len(e.key)), <<>>)
R_blk(e,h)       == LET c == Obj(e,h) IN {Ok(BlockEnc(c.alg, c.key, e.d))}

R_st_new(e,h)    == If(Len(e.key) = 32 /\ Len(e.nonce) = 12, <<>>)
StNext(s,n)      == KeyStream(s.key, s.nonce, s.pos, n)
R_st_take(e,h)   == {Ok(StNext(Obj(e,h), e.n))}
\* Iterator::nth(n): the byte after skipping n
R_st_nth(e,h)    == LET s == Obj(e,h) IN {Ok(KeyStream(s.key, s.nonce, PosAdd(s.pos,e.n), 1))}
R_st_nthl(e,h)   == LET s == Obj(e,h) IN {Ok(KeyStream(s.key, s.nonce, Take(NatAdd(s.pos,e.by),8), 1))}
R_st_crypt(e,h)  == If(e.n = Len(e.d), XorB(e.d, StNext(Obj(e,h), Len(e.d))))
\* the last 48 of many zero bytes encrypted
R_st_long(e,h)   == LET s == Obj(e,h)
                    IN {Ok(KeyStream(s.key, s.nonce, Take(PadTo(NatSub(NatAdd(s.pos,e.by),<<48>>),8),8), 48))}
R_st_skip(e,h)   == {Ok(<<>>)}

R_aead_new(e,h)  == If(AeadKeyOK(e.alg, Len(e.key)), <<>>)
AeadLens(e)      == Len(e.nonce) = 12 /\ Len(e.d) = e.n
R_aead_seal(e,h) == LET c == Obj(e,h)  ct == AeadCrypt(c, e.nonce, e.d)
                    IN If(AeadLens(e), <<ct, AeadTag(c, e.nonce, e.aad, ct)>>)
\* the output buffer held the byte e.fill throughout before the call
R_aead_open(e,h) == LET c == Obj(e,h)  good == e.tag = AeadTag(c, e.nonce, e.aad, e.d)
                    IN If(AeadLens(e), <<good, IF good THEN AeadCrypt(c, e.nonce, e.d) ELSE Fill(e.n, e.fill)>>)

\* long messages: keystream windows, and the tag when the ciphertext is n copies of one block and
\* the associated data an copies of another; sealing and opening what was sealed agree
AeadKsAt(c,nonce,off,n) == IF c.alg = "chachapoly" THEN CpKsAt(c.key,nonce,off,n)
                           ELSE GcmKsAt(GcmCipher(c.alg),c.key,nonce,off,n)
AeadTagRep(c,nonce,ax,an,cx,cn) ==
  IF c.alg = "chachapoly" THEN CpTagRep(c.key,nonce,ax,an,cx,cn)
  ELSE GcmTagRep(GcmCipher(c.alg),c.key,nonce,ax,an,cx,cn)
\* the same at an offset given as a natural, for GCM a multiple of 16
AeadKsFar(c,nonce,off,n) ==
  IF c.alg = "chachapoly" THEN KeyStream(c.key,nonce,Take(PadTo(NatAdd(off,<<64>>),8),8),n)
  ELSE CtrStream(GcmCipher(c.alg),c.key,nonce,Take(PadTo(NatAdd(ShRB(off,4),<<2>>),4),4),n)
R_aead_fix(e,h)  ==
  LET c == Obj(e,h)
      tag == AeadTagRep(c,e.nonce,e.aad,e.an,e.d,e.n)
  IN {Ok(<<TRUE, tag, Flatten([i \in 1..Len(e.win) |-> AeadKsAt(c,e.nonce,e.win[i][1],e.win[i][2])]), TRUE>>)}

\* sealing nothing under an equal blocks of associated data
R_aead_mac(e,h)  == {Ok(AeadTagRep(Obj(e,h),e.nonce,e.aad,e.an,<<>>,0))}
\* opening a ciphertext of n equal blocks: the verdict and the last 48 bytes of the output
R_aead_rep(e,h)  ==
  LET c == Obj(e,h)
      good == e.tag = AeadTagRep(c,e.nonce,e.aad,e.an,e.d,e.n)
      m == MinI(48,16*MinI(e.n,3))
      off == NatSub(NatMul(IntLE(e.n,4),<<16>>), IntLE(m,4))
  IN {Ok(<<good, IF good /\ m > 0 THEN XorB(Cyc(e.d,m), AeadKsFar(c,e.nonce,off,m)) ELSE Zeros(m)>>)}

R_x_pk(e,h)      == If(Len(e.sk) = 32, X25519(e.sk, BaseU))
R_x_dh(e,h)      == If(Len(e.sk) = 32 /\ Len(e.pk) = 32, X25519(e.sk, e.pk))

R_ed_pk(e,h)     == If(Len(e.sk) = 32, EdPublic(e.sk))
R_ed_sign(e,h)   == If(Len(e.sk) = 32, EdSign(e.sk, e.d))
\* The public key, and signatures of n messages that differ in a number at the end.  Only the first
\* and the last R are computed; the scalars are, for the R there are.
R_ed_bulk(e,h)   ==
  LET sec == EdSecret(e.sk)
      v == e.r.v
      pk == Take(v,32)
      Msg(i) == e.d \o IntLE(i,4)
      Nonce(i) == HashModL(sec.prefix \o Msg(i))
      R(i) == SubSeq(v,64*i-31,64*i)
      S(i) == SubSeq(v,64*i+1,64*i+32)
      good == /\ Len(v) = 32 + 64*e.n
              /\ pk = EdPublic(e.sk)
              /\ \A i \in {1,e.n} : R(i) = PEncode(PMul(Nonce(i),BaseP))
              /\ \A i \in 1..e.n : S(i) = ModAdd(Nonce(i), ModMul(HashModL(R(i) \o pk \o Msg(i)), sec.a, L25519), L25519)
  IN IF e.r.t = "ok" /\ good THEN {e.r} ELSE {}
R_ed_verify(e,h) == IF Len(e.pk) # 32 THEN {Panic}
                    ELSE LET a == EdVerify(e.d, e.sig, e.pk)
                         IN IF a = "either" THEN {Ok(TRUE), Ok(FALSE)} ELSE {Ok(a = "yes")}

\* The same for a message of e.n copies of 32 bytes, of which the hash function has four in a block.
\* SHA-512 of pre (32 or 64 bytes) and that message:
Copies(d,n) == Cyc(d, 32*n)
HashLong(pre,d,n) ==
  LET first == 4 - Len(pre) \div 32
      reps == (n - first) \div 4
  IN HashRep("sha512", pre \o Copies(d,first), Copies(d,4), reps, Copies(d, n - first - 4*reps))
R_ed_long(e,h)   ==
  LET sec == EdSecret(e.sk)
      pk == PEncode(PMul(sec.a,BaseP))
      r == NatMod(HashLong(sec.prefix,e.d,e.n), L25519)
      R == PEncode(PMul(r,BaseP))
      k == NatMod(HashLong(R \o pk,e.d,e.n), L25519)
  IN {Ok(R \o ModAdd(r, ModMul(k,sec.a,L25519), L25519))}
R_ed_vlong(e,h)  ==
  LET a == EdVerifyK(NatMod(HashLong(Take(e.sig,32) \o e.pk, e.d, e.n), L25519), e.sig, e.pk)
  IN IF a = "either" THEN {Ok(TRUE), Ok(FALSE)} ELSE {Ok(a = "yes")}

R_v16(e,h)       == {Ok(Len(e.y) = 16 /\ e.x = e.y)}

\* messages of n blocks and a tail
R_hash_big(e,h)  == {Ok(HashRep(e.h.alg, <<>>, e.d, e.n, e.tail))}
R_hmac_big(e,h)  ==
  LET k == HmacKey(e.h, e.key)
  IN {Ok(Hash(e.h.alg, XorB(k,Fill(e.h.b,92)) \o HashRep(e.h.alg, XorB(k,Fill(e.h.b,54)), e.d, e.n, e.tail)))}

\* key of n blocks and a tail
R_hmac_longkey(e,h) == {Ok(Hmac(e.h, HashRep(e.h.alg, <<>>, e.d, e.n, e.tail), e.info))}

\* a bulk run of one law of the specification: digests of all left-hand and all right-hand sides
Laws == {"dh","dh3","clamp","sig","sigbad","chunk","macchunk","macverify","hkdfprefix","stream","aead"}
R_law(e,h) == IF e.name \in Laws /\ e.r.t = "ok" /\ e.r.v[1] = e.r.v[2] THEN {e.r} ELSE {}

\* iterated calls (harness/src/laws.rs, fn step)
ChainStep(name,s) ==
  CASE name \in AesAlgs ->
         LET k == Len(s) - 16  c == AesBlock(Take(s,k), Drop(s,k))
         IN Force([i \in 1..k |-> s[i] ^^ ((c[((i-1) % 16) + 1] + ((i-1) \div 16)) % 256)]) \o c
    [] name = "x25519" -> X25519(Take(s,32), Drop(s,32)) \o Take(s,32)
    [] name = "xpk"    -> X25519(s, BaseU)
    [] name = "edpk"   -> EdPublic(s)
    [] name = "edsign" -> Take(s,32) \o EdSign(Take(s,32), Drop(s,32))
    [] name \in {"sha224","sha256","sha384","sha512"} ->
         Hash(name, Take(s, MinI(Len(s), DigestSize(name) + s[1] + 1))) \o Take(s, Len(s) - DigestSize(name))
    [] name \in {"hmac-sha224","hmac-sha256","hmac-sha384","hmac-sha512"} ->
         LET h == Sha(SubSeq(name,6,11))
         IN Hmac(h, Take(s,s[1]), SubSeq(s,257,256+s[2])) \o Take(s, Len(s) - h.d)
    [] name = "stream" -> Take(KeyStream(Take(s,32), SubSeq(s,33,44), Pos0, s[45]+1) \o s, Len(s))
    [] name \in AeadAlgs ->
         LET a == s[45] % 64  m == s[46]
             kl == IF name = "chachapoly" THEN 32 ELSE AesKeyLen(GcmCipher(name))
             c == [alg |-> name, key |-> Take(s,kl)]
             nonce == SubSeq(s,33,44)
             ct == AeadCrypt(c, nonce, SubSeq(s,111,110+m))
         IN Take(AeadTag(c, nonce, SubSeq(s,47,46+a), ct) \o ct \o s, Len(s))
Chain(name,seed,count) == FoldLeft(LAMBDA s,i : TLCEval(ChainStep(name,s)), seed, UpTo(count))
R_chain(e,h) == {Ok(Chain(e.name, e.d, e.n))}

\* Message lengths at the limits.  gcm_probe: GCM over a user-supplied block cipher that stops the
\* operation at the first message block (or at the block with the last counter value); it must get
\* there exactly if the message length (a natural number) is below 2^36 - 32.
GcmLimit == NatSub(<<0,0,0,0,16>>, <<32>>)
R_gcm_probe(e,h) == If(NatLt(e.len, GcmLimit), "reached")
\* 2^32 - 1 blocks of 64 bytes
CpLimit == NatSub(<<0,0,0,0,64>>, <<64>>)
\* sealing (or opening) a message of that length with an output that cannot be accessed: refused, or
\* the access happens
R_aead_long(e,h) == If(IF e.alg = "chachapoly" THEN ~NatLt(CpLimit, e.len) ELSE NatLt(e.len, GcmLimit), "reached")

Replies(e,h) ==
  CASE e.op = "hash_new" -> R_hash_new(e,h)     [] e.op = "hash_up" -> R_hash_up(e,h)
    [] e.op = "hash_fin" -> R_hash_fin(e,h)     [] e.op = "hash_one" -> R_hash_one(e,h)
    [] e.op = "hash_sizes" -> R_hash_sizes(e,h)
    [] e.op = "hmac_new" -> R_hmac_new(e,h)     [] e.op = "hmac_up" -> R_hmac_up(e,h)
    [] e.op = "hmac_tag" -> R_hmac_tag(e,h)     [] e.op = "hmac_one" -> R_hmac_one(e,h)
    [] e.op = "hmac_verify" -> R_hmac_verify(e,h)
    [] e.op = "hkdf_ext" -> R_hkdf_ext(e,h)     [] e.op = "hkdf_exp" -> R_hkdf_exp(e,h)
    [] e.op = "blk_new" -> R_blk_new(e,h)       [] e.op = "blk" -> R_blk(e,h)
    [] e.op = "st_new" -> R_st_new(e,h)         [] e.op = "st_take" -> R_st_take(e,h)
    [] e.op = "st_nth" -> R_st_nth(e,h) [] e.op = "st_nthl" -> R_st_nthl(e,h)
    [] e.op \in {"st_skip","st_jump"} -> R_st_skip(e,h)
    [] e.op \in {"st_enc","st_dec"} -> R_st_crypt(e,h)
    [] e.op = "aead_new" -> R_aead_new(e,h)     [] e.op = "aead_seal" -> R_aead_seal(e,h)
    [] e.op = "aead_open" -> R_aead_open(e,h)
    [] e.op = "x_pk" -> R_x_pk(e,h)             [] e.op = "x_dh" -> R_x_dh(e,h)
    [] e.op = "ed_pk" -> R_ed_pk(e,h)           [] e.op = "ed_sign" -> R_ed_sign(e,h)
    [] e.op = "ed_long" -> R_ed_long(e,h)     [] e.op = "ed_vlong" -> R_ed_vlong(e,h)
    [] e.op = "hmac_longkey" -> R_hmac_longkey(e,h) [] e.op = "st_long" -> R_st_long(e,h)
    [] e.op = "ed_bulk" -> R_ed_bulk(e,h)
    [] e.op = "ed_verify" -> R_ed_verify(e,h)   [] e.op = "v16" -> R_v16(e,h)
    [] e.op = "chain" -> R_chain(e,h)
    [] e.op = "gcm_probe" -> R_gcm_probe(e,h)   [] e.op = "aead_long" -> R_aead_long(e,h)
    [] e.op = "aead_rep" -> R_aead_rep(e,h)     [] e.op = "aead_mac" -> R_aead_mac(e,h)
    [] e.op = "aead_fix" -> R_aead_fix(e,h)     [] e.op = "law" -> R_law(e,h)
    [] e.op = "hash_big" -> R_hash_big(e,h)     [] e.op = "hmac_big" -> R_hmac_big(e,h)

-----------------------------------------------------------------------------
(* state changes.  Operations not listed leave the heap as it is: they are functions of their *)
(* arguments; no operation changes an object other than the one it is called on.              *)
\* which calls return normally is part of the reply; a panicking constructor creates nothing,
\* a panicking consumer still consumes, a panicking stream call does not advance the stream
Effect(e,h) ==
  CASE e.op = "hash_new" -> Put(h, e.o, [k |-> "hash", h |-> e.h, msg |-> <<>>])
    [] e.op = "hmac_new" -> Put(h, e.o, [k |-> "hmac", h |-> e.h, key |-> e.key, msg |-> <<>>])
    [] e.op \in {"hash_up","hmac_up"} -> [h EXCEPT ![e.o].msg = @ \o e.d]
    [] e.op \in {"hash_fin","hmac_tag"} -> [h EXCEPT ![e.o] = Dead]
    [] e.op = "blk_new" -> IF KeyLenOK(e.alg, Len(e.key))
                           THEN Put(h, e.o, [k |-> "blk", alg |-> e.alg, key |-> e.key]) ELSE h
    [] e.op = "aead_new" -> IF AeadKeyOK(e.alg, Len(e.key))
                            THEN Put(h, e.o, [k |-> "aead", alg |-> e.alg, key |-> e.key]) ELSE h
    [] e.op = "st_new" -> IF Len(e.key) = 32 /\ Len(e.nonce) = 12
                          THEN Put(h, e.o, [k |-> "stream", key |-> e.key, nonce |-> e.nonce, pos |-> Pos0]) ELSE h
    [] e.op = "st_take" -> [h EXCEPT ![e.o].pos = PosAdd(@, e.n)]
    [] e.op = "st_nthl" -> [h EXCEPT ![e.o].pos = Take(NatAdd(NatAdd(@, e.by),<<1>>), 8)]
    [] e.op = "st_nth"  -> [h EXCEPT ![e.o].pos = PosAdd(@, e.n + 1)]
    [] e.op \in {"st_skip","st_jump","st_long"} -> [h EXCEPT ![e.o].pos = Take(NatAdd(@, e.by), 8)]
    [] e.op \in {"st_enc","st_dec"} -> IF e.n = Len(e.d) THEN [h EXCEPT ![e.o].pos = PosAdd(@, e.n)] ELSE h
    [] OTHER -> h

CallR(e,permitted) == e.r \in permitted /\ heap' = Effect(e,heap)
Call(e) == CallR(e, Replies(e,heap))
CallInit == heap = NoHeap
=============================================================================
