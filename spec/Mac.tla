-------------------------------- MODULE Mac ---------------------------------
(***************************************************************************)
(* RFC 2104 HMAC and RFC 5869 HKDF over any hash function: SHA-2 or one of *)
(* the toy hash functions the harness supplies as user-defined primitives. *)
(***************************************************************************)
EXTENDS Sha2

\* A toy hash is named by a record [d |-> digest size, b |-> block size].
\* harness/src/toy.rs implements the same function.
ToyLane(msg,l) == FoldLeft(LAMBDA acc,x : (acc * 31 + x + l) % 65521, 7 + 13*l, msg)
ToyHash(d,msg) == LET lanes == Force([l \in 1..4 |-> (ToyLane(msg,l) + Len(msg)) % 65521])
                  IN Force([i \in 1..d |-> ((lanes[((i-1) % 4) + 1] * (i+2)) \div 16) % 256])

\* hash algorithms are records [alg |-> name, d |-> digest size, b |-> block size]
Sha(name) == [alg |-> name, d |-> DigestSize(name), b |-> BlockSize(name)]
Toy(d,b)  == [alg |-> "toy", d |-> d, b |-> b]
H(h,msg)  == IF h.alg = "toy" THEN ToyHash(h.d,msg) ELSE Hash(h.alg,msg)

\* RFC 2104
HmacKey(h,key) == PadTo(IF Len(key) > h.b THEN H(h,key) ELSE key, h.b)
Hmac(h,key,msg) ==
  LET k == HmacKey(h,key)
  IN H(h, XorB(k,Fill(h.b,92)) \o H(h, XorB(k,Fill(h.b,54)) \o msg))

\* RFC 5869
Extract(h,salt,ikm) == Hmac(h, salt, ikm)
\* T(1) | T(2) | ... | T(n)
Expand(h,prk,info,len) ==
  LET n == CeilDiv(len,h.d)
      step(acc,i) == LET t == Hmac(h,prk,acc[1] \o info \o <<i>>) IN <<t, acc[2] \o t>>
  IN Take(FoldLeft(step, << <<>>, <<>> >>, UpTo(n))[2], len)
=============================================================================
