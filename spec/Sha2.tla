-------------------------------- MODULE Sha2 --------------------------------
(***************************************************************************)
(* FIPS 180-4: SHA-224, SHA-256, SHA-384, SHA-512.                         *)
(* Words are little-endian byte strings of 4 or 8 bytes (see Kernel).      *)
(***************************************************************************)
EXTENDS Kernel

Algs == {"sha224", "sha256", "sha384", "sha512"}
Wide(alg)      == alg \in {"sha384","sha512"}
WordSize(alg)  == IF Wide(alg) THEN 8 ELSE 4
BlockSize(alg) == 16 * WordSize(alg)
Rounds(alg)    == IF Wide(alg) THEN 80 ELSE 64
DigestSize(alg) == CASE alg = "sha224" -> 28 [] alg = "sha256" -> 32
                     [] alg = "sha384" -> 48 [] alg = "sha512" -> 64

-----------------------------------------------------------------------------
(* constants *)
IsPrime(n) == n > 1 /\ \A d \in 2..(n-1) : (d * d <= n) => (n % d # 0)
Primes80 == FoldLeft(LAMBDA acc,n : IF IsPrime(n) THEN Append(acc,n) ELSE acc, <<>>, UpTo(409))

\* Largest x < 2^(k*...) with x^2 <= v, found bit by bit from bit hi down to 0
WithBit(x,k) == [x EXCEPT ![k \div 8 + 1] = @ + Pow2(k % 8)]
PowN(x,power) == IF power = 2 THEN NatMul(x,x) ELSE NatMul(NatMul(x,x),x)
IfPowLe(y,x,power,v) == IF NatCmp(PowN(y,power), v) <= 0 THEN y ELSE x
Root(v,power,hi,len) ==
  LET step(x,j) == IfPowLe(WithBit(x, hi + 1 - j), x, power, v)
  IN FoldLeft(step, Zeros(len), [j \in 1..(hi+1) |-> j])
\* first 64 bits of the fractional part of the square / cube root of p:
\* floor(root(p * 2^(64*power))) modulo 2^64
Frac64(p,power) == Take(Root(Zeros(8*power) \o IntLE(p,2), power, 69, 9), 8)

\* The values below are literals because TLC keeps literal constants but would recompute the
\* derivation at each use; ConstantsDerived (checked by Kat.tla) says that they are the derived ones.
K64Lit == <<
  "22ae28d7982f8a42", "cd65ef2391443771", "2f3b4deccffbc0b5", "bcdb8981a5dbb5e9",
  "38b548f35bc25639", "19d005b6f111f159", "9b4f19afa4823f92", "18816ddad55e1cab",
  "420203a398aa07d8", "be6f7045015b8312", "8cb2e44ebe853124", "e2b4ffd5c37d0c55",
  "6f897bf2745dbe72", "b196163bfeb1de80", "3512c725a706dc9b", "942669cf74f19bc1",
  "d24af19ec1699be4", "e3254f388647beef", "b5d58c8bc69dc10f", "659cac77cca10c24",
  "75022b596f2ce92d", "83e4a66eaa84744a", "d4fb41bddca9b05c", "b5531183da88f976",
  "abdf66ee52513e98", "1032b42d6dc631a8", "3f21fb98c82703b0", "e40eefbec77f59bf",
  "c28fa83df30be0c6", "25a70a934791a7d5", "6f8203e05163ca06", "706e0e0a67292914",
  "fc2fd246850ab727", "26c9265c38211b2e", "ed2ac45afc6d2c4d", "dfb3959d130d3853",
  "de63af8b54730a65", "a8b2773cbb0a6a76", "e6aeed472ec9c281", "3b358214852c7292",
  "6403f14ca1e8bfa2", "013042bc4b661aa8", "9197f8d0708b4bc2", "30be5406a3516cc7",
  "1852efd619e892d1", "10a96555240699d6", "2a20715785350ef4", "b8d1bb3270a06a10",
  "c8d0d2b816c1a419", "53ab4151086c371e", "99eb8edf4c774827", "a8489be1b5bcb034",
  "635ac9c5b30c1c39", "cb8a41e34aaad84e", "73e363774fca9c5b", "a3b8b2d6f36f2e68",
  "fcb2ef5dee828f74", "602f17436f63a578", "72abf0a11478c884", "ec39641a0802c78c",
  "281e6323faffbe90", "e9bd82deeb6c50a4", "1579c6b2f7a3f9be", "2b5372e3f27871c6",
  "9c6126eace3e27ca", "07c2c021c7b886d1", "1eebe0cdd67ddaea", "78d16eee7f4f7df5",
  "ba6f1772aa67f006", "a698c8a2c57d630a", "ae0df9be04983f11", "1b471c13350b711b",
  "847d0423f577db28", "9324c7407babca32", "bcbec9150abe9e3c", "4c0d109cc4671d43",
  "b6423ecbbed4c54c", "2a7e65fc9c297f59", "ecfad63aab6fcb5f", "1758474a8c19446c">>
Sq64Lit == <<
  "08c9bcf367e6096a", "3ba7ca8485ae67bb", "2bf894fe72f36e3c", "f1361d5f3af54fa5",
  "d182e6ad7f520e51", "1f6c3e2b8c68059b", "6bbd41fbabd9831f", "79217e1319cde05b",
  "d89e05c15d9dbbcb", "07d57c362a299a62", "17dd70305a015991", "39590ef7d8ec2f15",
  "310bc0ff67263367", "11155868874ab48e", "a78ff9640d2e0cdb", "a44ffabe1d48b547">>
K64  == Force([i \in 1..80 |-> Hex(K64Lit[i])])
K32  == Force([i \in 1..64 |-> Drop(K64[i], 4)])
Sq64 == Force([i \in 1..16 |-> Hex(Sq64Lit[i])])
ConstantsDerived == /\ \A i \in 1..80 : K64[i] = Frac64(Primes80[i], 3)
                    /\ \A i \in 1..16 : Sq64[i] = Frac64(Primes80[i], 2)

H0(alg) == CASE alg = "sha512" -> Take(Sq64, 8)
             [] alg = "sha384" -> Drop(Sq64, 8)
             [] alg = "sha256" -> [i \in 1..8 |-> Drop(Sq64[i], 4)]
             [] alg = "sha224" -> [i \in 1..8 |-> Take(Sq64[i+8], 4)]
KC(wide) == IF wide THEN K64 ELSE K32

-----------------------------------------------------------------------------
(* functions *)
X3(a,b,c) == XorB(XorB(a,b),c)
Ch(x,y,z)  == XorB(AndB(x,y), AndB(NotB(x),z))
Maj(x,y,z) == X3(AndB(x,y), AndB(x,z), AndB(y,z))
Bsig0(w,x) == IF w THEN X3(RotRB(x,28),RotRB(x,34),RotRB(x,39)) ELSE X3(RotRB(x,2),RotRB(x,13),RotRB(x,22))
Bsig1(w,x) == IF w THEN X3(RotRB(x,14),RotRB(x,18),RotRB(x,41)) ELSE X3(RotRB(x,6),RotRB(x,11),RotRB(x,25))
Ssig0(w,x) == IF w THEN X3(RotRB(x,1),RotRB(x,8),ShRB(x,7)) ELSE X3(RotRB(x,7),RotRB(x,18),ShRB(x,3))
Ssig1(w,x) == IF w THEN X3(RotRB(x,19),RotRB(x,61),ShRB(x,6)) ELSE X3(RotRB(x,17),RotRB(x,19),ShRB(x,10))

Add4(a,b,c,d) == AddB(AddB(a,b),AddB(c,d))

\* W: the message schedule of one block
Schedule(w,block) ==
  LET ws == IF w THEN 8 ELSE 4
      first == Force([t \in 1..16 |-> Rev(Block(block, ws, t))])
      step(W,t) == Append(W, Add4(Ssig1(w,W[t-2]), W[t-7], Ssig0(w,W[t-15]), W[t-16]))
  IN FoldLeft(step, first, [i \in 1..((IF w THEN 80 ELSE 64) - 16) |-> i + 16])

\* one application of the compression function: w = TRUE for the 64-bit family
Compress(w,state,block) ==
  LET W == Schedule(w, block)
      step(s,t) ==
        LET T1 == AddB(s[8], Add4(Bsig1(w,s[5]), Ch(s[5],s[6],s[7]), KC(w)[t], W[t]))
            T2 == AddB(Bsig0(w,s[1]), Maj(s[1],s[2],s[3]))
        IN <<AddB(T1,T2), s[1], s[2], s[3], AddB(s[4],T1), s[5], s[6], s[7]>>
      f == FoldLeft(step, state, [t \in 1..(IF w THEN 80 ELSE 64) |-> t])
  IN Force([i \in 1..8 |-> AddB(state[i], f[i])])

\* padding: 0x80, zeros, bit length as a big-endian number of two words.
\* n is the message length in bytes, as a natural number.
BitLenBE(n, fieldlen) == Rev(Take(PadTo(NatMul(n, <<8>>), fieldlen), fieldlen))
Pad(alg, n) ==
  LET bs == BlockSize(alg)  lf == 2 * WordSize(alg)
      z == (bs - ((PadTo(n,1)[1] + 1 + lf) % bs)) % bs
  IN <<128>> \o Zeros(z) \o BitLenBE(n, lf)

Iterate(w,state,bytes) == FoldLeft(LAMBDA s,b : Compress(w,s,b), state, BlocksOf(bytes, IF w THEN 128 ELSE 64))

Finish(alg,final) == Take(Flatten([i \in 1..8 |-> Rev(final[i])]), DigestSize(alg))
Hash(alg,msg) == Finish(alg, Iterate(Wide(alg), H0(alg), msg \o Pad(alg, IntLE(Len(msg),4))))

\* The same function on messages too long to be written down: pre (whole blocks), then n copies of
\* one block, then tail.  n is a natural number.
CompressRep(w,state,block,n) == FoldLeft(LAMBDA s,i : Compress(w,s,block), state, UpTo(n))
HashRep(alg,pre,block,n,tail) ==
  LET w == Wide(alg)
      len == NatAdd(NatMul(IntLE(n,4), IntLE(Len(block),2)), IntLE(Len(pre) + Len(tail),4))
      s0 == Iterate(w, H0(alg), pre)
  IN Finish(alg, Iterate(w, CompressRep(w, s0, block, n), tail \o Pad(alg,len)))
=============================================================================
