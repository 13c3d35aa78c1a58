------------------------------ MODULE Ciphers -------------------------------
(***************************************************************************)
(* Block ciphers with 16-byte blocks: AES (FIPS 197) and the toy ciphers   *)
(* the harness supplies as user-defined primitives.                        *)
(***************************************************************************)
EXTENDS Kernel

(* GF(2^8) of FIPS 197 *)
Xtime(b)   == ((2 * b) % 256) ^^ (IF b >= 128 THEN 27 ELSE 0)
GMul(a,b)  == FoldLeft(LAMBDA acc,k :
                 <<IF (b \div Pow2(k-1)) % 2 = 1 THEN acc[1] ^^ acc[2] ELSE acc[1], Xtime(acc[2])>>,
                 <<0,a>>, UpTo(8))[1]
GInv(a)    == IF a = 0 THEN 0 ELSE CHOOSE c \in 1..255 : GMul(a,c) = 1
RotB(b,k)  == ((b * Pow2(k)) % 256) + (b \div Pow2(8-k))
Affine(b)  == XorAll(<<b, RotB(b,1), RotB(b,2), RotB(b,3), RotB(b,4), 99>>)
\* SBox[b+1]
SBox == Force([i \in 1..256 |-> Affine(GInv(i-1))])
Mul2 == Force([i \in 1..256 |-> Xtime(i-1)])
Rcon == FoldLeft(LAMBDA acc,i : Append(acc, Xtime(acc[i])), <<1>>, UpTo(9))

SubBytes(s) == Force([i \in 1..Len(s) |-> SBox[s[i]+1]])
\* state byte (row r, column c), both from 0, is s[4c+r+1]
ShiftRows(s) == Force([i \in 1..16 |-> LET r == (i-1) % 4  c == (i-1) \div 4
                                       IN s[4*((c + r) % 4) + r + 1]])
MixColumns(s) ==
  Force([i \in 1..16 |->
     LET r == (i-1) % 4  c == (i-1) \div 4
         At(k) == s[4*c + ((r+k) % 4) + 1]
     IN XorAll(<<Mul2[At(0)+1], Mul2[At(1)+1], At(1), At(2), At(3)>>)])

\* key schedule: sequence of 4-byte words
RotWord(w) == <<w[2],w[3],w[4],w[1]>>
KeySchedule(key) ==
  LET nk == Len(key) \div 4
      step(W,i) ==   \* i = index from 0 of the word to append
        LET t == W[i]
            u == IF i % nk = 0 THEN XorB(SubBytes(RotWord(t)), <<Rcon[i \div nk],0,0,0>>)
                 ELSE IF nk > 6 /\ i % nk = 4 THEN SubBytes(t) ELSE t
        IN Append(W, XorB(W[i+1-nk], u))
  IN FoldLeft(step, BlocksOf(key,4), Force([j \in 1..(4*(nk+7) - nk) |-> nk+j-1]))

AesBlock(key, block) ==
  LET nr == Len(key) \div 4 + 6
      W  == KeySchedule(key)
      RK(r) == Flatten([j \in 1..4 |-> W[4*r+j]])
      round(s,r) == XorB(MixColumns(ShiftRows(SubBytes(s))), RK(r))
      s1 == FoldLeft(round, XorB(block, RK(0)), UpTo(nr-1))
  IN XorB(ShiftRows(SubBytes(s1)), RK(nr))

-----------------------------------------------------------------------------
(* user-supplied block ciphers (harness/src/toy.rs implements the same)    *)
AesAlgs == {"aes128","aes192","aes256"}
ToyCiphers == {"toyid","toyxor","toymix"}
AesKeyLen(alg) == CASE alg = "aes128" -> 16 [] alg = "aes192" -> 24 [] alg = "aes256" -> 32
\* toy ciphers take keys of any length
KeyLenOK(alg,n) == IF alg \in AesAlgs THEN n = AesKeyLen(alg) ELSE TRUE

\* cyclic key byte
KB(key,i) == IF key = <<>> THEN 90 ELSE key[((i-1) % Len(key)) + 1]
ToyXor(key,b) == Force([i \in 1..16 |-> b[i] ^^ KB(key,i)])
\* not a permutation network of any strength, but every output byte depends on most input bytes
ToyMix(key,b) ==
  LET step(s,i) == LET j == ((i-1) % 16) + 1  p == ((j+14) % 16) + 1  q == ((j+4) % 16) + 1
                   IN [s EXCEPT ![j] = ((s[j] + 3*s[p] + KB(key,i)) % 256) ^^ ((s[q] * 5 + i) % 256)]
  IN FoldLeft(step, Force(b), UpTo(48))

BlockEnc(alg,key,b) == CASE alg \in AesAlgs -> AesBlock(key,b)
                         [] alg = "toyid"   -> b
                         [] alg = "toyxor"  -> ToyXor(key,b)
                         [] alg = "toymix"  -> ToyMix(key,b)
=============================================================================
