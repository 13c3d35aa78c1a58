------------------------------- MODULE Kernel -------------------------------
(***************************************************************************)
(* Byte strings and natural numbers.                                       *)
(*                                                                         *)
(* A byte string is a sequence over 0..255.  A natural number (or a machine *)
(* word) is a byte string in little-endian order, so arithmetic of any     *)
(* width fits TLC's 32-bit integers.  Every operator here has the          *)
(* definition written below; java/verif/KernelAccel.java provides faster   *)
(* evaluations of some of them, and KernelSelfTest.tla compares the two.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

\* (no operator below is RECURSIVE: TLC evaluates a constant-level definition once and keeps its
\* value, but not when a RECURSIVE operator is reachable from it)
Force(s) == TLCEval(s)
UpTo(n) == Force([i \in 1..n |-> i])

Zeros(n)  == Force([i \in 1..n |-> 0])
Fill(n,b) == Force([i \in 1..n |-> b])
\* the first n elements of the endless repetition of p
Cyc(p,n) == Force([i \in 1..n |-> p[((i-1) % Len(p)) + 1]])
Take(s,n) == SubSeq(s, 1, n)
Drop(s,n) == SubSeq(s, n+1, Len(s))
Rev(s)    == LET n == Len(s) IN Force([i \in 1..n |-> s[n+1-i]])
MinI(a,b) == IF a < b THEN a ELSE b
MaxI(a,b) == IF a > b THEN a ELSE b
CeilDiv(a,b) == (a + b - 1) \div b

\* i-th block (from 1) of size n of s; the last one may be shorter
Block(s,n,i)  == SubSeq(s, n*(i-1)+1, MinI(n*i, Len(s)))
BlocksOf(s,n) == Force([i \in 1..CeilDiv(Len(s),n) |-> Block(s,n,i)])

PadTo(s,n)    == IF Len(s) >= n THEN s ELSE s \o Zeros(n - Len(s))
\* zero padding to a multiple of n
PadMul(s,n)   == LET r == Len(s) % n IN IF r = 0 THEN s ELSE s \o Zeros(n - r)

\* integers (below 2^31) as little-endian byte strings of length n
IntLE(x,n) == Force([i \in 1..n |-> IF i > 4 THEN 0 ELSE (x \div 256^(i-1)) % 256])
IntBE(x,n) == Rev(IntLE(x,n))
\* value of a short little-endian string as an integer (must fit 31 bits)
ToInt(s) == FoldRight(LAMBDA b,acc : b + 256 * acc, s, 0)

Flatten(ss) == FoldLeft(LAMBDA acc,s : acc \o s, <<>>, ss)

\* "0aff" as <<10,255>>
HexDigits == "0123456789abcdef"
NibbleOf(c) == (CHOOSE i \in 1..16 : SubSeq(HexDigits,i,i) = c) - 1
Hex(str) == Force([i \in 1..(Len(str) \div 2) |->
               16 * NibbleOf(SubSeq(str,2*i-1,2*i-1)) + NibbleOf(SubSeq(str,2*i,2*i))])
ToHex(s) == FoldLeft(LAMBDA acc,b : acc \o SubSeq(HexDigits, (b \div 16) + 1, (b \div 16) + 1)
                                        \o SubSeq(HexDigits, (b % 16) + 1, (b % 16) + 1), "", s)

-----------------------------------------------------------------------------
(* bitwise operations on equal-length strings *)
Xor2(x,y) == x ^^ y
Xor3(x,y,z) == (x ^^ y) ^^ z
XorAll(s) == FoldLeft(Xor2, 0, s)
XorB(a,b) == Force([i \in 1..Len(a) |-> a[i] ^^ b[i]])
AndB(a,b) == Force([i \in 1..Len(a) |-> a[i] & b[i]])
NotB(a)   == Force([i \in 1..Len(a) |-> 255 - a[i]])

Pow2(k) == 2^k
\* bit k (from 0, least significant first) of a little-endian string
BitAt(a,k) == IF k \div 8 + 1 > Len(a) THEN 0 ELSE (a[k \div 8 + 1] \div Pow2(k % 8)) % 2

\* right shift by k bits, same length
ShRB(a,k) ==
  LET n == Len(a)  q == k \div 8  r == k % 8
      At(i) == IF i > n THEN 0 ELSE a[i]
  IN Force([i \in 1..n |-> (At(i+q) \div Pow2(r)) + ((At(i+q+1) * Pow2(8-r)) % 256)])
\* right rotation by k bits
RotRB(a,k) ==
  LET n == Len(a)  q == k \div 8  r == k % 8
      At(i) == a[((i-1) % n) + 1]
  IN Force([i \in 1..n |-> (At(i+q) \div Pow2(r)) + ((At(i+q+1) * Pow2(8-r)) % 256)])
RotLB(a,k) == RotRB(a, 8*Len(a) - k)

\* sum modulo 256^Len(a), equal lengths
AddB(a,b) ==
  LET step(acc,i) == LET s == a[i] + b[i] + acc[2]
                     IN <<Append(acc[1], s % 256), s \div 256>>
  IN FoldLeft(step, << <<>>, 0 >>, UpTo(Len(a)))[1]

-----------------------------------------------------------------------------
(* natural numbers *)
AtZ(a,i) == IF i > Len(a) THEN 0 ELSE a[i]

\* -1, 0 or 1: the most significant differing byte decides
NatCmp(a,b) == FoldLeft(LAMBDA acc,i : IF AtZ(a,i) < AtZ(b,i) THEN -1
                                       ELSE IF AtZ(a,i) > AtZ(b,i) THEN 1 ELSE acc,
                        0, UpTo(MaxI(Len(a),Len(b))))
NatEq(a,b) == NatCmp(a,b) = 0
NatLt(a,b) == NatCmp(a,b) = -1

\* propagate carries of a sequence of small naturals into n bytes
CarryOut(cols,n) ==
  LET step(acc,i) == LET s == AtZ(cols,i) + acc[2]
                     IN <<Append(acc[1], s % 256), s \div 256>>
  IN FoldLeft(step, << <<>>, 0 >>, UpTo(n))[1]

NatAdd(a,b) == LET n == MaxI(Len(a),Len(b)) + 1
               IN CarryOut(Force([i \in 1..n |-> AtZ(a,i) + AtZ(b,i)]), n)
\* a - b for a >= b, Len(a) bytes
NatSub(a,b) ==
  LET step(acc,i) == LET s == a[i] - AtZ(b,i) - acc[2]
                     IN <<Append(acc[1], s % 256), IF s < 0 THEN 1 ELSE 0>>
  IN FoldLeft(step, << <<>>, 0 >>, UpTo(Len(a)))[1]

ColSum(a,b,k) == FoldLeft(LAMBDA acc,i : acc + a[i] * AtZ(b,k+1-i), 0, UpTo(MinI(Len(a),k)))
\* product, Len(a)+Len(b) bytes (each operand at most 128 bytes)
NatMul(a,b) ==
  LET n == Len(a) + Len(b)
  IN CarryOut(Force([k \in 1..n |-> ColSum(a,b,k)]), n)

\* remainder: schoolbook long division from the most significant bit; Len(m) bytes
NatMod(a,m) ==
  LET nb == 8 * Len(a)
      step(r,j) ==
        LET b == BitAt(a, nb - j)
            r2 == CarryOut(Force([i \in 1..(Len(m)+1) |->
                     (IF i <= Len(m) THEN 2 * r[i] ELSE 0) + (IF i = 1 THEN b ELSE 0)]), Len(m)+1)
        IN IF NatCmp(r2,m) >= 0 THEN Take(NatSub(r2,m), Len(m)) ELSE Take(r2, Len(m))
  IN FoldLeft(step, Zeros(Len(m)), [j \in 1..nb |-> j])

ModAdd(a,b,m) == NatMod(NatAdd(a,b), m)
ModSub(a,b,m) == LET y == NatMod(b,m) IN NatMod(NatAdd(a, NatSub(m,y)), m)
ModMul(a,b,m) == NatMod(NatMul(a,b), m)
ModNeg(a,m)   == ModSub(Zeros(Len(m)), a, m)

\* number of significant bits
BitLen(e) == FoldLeft(LAMBDA acc,k : IF BitAt(e,k-1) = 1 THEN k ELSE acc, 0, UpTo(8*Len(e)))

\* a^e modulo m, square and multiply from the top
ModExp(a,e,m) ==
  LET one == NatMod(<<1>>, m)
      n == BitLen(e)
      step(r,j) == LET s == ModMul(r,r,m)
                   IN IF BitAt(e, n-j) = 1 THEN ModMul(s,a,m) ELSE s
  IN FoldLeft(step, one, [j \in 1..n |-> j])
=============================================================================
