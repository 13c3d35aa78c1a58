------------------------------ MODULE Windows ------------------------------
(***************************************************************************)
(* Recoding a scalar to signed odd digits, for scalar multiplication       *)
(* (C15, C16).  From the lowest bit on, a window that begins with a one    *)
(* takes in what follows it: a further one is added where the digit stays  *)
(* at most Most, subtracted where it stays at least -Most, which carries   *)
(* into the bits above.  Two ways are explored: "greedy" takes in ones as  *)
(* far as Reach bits away; "naf" always takes the residue next to 0 of     *)
(* the Reach lowest bits.  They come to the same digits.                   *)
(*                                                                         *)
(* In both, no bit may be lost: at every step what is recoded and what is  *)
(* left make the number.  What happened at each window - its digit, how    *)
(* far the carry went - is printed; these numbers are put at every place   *)
(* of 253-bit scalars, the runs of ones that make carries go far longer.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Width == atoi(IOEnv.WIDTH)                    \* numbers of so many bits
Reach == atoi(IOEnv.REACH)
Most  == atoi(IOEnv.MOST)                     \* the largest digit there is a multiple for, odd
N == Width + 1                                \* a carry can make one more digit

VARIABLES wnNum, wnWay, wnAt, wnDigits, wnSeen
wnVars == <<wnNum, wnWay, wnAt, wnDigits, wnSeen>>

BitOf(n,i) == (n \div (2^i)) % 2
RECURSIVE Value(_,_)
Value(r,i) == IF i > N THEN 0 ELSE r[i] * (2^(i-1)) + Value(r,i+1)

\* add one at position k
RECURSIVE Carry(_,_)
Carry(r,k) == IF r[k] = 0 THEN [r EXCEPT ![k] = 1] ELSE Carry([r EXCEPT ![k] = 0], k+1)
RECURSIVE Ones(_,_)
Ones(r,k) == IF k <= N /\ r[k] = 1 THEN 1 + Ones(r,k+1) ELSE 0

\* <<digits, how far carries went>> after the window that begins at i
RECURSIVE Greedy(_,_,_,_)
Greedy(r,i,b,c) ==
  IF b > Reach \/ i + b > N THEN <<r,c>>
  ELSE IF r[i+b] = 0 THEN Greedy(r,i,b+1,c)
  ELSE IF r[i] + (2^b) <= Most THEN Greedy([r EXCEPT ![i] = @ + (2^b), ![i+b] = 0], i, b+1, c)
  ELSE IF r[i] - (2^b) >= -Most THEN Greedy(Carry([r EXCEPT ![i] = @ - (2^b)], i+b), i, b+1, c + Ones(r,i+b))
  ELSE <<r,c>>
Naf(r,i) ==
  LET w    == {j \in 0..(Reach-1) : i + j <= N}
      low  == [r EXCEPT ![i] = 0]
      RECURSIVE Sum(_)
      Sum(j) == IF j \notin w THEN 0 ELSE r[i+j] * (2^j) + Sum(j+1)
      v    == Sum(0)
      rest == [k \in 1..N |-> IF k > i /\ (k-i) \in w THEN 0 ELSE r[k]]
  IN IF v <= Most THEN <<[rest EXCEPT ![i] = v], 0>>
     ELSE <<Carry([rest EXCEPT ![i] = v - (2^Reach)], i + Reach), 1 + Ones(rest, i + Reach)>>

Init == /\ wnNum \in 0..((2^Width) - 1) /\ wnWay \in {"greedy", "naf"}
        /\ wnAt = 1 /\ wnDigits = [i \in 1..N |-> IF i <= Width THEN BitOf(wnNum,i-1) ELSE 0] /\ wnSeen = <<>>
Skip == wnAt <= N /\ wnDigits[wnAt] = 0 /\ wnAt' = wnAt + 1 /\ UNCHANGED <<wnNum,wnWay,wnDigits,wnSeen>>
Take == /\ wnAt <= N /\ wnDigits[wnAt] # 0
        /\ LET x == IF wnWay = "greedy" THEN Greedy(wnDigits,wnAt,1,0) ELSE Naf(wnDigits,wnAt)
           IN wnDigits' = x[1] /\ wnSeen' = Append(wnSeen, <<wnAt, x[1][wnAt], x[2]>>)
        /\ wnAt' = wnAt + 1 /\ UNCHANGED <<wnNum,wnWay>>
Next == Skip \/ Take
Spec == Init /\ [][Next]_wnVars

Kept == Value(wnDigits,1) = wnNum
Digits == /\ \A i \in 1..(wnAt-1) : wnDigits[i] = 0 \/ (wnDigits[i] % 2 = 1 /\ wnDigits[i] \in (-Most)..Most)
          /\ \A i \in wnAt..N : wnDigits[i] \in {0,1}
\* a window that was taken leaves zeros above it
Apart == \A j \in 1..Len(wnSeen) : \A k \in 1..Len(wnSeen) :
           k = j + 1 => wnSeen[k][1] - wnSeen[j][1] >= (IF wnWay = "naf" THEN Reach ELSE Reach - 2)
\* all that can happen at a window happens to numbers this short, if Width >= 2 * Reach
Printed == (wnAt > N /\ wnWay = "greedy") => PrintT(<<"WINDOWS", ToJson(<<wnNum, wnSeen>>)>>)
=============================================================================
