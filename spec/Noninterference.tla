-------------------------- MODULE Noninterference ---------------------------
(***************************************************************************)
(* How the code under the secret-dependent operations avoids leaks, and    *)
(* what a leak looks like (property C23).                                  *)
(*                                                                         *)
(* A program is a sequence of steps; each step emits what an observer sees *)
(* of it, its position in the program and the address it accesses.  Two    *)
(* copies of a program run in lockstep on all pairs of secrets with equal  *)
(* public view (self-composition).  Written without branches on secrets:   *)
(*   compare  all bytes, differences or-ed together     (util, HMAC, AEAD) *)
(*   select   every table entry is read, one is kept by mask    (Ed25519)  *)
(*   ladder   conditional swap by mask                          (X25519)   *)
(*   mulbits  conditional addition by mask                      (GHASH)    *)
(* and with them: compareE stops at the first difference, lookup reads one *)
(* entry, ladderB and mulbitsB branch.  The first four must not leak; the  *)
(* others must be seen to, by a pair of secrets TLC finds.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

N == atoi(IOEnv.LENGTH)                \* bytes of a tag, bits of a scalar, entries of a table
Alphabet == 0..1
Secrets == [1..N -> Alphabet]
Index(s) == LET f[i \in 0..N] == IF i = 0 THEN 0 ELSE ((f[i-1] * 2) + s[i]) % N IN f[N]
Silent == {"compare","select","ladder","mulbits"}
Leaky == {"compareE","lookup","ladderB","mulbitsB"}
Programs == Silent \cup Leaky

VARIABLES niProg, niA, niB, niAt, niRegA, niRegB, niSeenA, niSeenB
niVars == <<niProg, niA, niB, niAt, niRegA, niRegB, niSeenA, niSeenB>>

\* compare: secrets are the differences between the presented and the right tag; view: all zero or not
Outcome(p,s) == IF p \in {"compare","compareE"} THEN \A i \in 1..N : s[i] = 0 ELSE TRUE
Init == /\ niProg \in Programs /\ niA \in Secrets /\ niB \in Secrets
        /\ Outcome(niProg,niA) = Outcome(niProg,niB)
        /\ niAt = <<1,1>> /\ niRegA = 0 /\ niRegB = 0 /\ niSeenA = <<>> /\ niSeenB = <<>>

\* one step at position i: <<new register, next position (0: the end), what is seen>>
After(i) == IF i = N THEN 0 ELSE i + 1
Mask(b) == b                            \* 0 or 1; stands for 0 or all ones
Step(p,s,reg,i) ==
  CASE p = "compare"  -> <<IF reg + s[i] > 0 THEN 1 ELSE 0, After(i), <<"load",i>>>>
    [] p = "compareE" -> IF s[i] # 0 THEN <<1, 0, <<"load",i,"exit">>>> ELSE <<0, After(i), <<"load",i>>>>
    [] p = "select"   -> <<reg + (Mask(IF Index(s) = i-1 THEN 1 ELSE 0) * i), After(i), <<"load",i>>>>
    [] p = "lookup"   -> <<Index(s) + 1, 0, <<"load",Index(s) + 1>>>>
    [] p = "ladder"   -> <<(reg * 2) + (Mask(s[i]) * 1), After(i), <<"step",i>>>>
    [] p = "ladderB"  -> IF s[i] = 1 THEN <<(reg * 2) + 1, After(i), <<"swap",i>>>> ELSE <<reg * 2, After(i), <<"step",i>>>>
    [] p = "mulbits"  -> <<reg + (Mask(s[i]) * i), After(i), <<"step",i>>>>
    [] p = "mulbitsB" -> IF s[i] = 1 THEN <<reg + i, After(i), <<"add",i>>>> ELSE <<reg, After(i), <<"step",i>>>>
Next == /\ niAt # <<0,0>>
        /\ LET a == IF niAt[1] = 0 THEN <<niRegA,0,<<>>>> ELSE Step(niProg,niA,niRegA,niAt[1])
               b == IF niAt[2] = 0 THEN <<niRegB,0,<<>>>> ELSE Step(niProg,niB,niRegB,niAt[2])
           IN /\ niAt' = <<a[2],b[2]>> /\ niRegA' = a[1] /\ niRegB' = b[1]
              /\ niSeenA' = (IF niAt[1] = 0 THEN niSeenA ELSE Append(niSeenA,a[3]))
              /\ niSeenB' = (IF niAt[2] = 0 THEN niSeenB ELSE Append(niSeenB,b[3]))
        /\ UNCHANGED <<niProg,niA,niB>>
Spec == Init /\ [][Next]_niVars

Ended == niAt = <<0,0>>
NoLeak == niProg \in Silent => niSeenA = niSeenB
\* the same results with and without branches
Value(p,s) ==
  CASE p \in {"compare","compareE"} -> IF \A i \in 1..N : s[i] = 0 THEN 0 ELSE 1
    [] p \in {"select","lookup"} -> Index(s) + 1
    [] p \in {"ladder","ladderB"} -> LET f[i \in 0..N] == IF i = 0 THEN 0 ELSE (2 * f[i-1]) + s[i] IN f[N]
    [] p \in {"mulbits","mulbitsB"} -> LET f[i \in 0..N] == IF i = 0 THEN 0 ELSE f[i-1] + (s[i] * i) IN f[N]
Right == Ended => niRegA = Value(niProg,niA) /\ niRegB = Value(niProg,niB)
\* pairs that tell a leaky program from a silent one, for replay on the real code
Printed == (Ended /\ niProg \in Leaky /\ niSeenA # niSeenB) => PrintT(<<"PAIR", ToJson(<<niProg, niA, niB>>)>>)
=============================================================================
