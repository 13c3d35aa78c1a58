------------------------------ MODULE ToyCurves ------------------------------
(***************************************************************************)
(* Module Curve over small primes: every case is examined (C13, C14, C15). *)
(*                                                                         *)
(* ladder:  the Montgomery ladder is multiplication on the curve or twist  *)
(* agree:   Diffie-Hellman commutes, on any starting value                 *)
(* add:     extended addition is the affine group law, for any scaling     *)
(* mul:     scalar multiplication is repeated addition                     *)
(* enc:     decoding accepts exactly the canonical encodings of points     *)
(* map:     both forms of the curve give the same multiples (if they match)*)
(***************************************************************************)
EXTENDS ToyField

What == IOEnv.WHAT
Scalars == 0..((2 * p) + 30)
\* secret scalars as RFC 7748 makes them
ClampedOf(i) == Clamp(PadTo(IntLE(i * 8, 4), 32))

VARIABLES tcCase, tcGood
tcVars == <<tcCase, tcGood>>

Cases ==
  CASE What = "ladder" -> Scalars \X (0..(p-1))
    [] What = "agree"  -> {c \in (0..12) \X (0..12) \X (0..(p-1)) : c[1] < c[2]}
    [] What = "add"    -> EdPoints \X EdPoints
    [] What = "mul"    -> (0..((8 * ell) + 2)) \X EdPoints
    [] What = "enc"    -> (0..(p + (p \div 2))) \X {0,1}
    [] What = "map"    -> 1..(8 * ell)

Examine(c) ==
  CASE What = "ladder" -> Ladder(PadTo(IntLE(c[1],4),32), F(c[2])) = F(MonMul(c[1], c[2]))
    [] What = "agree"  -> LET a == ClampedOf(c[1])  b == ClampedOf(c[2])  u == F(c[3])
                          IN X25519(a, X25519(b,u)) = X25519(b, X25519(a,u))
    [] What = "add"    -> LET z1 == 1 + (c[1][1] % (p-1))  z2 == 1 + ((c[2][2] * 7) % (p-1))
                              s == PAdd(Ext(c[1],z1), Ext(c[2],z2))
                          IN /\ WellFormed(s) /\ Aff(s) = AffAdd(c[1],c[2])
                             /\ PEq(Ext(c[1],z1), Ext(c[2],z2)) = (c[1] = c[2])
                             /\ Aff(PAdd(s, PNeg(Ext(c[2],z2)))) = c[1]
    [] What = "mul"    -> Aff(PMul(PadTo(IntLE(c[1],4),4), Ext(c[2],1))) = AffMul(c[1],c[2])
    [] What = "enc"    -> LET e == [F(c[1]) EXCEPT ![32] = 128 * c[2]]
                              pt == PDecode(e)
                              here == {P \in EdPoints : P[2] = c[1] /\ P[1] % 2 = c[2]}
                          IN IF here = {} THEN pt = NoPoint
                             ELSE /\ pt # NoPoint /\ WellFormed(pt) /\ here = {Aff(pt)}
                                  /\ PEncode(pt) = e
                                  /\ \A z \in {1,2,p-1} : PEncode(Ext(Aff(pt),z)) = e
    \* u = (1+y)/(1-y) takes the Edwards curve to the Montgomery curve
    [] What = "map"    -> LET P == AffMul(c,<<bx,by>>)
                              U(Q) == IF Q[2] = 1 THEN 0 ELSE Mod(Mod(1 + Q[2]) * Inv(Mod(1 - Q[2])))
                          IN Ladder(PadTo(IntLE(c,4),32), F(U(<<bx,by>>))) = F(U(P))

Init == tcCase \in Cases /\ tcGood = "unknown"
Next == tcGood = "unknown" /\ tcGood' = (IF Examine(tcCase) THEN "yes" ELSE "no") /\ UNCHANGED tcCase
Spec == Init /\ [][Next]_tcVars
Holds == tcGood # "no"
=============================================================================
