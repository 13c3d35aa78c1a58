------------------------------ MODULE ToyField ------------------------------
(***************************************************************************)
(* The operators of module Curve over small primes, by replacing its       *)
(* constants (see the configuration files): P25519 by ToyP, EdD by ToyD,   *)
(* SqrtM1, L25519 and BaseP.  The text of Curve itself is what is checked, *)
(* against the textbook affine group laws on small integers.               *)
(***************************************************************************)
EXTENDS Curve, Json, IOUtils

p == atoi(IOEnv.PRIME)
dd == atoi(IOEnv.EDD)
ell == atoi(IOEnv.ELL)                       \* group order is 8 ell
bx == atoi(IOEnv.BX)
by == atoi(IOEnv.BY)

ToyP == F(p)
ToyD == F(dd)
ToyL == F(ell)
Mod(x) == x % p
Inv(x) == CHOOSE y \in 0..(p-1) : Mod(x * y) = 1
Squares == {Mod(x * x) : x \in 0..(p-1)}
ToyI == F(CHOOSE x \in 0..(p-1) : Mod((x * x) + 1) = 0)
ToyB == <<F(bx), F(by), FOne, F(Mod(bx * by))>>
Int2(s) == ToInt(Take(s,2))                  \* value of a reduced element
IsSmall(s) == \A i \in 3..32 : s[i] = 0

ASSUME p % 8 = 5 /\ dd \notin Squares

-----------------------------------------------------------------------------
(* affine law of -x^2 + y^2 = 1 + d x^2 y^2 *)
AffAdd(P,Q) == LET t == Mod(Mod(Mod(dd * P[1]) * Q[1]) * Mod(P[2] * Q[2]))
               IN <<Mod(Mod((P[1] * Q[2]) + (Q[1] * P[2])) * Inv(Mod(1 + t))),
                    Mod(Mod((P[2] * Q[2]) + (P[1] * Q[1])) * Inv(Mod(1 - t)))>>
OnEd(x,y) == Mod((Mod(y * y) - Mod(x * x)) - 1) = Mod(dd * Mod(Mod(x * x) * Mod(y * y)))
EdPoints == {P \in (0..(p-1)) \X (0..(p-1)) : OnEd(P[1],P[2])}
AffMul(n,P) == FoldLeft(LAMBDA acc,i : AffAdd(acc,P), <<0,1>>, UpTo(n))
\* extended coordinates scaled by z
Ext(P,z) == <<F(Mod(P[1] * z)), F(Mod(P[2] * z)), F(z), F(Mod(Mod(P[1] * P[2]) * z))>>
Aff(e) == LET zi == Inv(Int2(e[3])) IN <<Mod(Int2(e[1]) * zi), Mod(Int2(e[2]) * zi)>>
WellFormed(e) == /\ \A i \in 1..4 : IsSmall(e[i])
                 /\ Int2(e[3]) # 0 /\ Mod(Int2(e[1]) * Int2(e[2])) = Mod(Int2(e[3]) * Int2(e[4]))

-----------------------------------------------------------------------------
(* affine law of b y^2 = x^3 + A x^2 + x; the point at infinity is <<>> *)
ma == 486662 % p
Rhs(x) == Mod(Mod(Mod(x * x) * x) + Mod(ma * Mod(x * x)) + x)
NonSquare == CHOOSE x \in 1..(p-1) : x \notin Squares
\* the curve (b = 1) or its twist has a point with this x
TwistOf(x) == IF Rhs(x) \in Squares THEN 1 ELSE NonSquare
Lift(x) == LET b == TwistOf(x) IN <<x, CHOOSE y \in 0..(p-1) : Mod(b * Mod(y * y)) = Rhs(x)>>
MonAdd(b,P,Q) ==
  IF P = <<>> THEN Q ELSE IF Q = <<>> THEN P
  ELSE IF P[1] = Q[1] /\ Mod(P[2] + Q[2]) = 0 THEN <<>>
  ELSE LET lam == IF P = Q THEN Mod(Mod((3 * Mod(P[1] * P[1])) + Mod(2 * Mod(ma * P[1])) + 1) * Inv(Mod(2 * Mod(b * P[2]))))
                  ELSE Mod(Mod(Q[2] - P[2]) * Inv(Mod(Q[1] - P[1])))
           x3 == Mod(((Mod(b * Mod(lam * lam)) - ma) - P[1]) - Q[1])
       IN <<x3, Mod(Mod(lam * Mod(P[1] - x3)) - P[2])>>
\* x-coordinate of [n] of a point with coordinate x, 0 for infinity
MonMul(n,x) == LET b == TwistOf(x)  P == Lift(x)
                   R == FoldLeft(LAMBDA acc,i : MonAdd(b,acc,P), <<>>, UpTo(n))
               IN IF R = <<>> THEN 0 ELSE R[1]
=============================================================================
