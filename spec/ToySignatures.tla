--------------------------- MODULE ToySignatures ---------------------------
(***************************************************************************)
(* Ed25519 verification over small curves: its verdict in every relation   *)
(* of the signature to the key (C15, C16, C17).                            *)
(*                                                                         *)
(* The key is A = aB + tT and R = rB + uT, where T generates the eight     *)
(* torsion points; the challenge k is chosen (the last byte of the         *)
(* message); S is the right scalar r + ka, one more, that plus the group   *)
(* order, or anything else.  Verification must say yes exactly if S is     *)
(* right and reduced and the torsion parts cancel; where only they do not, *)
(* RFC 8032 leaves the answer open.                                        *)
(***************************************************************************)
EXTENDS ToyField

\* replaces HashModL: the message's last byte
ToyChallenge(m) == NatMod(<<m[Len(m)]>>, ToyL)

Tor == CHOOSE P \in EdPoints : AffMul(8,P) = <<0,1>> /\ AffMul(4,P) # <<0,1>>
Mult(n,t) == AffAdd(AffMul(n,<<bx,by>>), AffMul(t,Tor))
Scal == IF ell <= 7 THEN 0..(ell-1) ELSE {0, 1, 2, ell \div 2, ell-1}

VARIABLES tsCase, tsAnswer
tsVars == <<tsCase, tsAnswer>>

Init == /\ \E a \in Scal, t \in 0..7, r \in Scal, u \in 0..7, k \in 0..(ell-1), ds \in {0, 1, ell} :
             tsCase = [a |-> a, t |-> t, r |-> r, u |-> u, k |-> k, ds |-> ds]
        /\ tsAnswer = "unknown"

Right(c) == (c.r + (c.k * c.a)) % ell
Predicted(c) == IF Right(c) + c.ds >= ell THEN "no"
                ELSE IF c.ds # 0 THEN "no"
                ELSE IF (c.u + (c.k * c.t)) % 8 = 0 THEN "yes" ELSE "either"
Enc(P) == PEncode(Ext(P,1))
Answer(c) == EdVerify(<<c.k>>, Enc(Mult(c.r,c.u)) \o PadTo(IntLE(Right(c) + c.ds,4),32), Enc(Mult(c.a,c.t)))
Next == tsAnswer = "unknown" /\ tsAnswer' = Answer(tsCase) /\ UNCHANGED tsCase
Spec == Init /\ [][Next]_tsVars

\* ds = 1 wraps to 0 when the right scalar is ell - 1: then it is not below the order, "no" as well
Verdict == tsAnswer # "unknown" => tsAnswer = Predicted(tsCase)
\* what signing makes is accepted, and its scalar is reduced
Honest == (tsAnswer # "unknown" /\ tsCase.t = 0 /\ tsCase.u = 0 /\ tsCase.ds = 0) =>
  LET pk == PEncode(PMul(F(tsCase.a),BaseP))
      s == EdSignWith(F(tsCase.a), pk, F(tsCase.r), <<tsCase.k>>)
  IN EdVerify(<<tsCase.k>>, s, pk) = "yes" /\ NatLt(Drop(s,32), L25519)
=============================================================================
