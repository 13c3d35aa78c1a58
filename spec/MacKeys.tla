------------------------------ MODULE MacKeys ------------------------------
(***************************************************************************)
(* How HMAC keys a hash function, against RFC 2104, over toy hash          *)
(* functions of several digest and block sizes (properties C03, C22).      *)
(*                                                                         *)
(* Lower level: two hashers; each absorbs the key byte by byte, masked,    *)
(* and then the mask alone up to a block; a key longer than a block is     *)
(* replaced by its digest; the inner one absorbs the message, the outer    *)
(* one the inner digest.  Every key length up to twice the block and a few *)
(* more and every message length up to a block and one is explored.        *)
(***************************************************************************)
EXTENDS Mac, Json, IOUtils

Shapes == ndJsonDeserialize(IOEnv.SHAPES)         \* <<digest size, block size>>

VARIABLES mkShape, mkKey, mkMsg, mkIn, mkOut, mkStep, mkTag
mkVars == <<mkShape, mkKey, mkMsg, mkIn, mkOut, mkStep, mkTag>>

KeyByte(i) == (i * 37 + 11) % 256
MsgByte(i) == (i * 91 + 200) % 256
Th == Toy(Shapes[mkShape][1], Shapes[mkShape][2])

Init == /\ mkShape \in 1..Len(Shapes)
        /\ \E k \in 0..((2 * Shapes[mkShape][2]) + 2) : mkKey = [i \in 1..k |-> KeyByte(i)]
        /\ \E n \in 0..(Shapes[mkShape][2] + 1) : mkMsg = [i \in 1..n |-> MsgByte(i)]
        /\ mkIn = <<>> /\ mkOut = <<>> /\ mkStep = "key" /\ mkTag = <<>>

Used == IF Len(mkKey) > Th.b THEN H(Th,mkKey) ELSE mkKey
Masked(m) == [i \in 1..Th.b |-> IF i <= Len(Used) THEN Used[i] ^^ m ELSE m]
KeyIn == mkStep = "key" /\ mkStep' = "msg" /\ mkIn' = Masked(54) /\ mkOut' = Masked(92) /\ UNCHANGED <<mkShape,mkKey,mkMsg,mkTag>>
Absorb == mkStep = "msg" /\ mkStep' = "fin" /\ mkIn' = mkIn \o mkMsg /\ UNCHANGED <<mkShape,mkKey,mkMsg,mkOut,mkTag>>
Fin == mkStep = "fin" /\ mkStep' = "done" /\ mkTag' = H(Th, mkOut \o H(Th,mkIn)) /\ UNCHANGED <<mkShape,mkKey,mkMsg,mkIn,mkOut>>
Next == KeyIn \/ Absorb \/ Fin
Spec == Init /\ [][Next]_mkVars

Rfc2104 == mkStep = "done" => mkTag = Hmac(Th, mkKey, mkMsg)
Lengths == mkStep = "done" => Len(mkTag) = Th.d
\* keys are equivalent exactly up to padding and prehashing
Printed == mkStep = "done" => PrintT(<<"MAC", ToJson(<<Shapes[mkShape][1], Shapes[mkShape][2], Len(mkKey), Len(mkMsg)>>)>>)
=============================================================================
