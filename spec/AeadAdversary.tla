--------------------------- MODULE AeadAdversary ---------------------------
(***************************************************************************)
(* An authenticated cipher against an adversary who sees what is sealed    *)
(* and presents anything made from it (properties C10, C12).               *)
(*                                                                         *)
(* Symbolic: a ciphertext is the term of its key, nonce and message, a tag *)
(* the term of its key, nonce, data and ciphertext.  Honest parties seal   *)
(* every message under every key, nonce and data.  The adversary presents  *)
(* any combination of key, nonce, data, a ciphertext and a tag it has      *)
(* seen, and may alter ciphertext, tag and data: flip a bit, drop or add   *)
(* a byte, move a byte between data and ciphertext.                        *)
(* Messages are numbers: 0 is the empty one.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Keys == 1..2
Nonces == 1..2
Aads == 0..2
Msgs == 0..2

\* the ciphertext of the empty message is empty under every key
Ct(k,n,m) == IF m = 0 THEN <<"empty">> ELSE <<"ct",k,n,m>>
Tag(k,n,a,c) == <<"tag",k,n,a,c>>
\* something and how it was altered; honest parties use it as it is
Alt(x,how) == <<how,x>>
As(x) == Alt(x,"same")
MaxAltered == atoi(IOEnv.ALTERED)
CtChanges == {"same","flip","drop","add","zero"}
TagChanges == {"same","flipfirst","fliplast","drop","add","none","double"}
AadChanges == {"same","add","flip"}
\* nothing can be flipped or dropped in what is empty
CanCt(c,how) == how \in {"same","add"} \/ c # <<"empty">>
CanAad(a,how) == how \in {"same","add"} \/ a # 0

Seals == {[k |-> k, n |-> n, a |-> a, m |-> m] : k \in Keys, n \in Nonces, a \in Aads, m \in Msgs}
CtOf(s) == Ct(s.k,s.n,s.m)
TagOf(s) == Tag(s.k,s.n,As(s.a),As(CtOf(s)))

\* at most MaxAltered of data, ciphertext and tag are altered
Hows == {h \in AadChanges \X CtChanges \X TagChanges : Cardinality({x \in {1,2,3} : h[x] # "same"}) <= MaxAltered}

VARIABLES avOpen, avAnswer
avVars == <<avOpen, avAnswer>>

Accepts(o) == Alt(o.tag,o.th) = As(Tag(o.k,o.n,Alt(o.a,o.ah),Alt(o.ct,o.ch)))
Plain(o) == IF o.ct = <<"empty">> THEN 0 ELSE IF o.ct[2] = o.k /\ o.ct[3] = o.n THEN o.ct[4] ELSE 0-1

\* seals that differ in data only have the same ciphertext
CtSeals == {s \in Seals : s.a = 0 /\ (s.m = 0 => s.k = 1 /\ s.n = 1)}
\* data, ciphertext and tag may be taken from different seals
Init == /\ \E k \in Keys, n \in Nonces, a \in Aads, h \in Hows :
             avOpen = [k |-> k, n |-> n, a |-> a, ah |-> h[1], ch |-> h[2], th |-> h[3], ct |-> <<>>, tag |-> <<>>]
        /\ avAnswer = <<>>
Open(s,t) ==
  /\ avAnswer = <<>>
  /\ CanCt(CtOf(s),avOpen.ch) /\ CanAad(avOpen.a,avOpen.ah)
  /\ avOpen' = [avOpen EXCEPT !.ct = CtOf(s), !.tag = TagOf(t)]
  /\ avAnswer' = IF Accepts(avOpen') THEN <<TRUE, Plain(avOpen')>> ELSE <<FALSE>>
Next == \E s \in CtSeals, t \in Seals : Open(s,t)
Spec == Init /\ [][Next]_avVars

Opened == avAnswer # <<>>
\* only what was sealed, under exactly its key, nonce and data, is accepted, and gives its message
Authentic == (Opened /\ avAnswer[1]) =>
  /\ \E s \in Seals : s.k = avOpen.k /\ s.n = avOpen.n /\ s.a = avOpen.a /\ CtOf(s) = avOpen.ct
                      /\ TagOf(s) = avOpen.tag /\ avAnswer[2] = s.m
  /\ avOpen.ah = "same" /\ avOpen.ch = "same" /\ avOpen.th = "same"
\* whatever was sealed is accepted
Complete == \A s \in Seals : (Opened /\ avOpen = [k |-> s.k, n |-> s.n, a |-> s.a, ah |-> "same", ct |-> CtOf(s), ch |-> "same",
                                                  tag |-> TagOf(s), th |-> "same"]) => avAnswer = <<TRUE, s.m>>
Printed == Opened => PrintT(<<"OPEN", ToJson(<<avOpen, avAnswer[1]>>)>>)
=============================================================================
