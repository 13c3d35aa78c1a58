------------------------------ MODULE Domains ------------------------------
(***************************************************************************)
(* Argument lengths: which calls are refused (property C19).               *)
(*                                                                         *)
(* For every operation, every combination of the interesting lengths of    *)
(* its arguments.  Documented says in terms of lengths when the library's  *)
(* documentation lets a call through; CryptoPure must refuse exactly the   *)
(* others.  Every combination is printed and replayed.                     *)
(***************************************************************************)
EXTENDS CryptoPure, Json, IOUtils

Few == {0, 1, 15, 16, 17, 33}
KeyLens == {0, 1, 15, 16, 17, 23, 24, 25, 31, 32, 33, 64}
NonceLens == {0, 8, 11, 12, 13, 16, 24}
PointLens == {0, 1, 31, 32, 33, 64}
DigestLens == {0, 1, 27, 28, 29, 31, 32, 33, 47, 48, 49, 63, 64, 65, 128}
ToyHashes == {Toy(1,1), Toy(2,3), Toy(20,64)}
Hashes == {Sha("sha224"), Sha("sha256"), Sha("sha384"), Sha("sha512")} \cup ToyHashes
Near(h) == {0, 1, h.d - 1, h.d, h.d + 1, 2 * h.d}
Okm(h) == {0, 1, h.d - 1, h.d, h.d + 1, (254 * h.d) + 1, (255 * h.d) - 1, 255 * h.d, (255 * h.d) + 1, 256 * h.d, (256 * h.d) + 1}
Ciphers == {"gcm-aes128","gcm-aes192","gcm-aes256","chachapoly"}
GoodKey(alg) == IF alg = "chachapoly" THEN 32 ELSE AesKeyLen(GcmCipher(alg))

\* cases: <<operation, algorithm, lengths...>>
Cases ==
  {<<"hash_fin",h,n>> : h \in Hashes, n \in DigestLens} \cup {<<"hkdf_ext",h,n>> : h \in Hashes, n \in DigestLens}
  \cup UNION {{<<"hkdf_exp",h,k,n>> : k \in Near(h), n \in Okm(h)} : h \in Hashes}
  \cup {<<"hmac_verify",h,k,n>> : h \in Hashes, k \in {0, 1, 64, 65, 128, 129}, n \in DigestLens}
  \cup {<<"blk_new",a,k>> : a \in AesAlgs, k \in KeyLens} \cup {<<"aead_new",a,k>> : a \in Ciphers, k \in KeyLens}
  \cup {<<"st_new","",k,n>> : k \in KeyLens, n \in NonceLens}
  \cup {<<op,"",m,n>> : op \in {"st_enc","st_dec"}, m \in Few, n \in Few}
  \cup {<<"aead_seal",a,m,n,o>> : a \in Ciphers, m \in Few, n \in NonceLens, o \in Few}
  \cup {<<"aead_open",a,m,n,o,t>> : a \in Ciphers, m \in Few, n \in NonceLens, o \in Few, t \in {0, 15, 16, 17}}
  \cup {<<op,"",k>> : op \in {"x_pk","ed_pk"}, k \in PointLens}
  \cup {<<"x_dh","",k,n>> : k \in PointLens, n \in PointLens} \cup {<<"ed_sign","",k,m>> : k \in PointLens, m \in Few}
  \cup {<<"ed_verify","",k,n>> : k \in PointLens, n \in PointLens \cup {63,65,96,128}} \cup {<<"v16","",n>> : n \in Few \cup {32,256,272}}

Documented(c) ==
  CASE c[1] = "hash_fin" -> c[3] = c[2].d
    [] c[1] = "hkdf_ext" -> c[3] = c[2].d
    [] c[1] = "hkdf_exp" -> c[3] >= c[2].d /\ c[4] <= 255 * c[2].d
    [] c[1] = "blk_new"  -> c[3] = (CASE c[2] = "aes128" -> 16 [] c[2] = "aes192" -> 24 [] c[2] = "aes256" -> 32)
    [] c[1] = "aead_new" -> c[3] = (CASE c[2] = "gcm-aes128" -> 16 [] c[2] = "gcm-aes192" -> 24 [] OTHER -> 32)
    [] c[1] = "st_new"   -> c[3] = 32 /\ c[4] = 12
    [] c[1] \in {"st_enc","st_dec"} -> c[3] = c[4]
    [] c[1] \in {"aead_seal","aead_open"} -> c[4] = 12 /\ c[3] = c[5]
    [] c[1] \in {"x_pk","ed_pk","ed_sign"} -> c[3] = 32
    [] c[1] = "x_dh"     -> c[3] = 32 /\ c[4] = 32
    [] c[1] = "ed_verify" -> c[3] = 32
    [] c[1] \in {"v16","hmac_verify"} -> TRUE

Some(n) == Cyc(<<66,1,2,250>>, n)
Call1(c) ==
  CASE c[1] = "hash_fin" -> [op |-> "hash_fin", o |-> 1, n |-> c[3]]
    [] c[1] = "hkdf_ext" -> [op |-> "hkdf_ext", h |-> c[2], salt |-> <<>>, ikm |-> <<>>, n |-> c[3]]
    \* the length is what counts; the value of a long expansion is not computed here
    [] c[1] = "hkdf_exp" -> [op |-> "hkdf_exp", h |-> c[2], prk |-> Some(c[3]), info |-> <<>>, n |-> c[4]]
    [] c[1] = "hmac_verify" -> [op |-> "hmac_verify", h |-> c[2], key |-> Some(c[3]), d |-> <<>>, tag |-> Some(c[4])]
    [] c[1] \in {"blk_new","aead_new"} -> [op |-> c[1], o |-> 2, alg |-> c[2], key |-> Some(c[3])]
    [] c[1] = "st_new"   -> [op |-> "st_new", o |-> 2, key |-> Some(c[3]), nonce |-> Some(c[4])]
    [] c[1] \in {"st_enc","st_dec"} -> [op |-> c[1], o |-> 1, d |-> Some(c[3]), n |-> c[4]]
    [] c[1] = "aead_seal" -> [op |-> "aead_seal", o |-> 1, d |-> Some(c[3]), nonce |-> Some(c[4]), aad |-> <<>>, n |-> c[5]]
    [] c[1] = "aead_open" -> [op |-> "aead_open", o |-> 1, d |-> Some(c[3]), nonce |-> Some(c[4]), aad |-> <<>>, n |-> c[5], tag |-> Some(c[6]), fill |-> 3]
    [] c[1] \in {"x_pk","ed_pk"} -> [op |-> c[1], sk |-> Some(c[3])]
    [] c[1] = "x_dh"     -> [op |-> "x_dh", sk |-> Some(c[3]), pk |-> Some(c[4])]
    [] c[1] = "ed_sign"  -> [op |-> "ed_sign", sk |-> Some(c[3]), d |-> Some(c[4])]
    [] c[1] = "ed_verify" -> [op |-> "ed_verify", pk |-> Some(c[3]), d |-> <<>>, sig |-> Some(c[4])]
    [] c[1] = "v16"      -> [op |-> "v16", x |-> Some(16), y |-> Some(c[3])]
\* the object the call is made on
Given(c) ==
  CASE c[1] = "hash_fin" -> 1 :> [k |-> "hash", h |-> c[2], msg |-> <<>>]
    [] c[1] \in {"st_enc","st_dec"} -> 1 :> [k |-> "stream", key |-> Zeros(32), nonce |-> Zeros(12), pos |-> Pos0]
    [] c[1] \in {"aead_seal","aead_open"} -> 1 :> [k |-> "aead", alg |-> c[2], key |-> Zeros(GoodKey(c[2]))]
    [] OTHER -> NoHeap

VARIABLES dmCase, dmReply
dmVars == <<heap, dmCase, dmReply>>
Init == dmCase \in Cases /\ heap = Given(dmCase) /\ dmReply = "none"
\* all replies are refusals, or none is
Kind(R) == IF \A r \in R : r = Panic THEN "panic" ELSE IF Panic \notin R THEN "ok" ELSE "either"
Next == \E e \in {Call1(dmCase)} : /\ dmReply = "none" /\ dmReply' = Kind(Replies(e,heap))
                                   /\ heap' = Effect(e,heap) /\ UNCHANGED dmCase
Spec == Init /\ [][Next]_dmVars
Refuses == dmReply # "none" => (dmReply = "ok") = Documented(dmCase) /\ dmReply # "either"
\* a refused call makes no object and moves no stream
Refused == dmReply = "panic" => IF dmCase[1] = "hash_fin" THEN heap[1] = Dead ELSE heap = Given(dmCase)
Printed == dmReply # "none" => PrintT(<<"CALL", ToJson(<<dmCase, dmReply>>)>>)
=============================================================================
