------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* How calls are written in files: JSON objects with the operation's name  *)
(* and arguments.  Byte strings are ["hex"], or ["hex",n] for the first n  *)
(* bytes of the endless repetition of hex.                                 *)
(***************************************************************************)
EXTENDS CryptoPure, Json

Data(d) == IF Len(d) = 1 THEN Hex(d[1]) ELSE Cyc(Hex(d[1]), d[2])
ByteFields == {"d","key","nonce","aad","tag","salt","ikm","info","prk","sk","pk","sig","x","y","by","tail","len"}
DecodeCall(e) == Force([f \in DOMAIN e |-> IF f \in ByteFields THEN Data(e[f]) ELSE e[f]])

\* recorded calls have a reply as well
BoolOps == {"hmac_verify","ed_verify","ed_vlong","v16"}

Reply(op,r) ==
  IF r.t # "ok" THEN [t |-> r.t, v |-> <<>>]
  ELSE Ok(CASE op \in BoolOps -> r.v
            [] op \in {"hash_sizes","law","gcm_probe","aead_long"} -> r.v
            [] op = "aead_fix" -> <<r.v[1], Data(r.v[2]), Data(r.v[3]), r.v[4]>>
            [] op = "aead_seal" -> <<Data(r.v[1]), Data(r.v[2])>>
            [] op \in {"aead_open","aead_rep"} -> <<r.v[1], Data(r.v[2])>>
            [] OTHER -> Data(r.v))
Decode(e) == [DecodeCall(e) EXCEPT !.r = Reply(e.op, e.r)]
=============================================================================
