-------------------------------- MODULE Kat ---------------------------------
(***************************************************************************)
(* Published test vectors of the standards, evaluated on the specification *)
(* itself (no code of the library is involved).                            *)
(***************************************************************************)
EXTENDS Mac, ChaCha, Gcm, Curve

Abc == <<97,98,99>>
ChkSha ==
  /\ ConstantsDerived
  /\ Hash("sha256",Abc) = Hex("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")
  /\ Hash("sha224",Abc) = Hex("23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7")
  /\ Hash("sha512",Abc) = Hex("ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f")
  /\ Hash("sha384",Abc) = Hex("cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7")
  /\ Hash("sha256",<<>>) = Hex("e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")
\* RFC 4231 case 2, RFC 5869 case 1
ChkMac ==
  /\ Hmac(Sha("sha256"), Hex("4a656665"), Hex("7768617420646f2079612077616e7420666f72206e6f7468696e673f"))
       = Hex("5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843")
  /\ Expand(Sha("sha256"), Extract(Sha("sha256"), Hex("000102030405060708090a0b0c"), Fill(22,11)),
              Hex("f0f1f2f3f4f5f6f7f8f9"), 42)
       = Hex("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865")
\* FIPS 197 appendix C
FipsBlock == Hex("00112233445566778899aabbccddeeff")
FipsKey(n) == [i \in 1..n |-> i-1]
ChkAes ==
  /\ AesBlock(FipsKey(16),FipsBlock) = Hex("69c4e0d86a7b0430d8cdb78070b4c55a")
  /\ AesBlock(FipsKey(24),FipsBlock) = Hex("dda97ca4864cdfe06eaf70a0ec0d7191")
  /\ AesBlock(FipsKey(32),FipsBlock) = Hex("8ea2b7ca516745bfeafc49904b496089")
\* GCM specification, test cases 2 and 4
ChkGcm ==
  /\ GcmSeal("aes128", Zeros(16), Zeros(12), <<>>, Zeros(16))
       = [ct |-> Hex("0388dace60b6a392f328c2b971b2fe78"), tag |-> Hex("ab6e47d42cec13bdf53a67b21257bddf")]
  /\ GcmSeal("aes128", Hex("feffe9928665731c6d6a8f9467308308"), Hex("cafebabefacedbaddecaf888"),
               Hex("feedfacedeadbeeffeedfacedeadbeefabaddad2"),
               Hex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39"))
       = [ct |-> Hex("42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa051ba30b396a0aac973d58e091"),
          tag |-> Hex("5bc94fbc3221a5db94fae95ae7121a47")]
\* RFC 8439 sections 2.3.2, 2.5.2, 2.8.2
ChkChaCha ==
  /\ ChaChaBlock(FipsKey(32), <<1,0,0,0>>, Hex("000000090000004a00000000"))
      = Hex("10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e")
  /\ Poly1305(Hex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b"),
                Hex("43727970746f6772617068696320466f72756d2052657365617263682047726f7570"))
      = Hex("a8061dc1305136c6c22b8baf0c0127a9")
  /\ LET pt == Hex("4c616469657320616e642047656e746c656d656e206f662074686520636c617373206f66202739393a204966204920636f756c64206f6666657220796f75206f6e6c79206f6e652074697020666f7220746865206675747572652c2073756e73637265656e20776f756c642062652069742e")
         s == CpSeal([i \in 1..32 |-> 127+i], Hex("070000004041424344454647"), Hex("50515253c0c1c2c3c4c5c6c7"), pt)
     IN s.tag = Hex("1ae10b594f09e26a7e902ecbd0600691") /\ Take(s.ct,8) = Hex("d31a8d34648e60db")
\* RFC 7748 section 5.2, RFC 8032 section 7.1 test 2
ChkX25519 ==
  /\ X25519(Hex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"),
              Hex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c"))
      = Hex("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")
ChkEd25519 ==
  /\ LET sk == Hex("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb")
         pk == Hex("3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c")
         sg == Hex("92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00")
     IN /\ EdPublic(sk) = pk
        /\ EdSign(sk,<<114>>) = sg
        /\ EdVerify(<<114>>,sg,pk) = "yes"
        /\ EdVerify(<<115>>,sg,pk) = "no"
  /\ PEncode(BaseP) = BaseY
  /\ CurveConstantsDerived
  /\ PEq(PMul(L25519, BaseP), PId)
  /\ FMul(SqrtM1,SqrtM1) = FNeg(FOne)

Checks == <<"sha","mac","aes","gcm","chacha","curve25519","ed25519">>
ResultOf(name) == CASE name = "sha" -> ChkSha [] name = "mac" -> ChkMac [] name = "aes" -> ChkAes
            [] name = "gcm" -> ChkGcm [] name = "chacha" -> ChkChaCha [] name = "curve25519" -> ChkX25519
            [] name = "ed25519" -> ChkEd25519
\* (a state variable must not share its name with a bound identifier of the modules above: TLC then
\* stops caching local definitions)
VARIABLES katName, katResult
Init == katName \in Range(Checks) /\ katResult = "?"
Next == /\ katResult = "?" /\ katName' = katName
        /\ katResult' = (IF ResultOf(katName) THEN "yes" ELSE "no")
Spec == Init /\ [][Next]_<<katName,katResult>>
Published == katResult # "no"
=============================================================================
