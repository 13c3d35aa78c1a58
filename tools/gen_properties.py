#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long JSON lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "SHA-2 digests are the FIPS 180-4 digests of every message",
  "For every message of every length the library accepts, SHA-224, SHA-256, SHA-384 and SHA-512 output exactly the digest FIPS 180-4 defines for that message, both through the one-shot functions and through an incremental hasher. Digest and block sizes advertised by each hash type are those of the standard.",
  ["inputs"], "all messages (in particular every length residue modulo the block size, and lengths whose bit count exceeds 32 bits)",
  "The tests hash about ten fixed messages; the padding branches, the length field and most length residues are never reached.",
  ["src/sha2.rs"],
  [("compression function, message schedule, round constants", "src/sha2.rs impl_processor!::process"),
   ("padding and 64-bit length field", "src/sha2.rs impl_processor!::pad"),
   ("digest truncation and initial values", "src/sha2.rs impl_function!, SHA512/SHA384/SHA256/SHA224")],
  [("buffer/offset", "bytes of the current partial block", "src/sha2.rs Processor512, Processor256"),
   ("len", "bytes absorbed so far", "src/sha2.rs Processor512, Processor256")],
  ["sha2::sha224/sha256/sha384/sha512", "HashFunction::write_digest"])
p("C02", "Incremental hashing and MACing depend only on the concatenation",
  "However a message is split into update calls (any number of pieces, of any sizes, including empty ones), an incremental hasher or MAC produces the same result as for the whole message given at once, the one its standard defines. Interleaving updates of several live hashers or MACs never changes any of their results.",
  ["histories", "inputs"], "all histories of updates on any number of live objects, i.e. every (bytes already buffered, piece length) pair",
  "The tests split messages only into 4-byte words or single pieces, so almost all (offset, piece length) pairs and all interleavings are unexplored.",
  ["src/sha2.rs", "src/hmac.rs"],
  [("three-way update: fill partial block, process full blocks, keep the rest", "src/sha2.rs impl_processor!::update"),
   ("delegation of update to the inner hash", "src/hmac.rs Hmac::update")],
  [("buffer/offset", "bytes of the current partial block", "src/sha2.rs Processor512, Processor256")],
  ["HashFunction::update/write_digest", "Hmac::update/tag"])
p("C03", "HMAC tags are the RFC 2104 tags for every key and message",
  "For every key length (empty, shorter than, equal to and longer than the hash block) and every message, the HMAC tag for each of the four SHA-2 hashes is the one RFC 2104 defines. The one-shot functions and the incremental object agree, and the tag has the hash's digest length.",
  ["inputs"], "all keys of all lengths and all messages, for all four hash functions",
  "The tests use the RFC 4231 vectors: five key lengths (4, 20, 25, 131), never a key of exactly the block size or one byte around it.",
  ["src/hmac.rs", "src/sha2.rs"],
  [("key hashing when longer than a block, zero extension otherwise", "src/hmac.rs Hmac::new"),
   ("inner/outer pads", "src/hmac.rs keyed_hash_function"), ("nested digest", "src/hmac.rs write_tag")],
  [("inner/outer hash", "hash states keyed with ipad/opad", "src/hmac.rs Hmac")],
  ["hmac::hmac_sha224/256/384/512", "Hmac::tag"])
p("C04", "HMAC verification accepts exactly the correct tag",
  "HMAC verification returns true if and only if the presented tag equals, in length and in every bit, the HMAC tag of the message under the key. Any single-bit change, truncation, extension, or a tag of another message, key or hash is rejected, without panicking.",
  ["inputs", "fault_sequences"], "all keys, messages and presented tags, in particular every bit position and every length of the presented tag",
  "The tests only check that the right tag is accepted (the source has a TODO for bad tags).",
  ["src/hmac.rs", "src/util.rs"],
  [("length check then accumulated difference", "src/hmac.rs verify"), ("bytewise OR of differences", "src/util.rs verify_inner")],
  (), ["hmac::verify"])
p("C05", "HKDF output is the RFC 5869 output up to its full range",
  "For every salt, input keying material, info and pseudorandom key, extraction and expansion give exactly the RFC 5869 result for each of the four hashes, for every output length from 0 up to and including 255 times the digest size. A shorter output is always a prefix of a longer one.",
  ["inputs"], "all salts, keys, infos and all output lengths 0..255*digest size",
  "The tests run three RFC vectors with SHA-256 and outputs of at most three blocks; exact multiples of the digest size and counters above 3 are never reached.",
  ["src/hkdf.rs", "src/hmac.rs"],
  [("block loop with one-byte counter", "src/hkdf.rs expand"), ("extract as HMAC with salt key", "src/hkdf.rs extract")],
  [("counter byte", "number of the output block, 1..255", "src/hkdf.rs expand")],
  ["hkdf::extract", "hkdf::expand"])
p("C06", "AES block encryption is FIPS 197 for every key and block",
  "For every key of 16, 24 or 32 bytes and every 16-byte block, AES-128, AES-192 and AES-256 output the FIPS 197 encryption of that block. A cipher object gives the same answer for the same block however often and in whatever order it is used.",
  ["inputs"], "all keys and blocks of the three key sizes",
  "The tests encrypt one block per key size and expand one 256-bit key.",
  ["src/aes.rs"],
  [("key schedule", "src/aes.rs impl_cipher!::key_expansion"), ("rounds", "src/aes.rs permute, shift_rows, mix_columns"),
   ("computed S-box", "src/aes.rs s_box, g256_*, g16_*, g4_*")],
  [("round keys", "expanded key", "src/aes.rs Aes128/192/256.0")], ["aes::BlockCipher::permute"])
p("C07", "ChaCha20 keystream bytes are the RFC 8439 keystream at every position",
  "For every key and nonce, the n-th byte of a ChaCha20 stream is the n-th byte of the RFC 8439 keystream with the block counter starting at 0, for every position within the documented 256 GB range. Encrypting or decrypting is the exclusive-or of the data with that keystream.",
  ["inputs"], "all keys, nonces and stream positions, in particular across every 64-byte boundary and for block counters needing 1, 2, 3 bytes",
  "The tests check two blocks and one 114-byte message; counters above 2 are never reached.",
  ["src/chacha20.rs"],
  [("block function", "src/chacha20.rs ChaCha20::block, transform_state, quarter_round"), ("refill at block end", "src/chacha20.rs Iterator for Stream")],
  [("counter", "block number of the buffered block", "src/chacha20.rs Stream"), ("block_index", "next byte in the buffered block", "src/chacha20.rs Stream")],
  ["chacha20::Stream (Iterator, encrypt, decrypt)"])
p("C08", "A ChaCha20 stream advances exactly by the bytes it hands out",
  "In any history of drawing bytes, encrypting and decrypting on one stream, each operation uses the bytes of the RFC 8439 keystream that follow immediately those used by the previous operation: none is skipped, none is used twice, whatever the piece sizes (including zero). Two streams with the same key and nonce decrypt each other's output under any pair of splittings, and live streams never influence each other.",
  ["histories", "inputs"], "all histories of next/encrypt/decrypt with any piece sizes on any number of live streams",
  "The tests use each stream for a single call; no history of two operations on one stream is ever run.",
  ["src/chacha20.rs"],
  [("process consumes exactly input.len() bytes", "src/chacha20.rs Stream::process"), ("iterator position", "src/chacha20.rs Iterator::next")],
  [("counter/block_index", "abstract position = 64*counter + block_index", "src/chacha20.rs Stream")],
  ["chacha20::Stream"])
p("C09", "ChaCha20-Poly1305 sealing is RFC 8439 for every input",
  "For every 32-byte key, 12-byte nonce, associated data and plaintext of any lengths, ChaCha20-Poly1305 encryption produces exactly the ciphertext and 16-byte tag of RFC 8439. This includes data on which the underlying polynomial evaluation needs its final modular reduction and full carry propagation.",
  ["inputs"], "all keys, nonces, associated data and plaintexts, including lengths 0, non-multiples of 16 and 64, and accumulator values near the modulus",
  "The tests seal two fixed messages; empty inputs, exact multiples and the modular edge cases (probability about 2^-128 on random data) are never reached.",
  ["src/poly1305.rs", "src/chacha20.rs"],
  [("one-time key from block 0, data from block 1", "src/poly1305.rs poly_key_gen, process"),
   ("padding and length block", "src/poly1305.rs Poly1305::process, write_tag"),
   ("modular arithmetic", "src/poly1305.rs PolyFunction mulmod, squeeze, freeze, add, load_r")],
  [("h, r", "accumulator and clamped key of the polynomial", "src/poly1305.rs PolyFunction")],
  ["AeadCipher::encrypt for ChaCha20Poly1305"])
p("C10", "ChaCha20-Poly1305 opening accepts exactly authentic input",
  "Decryption returns true if and only if the presented tag is, in length and every bit, the RFC 8439 tag of exactly this key, nonce, associated data and ciphertext; it then writes exactly the plaintext. Otherwise it returns false and leaves the output buffer exactly as it was. Sealing followed by opening always restores the plaintext.",
  ["inputs", "fault_sequences"], "all sealed messages and all modifications of tag, ciphertext, associated data, nonce and of the boundary between associated data and ciphertext",
  "The tests open only authentic messages (the source has a TODO for bad tags).",
  ["src/poly1305.rs", "src/util.rs"],
  [("tag verified before anything is written", "src/poly1305.rs decrypt"), ("constant 16-byte comparison", "src/util.rs verify_16")],
  (), ["AeadCipher::decrypt for ChaCha20Poly1305"])
p("C11", "AES-GCM sealing is NIST SP 800-38D for every input",
  "For every AES-128, AES-192 or AES-256 key, 12-byte nonce, associated data and plaintext of any lengths within the documented limits, GCM encryption produces exactly the ciphertext and 16-byte tag of SP 800-38D. Every 16-byte block of a message, however long, is masked with its own counter value.",
  ["inputs"], "all keys, nonces, associated data and plaintexts, including lengths 0, non-multiples of 16, messages of more than 2^8 and 2^16 blocks and bit lengths above 2^32",
  "The tests run the eleven NIST vectors with at most four blocks and at most 20 bytes of associated data.",
  ["src/gcm.rs", "src/ghash.rs", "src/aes.rs"],
  [("counter blocks: 1 for the tag, 2.. for data", "src/gcm.rs Processor::process, tag"), ("GHASH padding and bit lengths", "src/ghash.rs GHash"),
   ("GF(2^128) multiplication", "src/ghash.rs PolyFunction::process")],
  [("counter block", "nonce and 32-bit big-endian counter", "src/gcm.rs counter, block")],
  ["AeadCipher::encrypt for Gcm<Aes128/192/256>"])
p("C12", "AES-GCM opening accepts exactly authentic input",
  "Decryption returns true if and only if the presented tag is, in length and every bit, the SP 800-38D tag of exactly this key, nonce, associated data and ciphertext; it then writes exactly the plaintext. Otherwise it returns false and leaves the output buffer exactly as it was. Sealing followed by opening always restores the plaintext.",
  ["inputs", "fault_sequences"], "all sealed messages and all modifications of tag, ciphertext, associated data, nonce and of the boundary between associated data and ciphertext",
  "The tests open only authentic messages (the source has a TODO for bad tags).",
  ["src/gcm.rs", "src/ghash.rs", "src/util.rs"],
  [("tag verified before anything is written", "src/gcm.rs Gcm::decrypt"), ("constant 16-byte comparison", "src/util.rs verify_16")],
  (), ["AeadCipher::decrypt for Gcm<...>"])
p("C13", "X25519 is the RFC 7748 function on every scalar and u-coordinate",
  "For every 32-byte secret key and every 32-byte public value, the shared secret is the RFC 7748 X25519 output, including values with the top bit set, values that are not reduced modulo the field prime, and low-order points. The public key of a secret key is X25519 of that key and the base point 9.",
  ["inputs"], "all scalars and all 2^256 u-coordinate encodings",
  "The tests compute about five scalar multiplications; non-canonical, low-order and top-bit-set inputs are never used, and carries in the field arithmetic are reached only by chance.",
  ["src/curve25519.rs"],
  [("clamping and Montgomery ladder", "src/curve25519.rs scalarmult"), ("field arithmetic with signed limbs", "src/curve25519.rs Fe, fe_mul!, fe_sq!, fe_invert!"),
   ("decode/encode of field elements", "src/curve25519.rs assign_from_bytes, write_bytes")],
  (), ["curve25519::dh", "curve25519::gen_pk"])
p("C14", "X25519 key agreement: both parties derive the same secret",
  "For any two secret keys a and b, combining a with the public key of b gives the same shared secret as combining b with the public key of a, the RFC 7748 one. Bits of the secret key that RFC 7748 fixes, the top bit of the public value, and adding the field prime to the public value never change the result; chains of three or more parties agree in every order.",
  ["inputs", "histories"], "all pairs (and longer chains) of secret keys, all orders of combination",
  "The tests check one pair of keys.",
  ["src/curve25519.rs"],
  [("Montgomery ladder is the scalar multiplication of a commutative group action", "src/curve25519.rs scalarmult"), ("clamping", "src/curve25519.rs scalarmult")],
  (), ["curve25519::dh", "curve25519::gen_pk"])
p("C15", "Ed25519 keys and signatures are the RFC 8032 ones, deterministically",
  "For every 32-byte secret key and every message, the public key and the 64-byte signature are exactly those RFC 8032 defines for Ed25519. Signing is deterministic, and the scalar half of every signature is below the group order.",
  ["inputs"], "all secret keys and all messages of all lengths",
  "The tests sign five RFC messages.",
  ["src/ed25519.rs", "src/const_curve25519.rs", "src/curve25519.rs", "src/sha2.rs"],
  [("fixed-base multiplication with precomputed table and signed radix-16 digits", "src/ed25519.rs from_scalarmult_base, select; src/const_curve25519.rs BASE"),
   ("scalar reduction and multiply-add modulo the group order", "src/ed25519.rs sc_reduce, sc_muladd"), ("nonce and challenge hashing", "src/ed25519.rs sign")],
  (), ["ed25519::gen_pk", "ed25519::sign"])
p("C16", "Ed25519 verification accepts every honestly produced signature",
  "For every secret key and message, the signature produced by signing verifies under the corresponding public key, and any valid RFC 8032 signature (also one made with another nonce) is accepted. Signing and verifying work for messages of every length, including the empty one.",
  ["inputs", "histories"], "all secret keys, nonces and messages",
  "The tests verify five RFC signatures.",
  ["src/ed25519.rs", "src/const_curve25519.rs"],
  [("double-scalar multiplication with sliding windows", "src/ed25519.rs from_double_scalarmult_vartime, slide; src/const_curve25519.rs BI"),
   ("point decompression", "src/ed25519.rs from_bytes_negate_vartime")],
  (), ["ed25519::sign", "ed25519::verify"])
p("C17", "Ed25519 verification accepts nothing but valid signatures",
  "Verification returns true only for a 64-byte signature whose scalar half is below the group order, a public key that is the canonical encoding of a curve point, and for which the RFC 8032 verification equation holds for exactly this message. Every change of message, signature (including adding the group order to the scalar), key or length is rejected without panicking.",
  ["inputs", "fault_sequences"], "all messages, all signature byte strings of all lengths, all 32-byte public keys: bit flips, non-canonical encodings, small-order and mixed-order points, points off the curve",
  "The tests never present a bad signature (the source has a TODO for it).",
  ["src/ed25519.rs"],
  [("length and scalar range check", "src/ed25519.rs verify"), ("decompression fails off the curve", "src/ed25519.rs from_bytes_negate_vartime"),
   ("recomputed R compared bytewise", "src/ed25519.rs verify; src/curve25519.rs verify_32")],
  (), ["ed25519::verify"])
p("C18", "The 16-byte tag comparison is exact equality",
  "The public comparison of a 16-byte array with a slice returns true if and only if the slice has length 16 and every byte is equal; for any other length it returns false without panicking.",
  ["inputs"], "all 16-byte arrays and all slices of all lengths; every bit position and every combination of differing bytes",
  "The tests compare ten pairs, none differing in a single bit or in bytes whose differences could cancel.",
  ["src/util.rs"], [("length check and OR-accumulated XOR", "src/util.rs verify_16, verify_inner")], (), ["util::verify_16"])
p("C19", "Calls panic exactly in the documented cases",
  "Every public operation panics if an argument has a length its documentation rules out (wrong key, nonce or block-cipher key length, output not matching the input or digest, too short pseudorandom key, too long expansion), and never otherwise: no accepted input makes it panic, overflow or fail to return, also in builds with arithmetic overflow checks. A failed call does not disturb other objects or later calls: they still give the results their specification defines.",
  ["inputs", "fault_sequences", "configurations"], "all argument lengths around every documented bound, all operations, checked and unchecked arithmetic",
  "No test passes an argument of a wrong length, and none reaches the upper bounds.",
  ["src/gcm.rs", "src/poly1305.rs", "src/chacha20.rs", "src/hkdf.rs", "src/hmac.rs", "src/sha2.rs", "src/aes.rs", "src/curve25519.rs", "src/ed25519.rs"],
  [("assertions on lengths", "src/gcm.rs check_bounds; src/hkdf.rs; src/sha2.rs write_digest; src/chacha20.rs ChaCha20::new, process; src/curve25519.rs scalarmult; src/ed25519.rs"),
   ("bounded counters", "src/hkdf.rs expand; src/gcm.rs process; src/poly1305.rs process")],
  (), ["every public function"])
p("C20", "Operations are pure: no hidden state, objects and threads independent",
  "The result of every operation is the one its specification defines for its arguments and the visible history of the object it is called on, and depends on nothing else: keyed cipher objects give the same answers after any number of previous successful or failed operations, and shared between threads. Operations on one object never affect another one, and inputs are never modified.",
  ["histories", "schedules", "inputs"], "all histories over several live objects of all kinds and all interleavings of calls, including concurrent use of one cipher object by several threads",
  "Each test builds one object and uses it once or twice in a straight line.",
  ["src/gcm.rs", "src/poly1305.rs", "src/aes.rs", "src/hmac.rs", "src/sha2.rs", "src/chacha20.rs", "src/curve25519.rs", "src/ed25519.rs"],
  [("cipher operations take &self and keep counters on the stack", "src/gcm.rs Gcm::encrypt/decrypt; src/poly1305.rs"), ("no globals", "all modules")],
  [("objects", "hashers, MACs, streams and ciphers with their abstract contents", "all modules")],
  ["every public type"])
p("C21", "All build configurations behave identically",
  "With and without the default std feature, and with or without optimisation and overflow checks, every operation gives the same results, those its specification defines, and accepts and rejects the same inputs.",
  ["configurations", "inputs"], "the feature sets {std, none} x {checked, unchecked} builds, over all inputs",
  "The suite runs the same few vectors in both feature sets, only in the debug profile; release builds are never tested.",
  ["src/lib.rs", "Cargo.toml"], [("feature gates", "src/lib.rs cfg_attr no_std, std feature"), ("wrapping versus checked arithmetic", "all modules")],
  (), ["every public function"])
p("C22", "HMAC, HKDF and GCM are correct over any user-supplied primitive",
  "Instantiated with any type implementing the public hash-function trait (with any digest size up to 64 and any block size not below it), HMAC, HMAC verification and HKDF compute RFC 2104 and RFC 5869 over that hash; instantiated with any type implementing the public block-cipher trait, GCM computes SP 800-38D over that cipher.",
  ["programs", "inputs", "configurations"], "all implementations of the two public traits, all digest and block sizes, all inputs",
  "Only the built-in SHA-2 and AES types are ever plugged in.",
  ["src/hmac.rs", "src/hkdf.rs", "src/gcm.rs", "src/sha2.rs", "src/aes.rs"],
  [("generic over HashFunction", "src/hmac.rs Hmac<H>, verify; src/hkdf.rs extract, expand"), ("generic over BlockCipher", "src/gcm.rs Gcm<E>, Processor<E>")],
  (), ["Hmac<H>, hkdf::extract/expand::<H>, Gcm<E> with H, E outside the crate"])
p("C23", "Secret-dependent operations leak nothing through their control flow",
  "For operations on secrets (hashing, MAC creation and verification, key derivation, AES, GCM and ChaCha20-Poly1305 sealing and opening, X25519, Ed25519 key generation and signing) the sequence of executed instructions and accessed memory locations depends only on public lengths and on the accept/reject outcome, never on the values of keys, plaintexts or tags; branches an optimising compiler introduces where the code has none do not count. In particular rejecting a tag takes the same path wherever the tag differs.",
  ["inputs"], "all pairs of secret inputs with equal lengths and equal outcome",
  "Unit tests compare results only.",
  ["src/util.rs", "src/aes.rs", "src/ghash.rs", "src/curve25519.rs", "src/ed25519.rs", "src/poly1305.rs"],
  [("accumulating comparisons", "src/util.rs verify_inner; src/curve25519.rs verify_32"), ("computed S-box instead of a table", "src/aes.rs s_box"),
   ("masks instead of branches", "src/ghash.rs process; src/curve25519.rs cswap_with; src/ed25519.rs select, cmov")],
  (), ["instruction and address traces of the public functions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
