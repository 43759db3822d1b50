#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

G = "graviola/src/"
p("C01", "AEAD encryption equals its specification for every input and CPU path",
  "Encrypting with AES-128/256-GCM, ChaCha20-Poly1305 or XChaCha20-Poly1305 produces exactly the ciphertext and tag the published specification defines, for every key, nonce, associated data and plaintext of any length, whichever CPU instruction set is used. Decrypting that output with the same key, nonce and associated data succeeds and restores the plaintext. A key object gives the same answers no matter how often it was used before.",
  ["inputs", "configurations", "histories"],
  "all keys, nonces, AAD and message lengths (including multi-megabyte messages that carry the block counter across byte boundaries) and all CPU feature sets",
  "The unit tests sample a few dozen vectors with one CPU configuration; length-dependent tails of the 1/2/4/8/16-block kernels, counter carries and GHASH aggregation edges are reached only by particular lengths and values.",
  [G+"mid/aes_gcm.rs", G+"mid/chacha20poly1305.rs", G+"mid/xchacha20poly1305.rs", G+"low/x86_64/aes_gcm.rs", G+"low/x86_64/ghash.rs", G+"low/x86_64/aes.rs", G+"low/x86_64/chacha20.rs", G+"low/generic/poly1305.rs", G+"low/generic/chacha20.rs", G+"low/generic/ghash.rs"],
  [("AES-GCM", "mid/aes_gcm.rs"), ("8-block and AVX512 kernels", "low/x86_64/aes_gcm.rs"), ("Poly1305 accumulation", "low/generic/poly1305.rs"), ("HChaCha20 subkey", "mid/xchacha20poly1305.rs")],
  observe=["public encrypt/decrypt calls against an independent implementation"])
p("C02", "AEAD decryption rejects every forgery and releases no plaintext",
  "Decryption reports an error whenever the ciphertext, tag, nonce, associated data or key differs in any way from those of an encryption, including tags of the wrong length and moved boundaries between associated data and ciphertext. After a failed decryption the caller's buffer holds no unauthenticated plaintext.",
  ["inputs", "configurations"],
  "all single and multi-bit alterations of key, nonce, AAD, ciphertext and tag at any message length, on every CPU path",
  "Tests flip a handful of bits on short messages; a comparison that skips a tag byte, or an unauthenticated block at one length, is invisible to them.",
  [G+"mid/aes_gcm.rs", G+"mid/chacha20poly1305.rs", G+"mid/xchacha20poly1305.rs", G+"low/generic/ct_equal.rs", G+"low/x86_64/cpu.rs"],
  [("constant-time tag comparison", "low/generic/ct_equal.rs, low/x86_64/cpu.rs"), ("clearing the buffer on failure", "mid/aes_gcm.rs decrypt, mid/chacha20poly1305.rs decrypt")],
  observe=["result and buffer contents after decrypt"])
p("C03", "Digests equal the standards for every message, chunking and clone history",
  "SHA-256, SHA-384, SHA-512, SHA3-256, SHA3-512 and SHAKE128/256 give the digest of the concatenated input as FIPS 180-4 and FIPS 202 define it, however the input is split over update calls (including empty ones), at any message length, on every CPU path. Cloning a SHA-2 context at any point gives two independent contexts, and extendable output is the same however it is read.",
  ["inputs", "histories", "configurations"],
  "all messages and lengths, all partitions into updates, all clone points, all squeeze patterns, all CPU feature sets",
  "Tests hash fixed vectors with a few chunkings; buffer-boundary handling, long-message bit counters (beyond 2^32 bits) and alternative CPU kernels depend on lengths that they do not reach.",
  [G+"mid/sha2.rs", G+"mid/sha3.rs", G+"low/generic/blockwise.rs", G+"low/x86_64/sha256_mux.rs", G+"low/x86_64/sha512_mux.rs", G+"low/generic/sha256.rs", G+"low/generic/sha512.rs", G+"low/x86_64/sha256.rs", G+"low/x86_64/sha512.rs", G+"high/hash.rs"],
  [("block buffering", "low/generic/blockwise.rs"), ("padding and length encoding", "mid/sha2.rs finish"), ("sponge absorb/squeeze", "mid/sha3.rs")],
  observe=["digests from one-shot and streaming interfaces"])
p("C04", "HMAC equals RFC 2104 and verification accepts only the exact tag",
  "HMAC with every supported hash gives the RFC 2104 value for keys and messages of any length, independent of how the message is split over updates and of cloning the keyed context. Verifying accepts the correct full-length tag and rejects every other byte string, including truncations and extensions.",
  ["inputs", "histories"],
  "all key lengths (below, at and beyond the block size), message partitions and candidate tags",
  "Tests use RFC vectors only; key-length boundaries and near-miss tags are not enumerated.",
  [G+"high/hmac.rs", G+"high/hash.rs", G+"low/generic/ct_equal.rs"],
  [("key padding/hash", "high/hmac.rs"), ("tag verification", "high/hmac.rs verify")],
  observe=["finish() output and verify() result"])
p("C05", "P-256/P-384 key agreement computes the SEC1 shared secret for all keys",
  "For every private scalar from 1 to the group order minus one and every valid peer point, P-256 and P-384 key agreement returns the x coordinate of the scalar product, as an independent implementation computes it, and the derived public key is the scalar multiple of the base point. Private keys outside that range are refused (an encoding may be shorter or zero-padded, but stands for the same integer), and both parties of an exchange obtain the same secret. Importing and exporting a private or public key preserves its value.",
  ["inputs", "histories"],
  "all scalars (including those near 0, the order, powers of two and window boundaries) and all peer points, for ephemeral and static keys",
  "Random tests practically never reach exceptional cases of windowed point arithmetic (equal or opposite operands, all-zero windows, near-order scalars) or rare carries in field reduction.",
  [G+"mid/p256.rs", G+"mid/p384.rs", G+"mid/p256/precomp.rs", G+"low/x86_64/p256_montjadd.rs", G+"low/x86_64/p384_montjadd.rs", G+"low/x86_64/bignum_inv_p256.rs", G+"low/x86_64/bignum_inv_p384.rs", G+"low/x86_64/bignum_montmul_p256.rs"],
  [("fixed-base and variable-base scalar multiplication", "mid/p256.rs, mid/p384.rs"), ("scalar range check", "mid/p256.rs Scalar::from_bytes_checked"), ("field arithmetic", "low/x86_64/bignum_*_p256.rs, p384")],
  observe=["public_key_uncompressed, diffie_hellman, as_bytes outputs"])
p("C06", "X25519 equals RFC 7748 for every scalar and coordinate",
  "X25519 key generation and agreement give the RFC 7748 function value for every 32-byte private key and every 32-byte peer coordinate, including non-canonical coordinates and ones with the top bit set. An agreement whose result is all zero is reported as an error, and every other agreement succeeds with both parties obtaining the same secret.",
  ["inputs"],
  "all 2^256 scalars and coordinates including low-order, twist and non-canonical points",
  "Vectors from the RFC and random round trips do not reach carries at the field boundary, non-canonical coordinates or all small-order inputs.",
  [G+"mid/x25519.rs", G+"low/x86_64/curve25519_x25519.rs", G+"low/x86_64/curve25519_x25519base.rs"],
  [("scalar multiplication", "low/x86_64/curve25519_x25519.rs"), ("contributory check", "mid/x25519.rs diffie_hellman")],
  observe=["public_key, diffie_hellman"])
p("C07", "Invalid public keys are never accepted",
  "A P-256 or P-384 public key is accepted, for key agreement or for signature verification, exactly when it is the uncompressed encoding of a point on the curve with coordinates below the field prime and of the exact length; everything else (off-curve, identity, compressed, hybrid, wrong length, out-of-range coordinates) is refused. An ML-KEM-768 encapsulation key is accepted exactly when it has the right length and every coefficient is reduced modulo the prime; an Ed25519 public key exactly when it decodes to a curve point.",
  ["inputs"],
  "all byte strings offered as public keys, in particular near-valid ones",
  "The tests sample one or two invalid encodings; off-by-one range checks and skipped checks in one of several import routes need constructed points.",
  [G+"mid/p256.rs", G+"mid/p384.rs", G+"mid/mlkem768.rs", G+"mid/ed25519.rs", G+"high/curve.rs", G+"high/ecdsa.rs", G+"high/ed25519.rs"],
  [("curve membership check", "mid/p256.rs, mid/p384.rs AffineMontPoint::on_curve"), ("encapsulation key modulus check", "mid/mlkem768.rs"), ("edwards25519 point decoding", "low/x86_64/edwards25519_decode.rs")],
  observe=["from_x962_uncompressed, from_spki_der, EncapKey/Ed25519VerifyingKey constructors"])
p("C08", "ECDSA verification accepts exactly the valid signatures",
  "Verification of a P-256 or P-384 signature with any supported hash succeeds exactly when the signature is the valid one by FIPS 186: r and s in 1..order-1, strictly encoded at full length, and the recomputed x coordinate equal to r modulo the order. Any change to the message, key, r, s or encoding that makes the equation false is rejected.",
  ["inputs"],
  "all keys, messages and signatures, including those forcing exceptional point additions, x coordinates above the order, extreme r/s and malformed DER",
  "Exceptional cases have negligible probability under random tests and must be constructed algebraically; the repository's vectors cover a few.",
  [G+"high/ecdsa.rs", G+"mid/p256.rs", G+"mid/p384.rs", G+"high/curve.rs", G+"high/asn1.rs"],
  [("double-scalar verification", "mid/p256.rs raw_ecdsa_verify, mid/p384.rs raw_ecdsa_verify"), ("hash truncation", "high/ecdsa.rs hash_to_scalar"), ("signature DER decoding", "high/ecdsa.rs verify_asn1, high/asn1.rs")],
  observe=["verify and verify_asn1 results against an independent decision"])
p("C09", "ECDSA signatures are valid and never reuse a nonce, even with a broken RNG",
  "Every signature produced verifies under the matching public key with an independent implementation, in both fixed-width and strict DER form, for every key, hash and message partition. Two signatures over different messages or under different keys never share their nonce, even when the random generator returns constant or repeating bytes. A buffer that is too small is reported as an error without a partial signature.",
  ["inputs", "fault_sequences"],
  "all keys, messages and RNG behaviours, including constant and repeating random output",
  "Nonce relations are not visible to tests that only verify signatures; short r/s encodings occur once in hundreds of signatures.",
  [G+"high/ecdsa.rs", G+"high/hmac_drbg.rs", G+"high/curve.rs", G+"mid/p256.rs", G+"mid/p384.rs"],
  [("RFC 6979 derivation with added entropy", "high/ecdsa.rs, high/hmac_drbg.rs"), ("DER encoding of r and s", "high/ecdsa.rs sign_asn1")],
  observe=["signatures; recovered nonces k = (e + r d)/s"])
p("C10", "Ed25519 signing and verification follow RFC 8032 exactly",
  "Signing is deterministic and produces the RFC 8032 signature for every seed and message. Verification accepts exactly the 64-byte signatures with canonical S below the group order and a canonically equal R satisfying the cofactorless equation, and rejects everything else.",
  ["inputs"],
  "all seeds, messages, public keys and signatures, including S+L malleations, small-order and non-canonical points",
  "RFC vectors cover a few messages; malleability, small-order and non-canonical-R decisions need constructed points.",
  [G+"mid/ed25519.rs", G+"high/ed25519.rs", G+"low/x86_64/edwards25519_scalarmuldouble.rs", G+"low/x86_64/edwards25519_scalarmulbase.rs", G+"low/x86_64/edwards25519_decode.rs"],
  [("signing", "mid/ed25519.rs"), ("scalar canonicality and R comparison", "mid/ed25519.rs verify")],
  observe=["sign output, verify result"])
p("C11", "RSA verification accepts exactly the valid signatures",
  "For every supported modulus (2048 to 8192 bits) and exponent, PKCS#1 v1.5 and PSS verification with each hash accepts a signature exactly when it has the modulus length, is below the modulus, and its public-exponent power is the encoding RFC 8017 requires. All other byte strings, including altered padding, hash identifiers, salts, trailing garbage and other lengths, are rejected.",
  ["inputs"],
  "all moduli sizes (not only multiples of 64 bits), exponents, encodings crafted with the private key, and lengths",
  "Tests use a few well-formed 2048/3072/4096-bit keys; forged encodings need a private key and per-byte crafting, and unusual modulus sizes are absent.",
  [G+"high/rsa.rs", G+"mid/rsa_pub.rs", G+"high/pkcs1.rs", G+"low/posint.rs"],
  [("EMSA-PKCS1-v1_5 comparison", "high/rsa.rs, high/pkcs1.rs"), ("EMSA-PSS verify", "high/pkcs1.rs"), ("public operation", "mid/rsa_pub.rs")],
  observe=["verify_* results against an independent decision"])
p("C12", "RSA signatures are valid, interoperable and exactly modulus sized",
  "Every PKCS#1 v1.5 and PSS signature produced from a well-formed private key is exactly as long as the modulus, verifies with an independent implementation under the matching public key, and (for PSS) uses a fresh salt of digest length each time. This holds for every accepted key size, hash and message; an output buffer that is too small is refused, and of a larger one only the prefix is used.",
  ["inputs", "histories"],
  "all accepted private keys and messages, including signatures with leading zero bytes",
  "Values with leading zero bytes or words appear with probability 2^-8 or less per signature; tests sign a few messages with a few keys.",
  [G+"high/rsa.rs", G+"mid/rsa_priv.rs", G+"high/pkcs1.rs", G+"low/posint.rs", G+"low/x86_64/bignum_emontredc_8n.rs"],
  [("CRT private operation", "mid/rsa_priv"), ("PSS encoding", "high/pkcs1.rs"), ("constant-width modular exponentiation", "low/posint.rs")],
  observe=["sign_* outputs"])
p("C13", "A corrupted private-key computation is never released",
  "If private key material or an intermediate value is corrupted by a fault during RSA signing, the caller gets an error and no invalid signature is returned; a fault in P-256 or P-384 agreement or public key derivation never yields a result from a point off the curve. A fault is reported as an error, or as a panic where the operation has no error to return.",
  ["fault_sequences", "inputs"],
  "all single faults in private key components held in memory or supplied by an import, at any message",
  "No test injects a fault, so a removed self-check changes no test result.",
  [G+"mid/rsa_priv.rs", G+"high/rsa.rs", G+"mid/p256.rs", G+"mid/p384.rs"],
  [("post-signature public check", "mid/rsa_priv private_op"), ("result on-curve check", "mid/p256.rs diffie_hellman, mid/p384.rs diffie_hellman")],
  observe=["sign results after memory corruption of key words"])
p("C14", "Generated RSA keys are well-formed and sized as requested",
  "Every generated RSA key has a modulus of exactly the requested bit length that is the product of two distinct primes of equal length, public exponent 65537, and private components that satisfy the CRT relations; its exported form imports elsewhere and signatures by it verify. Two generations never give related keys unless the random generator repeats itself.",
  ["inputs", "fault_sequences"],
  "all random generator outputs, including adversarial streams that begin with composite, short or repeated candidates",
  "Generation is random and slow, so tests produce one key per size; candidate filtering and range checks are only exercised by unlucky random streams.",
  [G+"mid/rsa_priv/generate.rs", G+"mid/rsa_priv.rs", G+"high/rsa.rs"],
  [("prime search and FIPS 186-5 candidate checks", "mid/rsa_priv/generate.rs"), ("Miller-Rabin", "mid/rsa_priv/generate.rs")],
  observe=["exported PKCS#1 of generated keys under a controlled RNG"])
p("C15", "ML-KEM-768 follows FIPS 203, with implicit rejection",
  "Key generation, encapsulation and decapsulation give exactly the FIPS 203 values for every seed and message, and interoperate with an independent implementation. Decapsulating any altered ciphertext never errors: it returns the pseudorandom implicit-rejection secret, the same one every time, and a genuine ciphertext always returns the shared secret.",
  ["inputs"],
  "all seeds, messages and ciphertexts, in particular single-bit alterations in any position",
  "The tests use a limited set of vectors; a comparison that ignores part of the re-encrypted ciphertext or a coefficient-range edge in the NTT is not visible to them.",
  [G+"mid/mlkem768.rs", G+"low/x86_64/mlkem_ntt.rs", G+"low/x86_64/mlkem_intt.rs", G+"low/x86_64/mlkem_basemul_k3.rs", G+"mid/sha3.rs"],
  [("re-encryption comparison and selection", "mid/mlkem768.rs decaps"), ("compression/encoding", "mid/mlkem768.rs"), ("NTT kernels", "low/x86_64/mlkem_*.rs")],
  observe=["keygen/encaps/decaps outputs"])
p("C16", "Key encodings round-trip, interoperate and reject inconsistent data",
  "Exporting any key to PKCS#8, PKCS#1, SEC1, SPKI or X9.62 gives canonical DER that independent parsers accept as the same key, and importing it restores a key that behaves identically. Importing refuses encodings with trailing data, a wrong algorithm or curve identifier, an unsupported version, negative integers, or an embedded public key (SEC1 or PKCS#8 version 2) that does not match the private key. Output buffers that are too small are reported, with the error the documentation names where it names one.",
  ["inputs"],
  "all keys (including values with leading zero bytes or high bits set), all output buffer sizes and all mutated encodings",
  "Tests round-trip a few fixed keys; leading-zero integers, mismatched embedded public keys and trailing bytes per format are only partially covered.",
  [G+"high/pkcs8.rs", G+"high/asn1.rs", G+"high/ecdsa.rs", G+"high/ed25519.rs", G+"high/rsa.rs", G+"high/curve.rs"],
  [("DER encoder/decoder", "high/asn1.rs"), ("PKCS#8 wrapper", "high/pkcs8.rs"), ("public key cross check", "high/ecdsa.rs, high/ed25519.rs")],
  observe=["to_* bytes against independent parsers; from_* results"])
p("C17", "Hostile bytes to any parser or verifier give an error, never a crash or hang",
  "Every public function that takes untrusted bytes (key and signature parsers, verifiers, decryption, decapsulation, key agreement) returns in bounded time with a result or an error for every input; it never panics, aborts, overflows the stack or loops. What a parser accepts can then be used in every operation of that key without a panic.",
  ["inputs"],
  "all byte strings of any length as keys, signatures, ciphertexts and encodings, including structurally valid but hostile keys",
  "Hand-written malformed inputs cover few nesting, length and integer shapes; use of a hostile but parseable key is untested.",
  [G+"high/asn1.rs", G+"high/pkcs8.rs", G+"high/rsa.rs", G+"high/ecdsa.rs", G+"high/ed25519.rs", G+"mid/rsa_priv.rs", G+"mid/rsa_pub.rs", G+"low/posint.rs"],
  [("DER length parsing", "high/asn1.rs"), ("RSA component validation", "mid/rsa_priv.rs, mid/rsa_pub.rs"), ("bignum range handling", "low/posint.rs")],
  observe=["panic hook, signals and CPU time per call"])
p("C18", "No operation reads or writes outside the memory it was given",
  "Every operation touches only the bytes of the buffers passed to it and of its own objects, for every length and alignment of those buffers: nothing before or after a caller's slice is read or written, unwritten parts of output buffers keep their content, and input buffers never change. No memory error (out-of-bounds, use after free, uninitialised read) occurs in the hand-written assembly or intrinsics code.",
  ["inputs", "configurations"],
  "all slice lengths and alignments of every buffer argument, on each CPU path",
  "Ordinary tests place buffers in the heap where an over-read is silent; assembly is invisible to the borrow checker and compile-time checks.",
  [G+"low/x86_64/aes_gcm.rs", G+"low/x86_64/chacha20.rs", G+"low/x86_64/ghash.rs", G+"low/x86_64/sha256.rs", G+"low/x86_64/sha512.rs", G+"low/x86_64/cpu.rs", G+"low/posint.rs", G+"low/generic/blockwise.rs", G+"high/asn1.rs"],
  [("unsafe kernels over raw pointers", "low/x86_64"), ("tail handling", "low/x86_64/aes_gcm.rs, chacha20.rs, ghash.rs")],
  observe=["guard pages and canaries around each buffer; AddressSanitizer; memcheck"])
p("C19", "Secrets are erased when dropped and do not leak through registers or Debug",
  "When a private key, shared secret, AEAD key or signing object is dropped, the memory it occupied no longer holds the secret, and no heap block the library frees holds part of one; the scratch copies that ECDSA signing and RSA export make on the stack are wiped before they return. When a secret operation returns, the vector registers hold none of its intermediate values. Formatting a secret type for debugging never prints secret bytes.",
  ["histories", "inputs", "configurations"],
  "all secret types and all ways their life ends (drop, consumption, error return), on each CPU path",
  "Memory after drop and registers after return are not observable by ordinary tests.",
  [G+"low/generic/zeroise.rs", G+"low/x86_64/cpu.rs", G+"low/entry.rs", G+"mid/p256.rs", G+"mid/p384.rs", G+"mid/x25519.rs", G+"mid/ed25519.rs", G+"mid/mlkem768.rs", G+"mid/rsa_priv.rs", G+"mid/aes_gcm.rs", G+"low/posint.rs"],
  [("zeroise on drop", "low/generic/zeroise.rs, Drop impls"), ("vector register clearing at exit of secret operations", "low/entry.rs, low/x86_64/cpu.rs leave_cpu_state")],
  observe=["object storage after drop, freed heap blocks, vector registers after return, Debug text"])
p("C20", "Secret-dependent branches and addresses do not occur",
  "Operations on secrets (private scalar operations, signing, decapsulation, AEAD, HMAC, tag comparison, zeroisation) execute the same instruction sequence and access the same memory addresses whatever the secret values are, except for outcomes that are public by nature such as rejection sampling and the final accept/reject result.",
  ["inputs", "configurations"],
  "all pairs of secret values with equal public inputs, on each CPU path",
  "Functional tests see only results; the repository's own timing tests need a special feature and valgrind and are not part of the test run.",
  [G+"low/ct.rs", G+"mid/p256.rs", G+"mid/p384.rs", G+"mid/rsa_priv.rs", G+"low/posint.rs", G+"mid/mlkem768.rs", G+"high/ecdsa.rs", G+"low/generic/ct_equal.rs", G+"low/x86_64"],
  [("secret annotations", "low/ct.rs"), ("constant-time table lookup", "low/x86_64/bignum_copy_row_from_table*.rs, mid/p256.rs"), ("constant-time comparison", "low/generic/ct_equal.rs")],
  observe=["memcheck taint reports; recorded instruction-pointer traces"],
  hook="make the secret annotations of low/ct.rs usable from outside the crate's own unit tests (cfg verif_ctgrind)")
p("C21", "Every CPU feature set gives the same results, using only available instructions",
  "For every combination of present and absent optional CPU features, every operation gives the same result as with all features present. With a feature absent no instruction of that extension is executed by an operation that has an alternative, and without a mandatory feature operations refuse to run instead of computing something else.",
  ["configurations", "inputs"],
  "all subsets of the optional CPU features the library dispatches on",
  "Tests run with the features of one machine; fallback paths and partial feature sets run nowhere in the suite.",
  [G+"low/x86_64/cpu.rs", G+"low/x86_64/sha256_mux.rs", G+"low/x86_64/sha512_mux.rs", G+"low/x86_64/aes_gcm.rs", G+"low/x86_64/ghash.rs", G+"low/entry.rs"],
  [("feature tokens", "low/x86_64/cpu.rs"), ("dispatchers", "sha256_mux.rs, sha512_mux.rs, aes_gcm.rs, ghash.rs")],
  observe=["transcripts per feature set; executed instruction bytes under single-step"])
p("C22", "Random generator failure is always reported, and randomness is fresh",
  "If the system random generator fails at any call, the operation in progress returns an error: it never panics, never yields a key, signature, nonce or encapsulation made without the requested randomness. When it succeeds, each generated key, salt, nonce addition and encapsulation depends on newly drawn bytes, of at least the security strength, that are used nowhere else.",
  ["fault_sequences", "histories"],
  "every position of a generator failure in every operation that consumes randomness, and all generator outputs",
  "The system generator practically never fails in tests, so no failure position is exercised.",
  [G+"mid/rng.rs", G+"high/ecdsa.rs", G+"high/rsa.rs", G+"mid/p256.rs", G+"mid/p384.rs", G+"mid/x25519.rs", G+"mid/ed25519.rs", G+"mid/mlkem768.rs", G+"mid/rsa_priv/generate.rs", "rustls-graviola/src/lib.rs"],
  [("system random source", "mid/rng.rs"), ("callers propagating errors", "new_random/sign/encaps")],
  observe=["custom generator backend that logs and fails at a chosen call"])
p("C23", "Shared keys work concurrently exactly as sequentially",
  "Keys and contexts that may be shared between threads give, under any interleaving of calls from many threads, the same results as the same calls made one after another, with no data race. First use of the library from several threads at once is safe.",
  ["schedules", "histories"],
  "all interleavings of operations on shared keys and on first use",
  "Tests are single-threaded per object, so hidden shared mutable state or lazily initialised tables would not show.",
  [G+"low/entry.rs", G+"mid/aes_gcm.rs", G+"high/rsa.rs", G+"high/ecdsa.rs", G+"mid/p256.rs", "rustls-graviola/src/sign.rs", "rustls-graviola/src/ticketer.rs"],
  [("immutability of shared key objects", "all key types"), ("CPU feature detection", "low/x86_64/cpu.rs")],
  observe=["concurrent results against sequential replay; ThreadSanitizer reports"])
p("C24", "The TLS provider completes handshakes with independent peers in every mode",
  "A TLS client or server using this provider completes a handshake and exchanges data intact with a peer using a different provider, for every combination of protocol version, cipher suite, key-exchange group (including the X25519+ML-KEM-768 hybrid), and certificate type it offers, including resumption. Each key-exchange group derives the same secret as the peer, and malformed or degenerate key shares make it fail with an error.",
  ["configurations", "inputs"],
  "all combinations of version, suite, group, certificate type, role and peer implementation; all malformed key shares",
  "The test suite pairs a subset of the combinations with well-formed peers only.",
  ["rustls-graviola/src/lib.rs", "rustls-graviola/src/suites.rs", "rustls-graviola/src/kx.rs", "rustls-graviola/src/hash.rs", "rustls-graviola/src/hmac.rs", "rustls-graviola/src/verify.rs"],
  [("cipher suite table", "rustls-graviola/src/suites.rs"), ("key exchange groups", "rustls-graviola/src/kx.rs"), ("transcript hashes", "rustls-graviola/src/hash.rs")],
  observe=["in-memory connections between two providers"])
p("C25", "TLS record protection matches the RFCs and rejects every altered record",
  "For every suite, sequence number, content type and fragment length, records are protected exactly as RFC 8446, 5288 and 7905 require, so an independent implementation opens them and vice versa; nonces never repeat within a connection. Any altered, truncated, reordered, replayed or oversized record is rejected with an error and without a panic.",
  ["inputs", "histories"],
  "all record sizes and sequence numbers, fragmented payload chunks, and all alterations of a record stream",
  "Handshake tests send a few well-formed records; header, nonce and limit handling at extreme sizes and sequence numbers is not reached.",
  ["rustls-graviola/src/aead.rs", "rustls-graviola/src/suites.rs"],
  [("TLS 1.2 explicit nonce and AAD", "rustls-graviola/src/aead.rs"), ("TLS 1.3 inner type and padding", "rustls-graviola/src/aead.rs")],
  observe=["encrypter/decrypter outputs against independent providers"])
p("C26", "Session tickets are confidential, authentic and never misread",
  "A ticket produced by this provider's ticketer decrypts, with the same ticketer, to exactly the state that was encrypted; two tickets for the same state differ, and the state cannot be found in the ticket. Any other byte string, including altered, truncated, extended or foreign tickets, decrypts to nothing, without a panic. Keys rotate: while the ticketer stays in use, a ticket older than its announced lifetime decrypts to nothing.",
  ["inputs", "histories"],
  "all plaintext sizes, all alterations of a ticket, and any sequence of encryptions and key rotations",
  "The suite resumes a session once; alterations, foreign tickets and size limits are not enumerated.",
  ["rustls-graviola/src/ticketer.rs"],
  [("XChaCha20-Poly1305 sealing with key name", "rustls-graviola/src/ticketer.rs"), ("length cap before decryption", "rustls-graviola/src/ticketer.rs")],
  observe=["ProducesTickets encrypt/decrypt"])
p("C27", "TLS signature schemes are chosen and verified exactly as named",
  "A loaded private key offers and uses only signature schemes its type supports, picks the most preferred offered one, and each signature verifies under exactly that scheme with an independent provider. Each certificate/handshake verification algorithm accepts exactly the valid signatures of its own scheme and key type, whatever provider made them, and rejects signatures of every other scheme, key or message.",
  ["inputs", "configurations"],
  "all key types and sizes, all sets and orders of offered schemes, all pairs of scheme and verifier",
  "Handshake tests negotiate one scheme per key; cross-scheme acceptance and rare preference orders are not tried.",
  ["rustls-graviola/src/sign.rs", "rustls-graviola/src/verify.rs"],
  [("scheme choice", "rustls-graviola/src/sign.rs choose_scheme"), ("algorithm table", "rustls-graviola/src/verify.rs")],
  observe=["SigningKey::choose_scheme, Signer::sign, SignatureVerificationAlgorithm::verify_signature"])

p("C28", "Results depend only on inputs; operations leave nothing behind",
  "What an operation returns is a function of its inputs, its object's state as documented, and the random bytes it draws: never of what this process did before, of how many times the object or operation was used, of earlier failures or refused inputs, of stack or heap contents, or of floating-point modes. When the objects an operation made are dropped, it holds no heap memory, file descriptors or threads it did not hold before, and has left signal handlers and masks, environment, working directory, rounding modes, x87 state and direction flag as they were. A decoder's heap demand is bounded by a small multiple of its input's length, whatever lengths the input claims.",
  ["inputs", "histories"],
  "all operations, all histories of operations before, any number of repetitions, all encodings",
  "Tests run each operation once or a few times in a fresh process; effects that need a particular predecessor, the 65,536th use, or an unusual thread state are never exercised, and leaks go unnoticed.",
  ["graviola/src/low/x86_64", "graviola/src/high", "graviola/src/mid", "graviola/src/low/entry.rs"],
  [("no hidden state", "graviola/src/high/*.rs, graviola/src/mid/*.rs: keys and contexts hold all state"), ("decoders borrow", "graviola/src/high/asn1.rs")],
  observe=["every public operation, in a fresh process and inside long histories; allocator calls; /proc/self; control registers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        f.write(json.dumps(r) + "\n")
        for fn in r["anchors"]["files"]:
            if not os.path.exists("/repo/" + fn): print(r["id"], "missing", fn)
