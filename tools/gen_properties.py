#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run after editing the table below)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Hash functions compute their standard for any message and any chunking",
  "SHA-256, SHA-384, SHA-512, SHA3-256, SHA3-512, SHAKE128 and SHAKE256 produce exactly the output FIPS 180-4 / FIPS 202 define for the message, whatever its length and content, however it is divided over update calls or input slices, and however an extendable output is divided over reads. A forked (cloned) computation continues independently of the original, and one-shot and incremental interfaces agree.",
  ["inputs", "histories"], "all messages of every length, every sequence of update/fork/read operations",
  "Padding, buffering and length accounting depend on the joint residues of every chunk boundary; tests sample a few lengths and usually a single update.",
  ["graviola/src/mid/sha2.rs", "graviola/src/mid/sha3.rs", "graviola/src/high/hash.rs", "graviola/src/low/generic/blockwise.rs", "graviola/src/low/x86_64/sha256.rs", "graviola/src/low/x86_64/sha512.rs", "graviola/src/low/x86_64/sha3_keccak_f1600.rs"],
  [("block buffering and padding", "graviola/src/low/generic/blockwise.rs"), ("sponge absorb/squeeze", "graviola/src/mid/sha3.rs")],
  ["digest bytes returned by the hashing API"])
p("C02", "HMAC equals its definition and verification accepts only the exact tag",
  "For every key of any length and every message, HMAC-SHA-256/384/512 returns the value FIPS 198-1 defines, whatever the division of the message over updates and however the computation is forked. Tag verification (and constant-time hash comparison, whole or truncated) succeeds exactly when every byte and the length agree.",
  ["inputs", "histories"], "all keys, messages, update/fork histories and candidate tags",
  "Key-length classes (shorter, equal, longer than a block) times chunkings times tag alterations is a product that sampled vectors leave mostly open; wrong acceptance of an altered tag needs the altered tag.",
  ["graviola/src/high/hmac.rs", "graviola/src/high/hash.rs", "graviola/src/low/ct.rs", "graviola/src/low/generic/ct_equal.rs", "graviola/src/low/x86_64/cpu.rs"],
  [("HMAC", "graviola/src/high/hmac.rs"), ("constant-time comparison", "graviola/src/low/x86_64/cpu.rs")])
p("C03", "AEAD encryption and decryption conform for every length, key, nonce and AAD",
  "AES-128-GCM, AES-256-GCM, ChaCha20-Poly1305 and XChaCha20-Poly1305 produce exactly the ciphertext and tag of their specifications for every key, nonce, associated data and plaintext, of any lengths. Decrypting that ciphertext with the same key, nonce, associated data and tag succeeds and restores exactly the plaintext.",
  ["inputs", "configurations"], "all keys, nonces, AAD and plaintext lengths and contents, on every accelerated code path",
  "The implementations switch strategy at many length thresholds (block, 4-, 8-, 16-block strides, 128/256-byte thresholds) and use hand-scheduled carries; a wrong tail, counter wrap or carry only shows at particular lengths or field values.",
  ["graviola/src/mid/aes_gcm.rs", "graviola/src/mid/chacha20poly1305.rs", "graviola/src/mid/xchacha20poly1305.rs", "graviola/src/low/x86_64/aes_gcm.rs", "graviola/src/low/x86_64/ghash.rs", "graviola/src/low/x86_64/aes.rs", "graviola/src/low/x86_64/chacha20.rs", "graviola/src/low/generic/poly1305.rs"],
  [("GCM", "graviola/src/mid/aes_gcm.rs"), ("ChaCha20-Poly1305", "graviola/src/mid/chacha20poly1305.rs")])
p("C04", "AEAD decryption rejects every alteration and releases no plaintext on failure",
  "Decryption with an AEAD succeeds only for the exact ciphertext, associated data, nonce and 16-byte tag that encryption under that key yields; any change to any of them, including tags of any other length, is reported as a decryption failure. Whenever decryption fails, the caller's buffer has been cleared, so that nothing derived from the ciphertext or plaintext is left in it.",
  ["inputs"], "all alterations of ciphertext, AAD, nonce, tag value and tag length, for all message lengths",
  "An accepted forgery needs the one alteration that a weakened comparison ignores; and buffer clearing must hold on all lengths and failure causes.",
  ["graviola/src/mid/aes_gcm.rs", "graviola/src/mid/chacha20poly1305.rs", "graviola/src/mid/xchacha20poly1305.rs", "graviola/src/low/ct.rs", "graviola/src/low/generic/ct_equal.rs"],
  [("tag check and clearing", "graviola/src/mid/aes_gcm.rs"), ("tag check and clearing", "graviola/src/mid/chacha20poly1305.rs")])
p("C05", "Results do not depend on optional CPU features; required ones are enforced",
  "For every combination of the optional processor features the library can use, every operation returns byte-for-byte the same results. If a processor feature it requires unconditionally is missing, encryption, key-agreement and signature operations refuse to run (by panicking) instead of executing. No operation, refused or not, executes an instruction of a feature the processor does not report.",
  ["configurations", "inputs"], "all subsets of optional CPU features crossed with operations and input lengths; each required feature missing",
  "A test run sees only the processor it happens to run on.",
  ["graviola/src/low/x86_64/cpu.rs", "graviola/src/low/entry.rs", "graviola/src/low/x86_64/aes_gcm.rs", "graviola/src/low/x86_64/sha256_mux.rs", "graviola/src/low/x86_64/sha512_mux.rs"],
  [("feature tokens", "graviola/src/low/x86_64/cpu.rs")])
p("C06", "ECDH on P-256 and P-384 computes the exact group operation",
  "For every private scalar in [1, n-1] and every valid peer point, P-256 and P-384 key agreement returns the x-coordinate of the scalar multiple as fixed-length big-endian bytes, and the derived public key is the uncompressed encoding of that multiple of the generator. Both parties therefore always agree.",
  ["inputs"], "all scalars and all valid peer points",
  "Windowed scalar multiplication has exceptional cases (digit recoding carries, table edge entries, doubling inside addition, scalars near the group order) that random keys hit with negligible probability.",
  ["graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "graviola/src/mid/p256/precomp.rs", "graviola/src/mid/p384/precomp.rs", "graviola/src/low/x86_64/bignum_montmul_p256.rs"],
  [("scalar multiplication", "graviola/src/mid/p256.rs"), ("scalar multiplication", "graviola/src/mid/p384.rs")])
p("C07", "Invalid peer public values and out-of-range private scalars are always rejected",
  "A P-256 or P-384 public key is accepted only if it is the correct-length uncompressed encoding of canonical coordinates of a point on the curve; a private scalar only if it is in [1, n-1]. An X25519 exchange whose result is all-zero fails, and an ML-KEM-768 encapsulation key is accepted only if every coefficient is reduced; wrong-length encodings of public values are errors. (A P-256 or P-384 private scalar is read as a big-endian number of any length.)",
  ["inputs"], "all byte strings offered as public key, point, private scalar or encapsulation key",
  "Acceptance of one malformed class (off-curve, non-canonical, boundary value, wrong length) is what an invalid-curve or malleability attacker uses; tests list a few.",
  ["graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "graviola/src/mid/x25519.rs", "graviola/src/mid/mlkem768.rs"],
  [("point validation", "graviola/src/mid/p256.rs"), ("point validation", "graviola/src/mid/p384.rs"), ("encapsulation key check", "graviola/src/mid/mlkem768.rs")])
p("C08", "X25519 equals RFC 7748 for every scalar and every u-coordinate",
  "For every 32-byte private value and every 32-byte public value (including non-canonical ones and ones with the top bit set), X25519 public-key derivation and key agreement return the value RFC 7748 defines after clamping and masking; the only error is for an all-zero result. Agreement is symmetric for any two key pairs.",
  ["inputs"], "all scalars and all u-coordinates",
  "Field-carry and table-lookup faults depend on rare limb patterns; the base-point path uses a separate precomputed-table algorithm.",
  ["graviola/src/mid/x25519.rs", "graviola/src/low/x86_64/curve25519_x25519.rs", "graviola/src/low/x86_64/curve25519_x25519base.rs"],
  [("x25519", "graviola/src/mid/x25519.rs")])
p("C09", "ML-KEM-768 conforms to FIPS 203, including implicit rejection",
  "Key generation, encapsulation and decapsulation yield exactly the FIPS 203 ML-KEM-768 keys, ciphertexts and shared secrets for every seed and message randomness, so a decapsulating party always obtains the encapsulator's secret. For every other 1088-byte ciphertext decapsulation succeeds with the pseudorandom implicit-rejection secret that FIPS 203 defines for that key and ciphertext; keys survive their seed and byte encodings unchanged.",
  ["inputs"], "all seeds, messages, ciphertexts and encodings",
  "Rejection-sampling lengths, compression rounding and coefficient reductions deviate only for rare inputs; implicit rejection must depend on the full ciphertext.",
  ["graviola/src/mid/mlkem768.rs", "graviola/src/low/x86_64/mlkem.rs", "graviola/src/mid/sha3.rs"],
  [("ML-KEM", "graviola/src/mid/mlkem768.rs")])
p("C10", "ECDSA verification accepts exactly the valid signatures",
  "ECDSA verification over P-256 and P-384 with any supported hash returns success exactly when r and s are in [1, n-1], encoded correctly (fixed-length, or strict DER), and satisfy the verification equation for the message and public key; everything else is an error. This includes exceptional equations: results at infinity, equal addends, x-coordinates at or above the group order, and hashes longer or shorter than the order.",
  ["inputs"], "all public keys, messages, (r, s) pairs and signature encodings",
  "Exceptional point additions, x >= n and boundary r/s values occur with probability about 2^-128 for honest signatures, and are reachable only by construction.",
  ["graviola/src/high/ecdsa.rs", "graviola/src/high/ecdsa", "graviola/src/high/curve.rs", "graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "graviola/src/high/asn1.rs"],
  [("verify", "graviola/src/high/ecdsa.rs"), ("double-scalar multiplication", "graviola/src/mid/p256.rs")])
p("C11", "ECDSA signing yields valid signatures with hedged deterministic nonces",
  "For every valid private key, message, supported hash and randomness, ECDSA signing returns a signature that verifies under the public key, in the exact fixed-length or DER encoding, deterministic given the randomness consumed. The per-signature secret is derived from the private key, message hash and 16 fresh random bytes by the RFC 6979 generator, so it is never zero, out of range, or repeated for different messages even if the randomness repeats.",
  ["inputs", "fault_sequences"], "all keys, messages and random-source outputs, including a constant random source",
  "Nonce reuse or bias is invisible to sign-then-verify tests; short r/s encodings occur about once in 256 or 65536 signatures.",
  ["graviola/src/high/ecdsa.rs", "graviola/src/high/hmac_drbg.rs", "graviola/src/high/curve.rs"],
  [("sign", "graviola/src/high/ecdsa.rs"), ("nonce generator", "graviola/src/high/hmac_drbg.rs")])
p("C12", "Ed25519 signs per RFC 8032 and verification accepts exactly valid signatures",
  "Ed25519 signatures and public keys equal RFC 8032's deterministic output for every seed and message. Verification succeeds exactly when the public key decodes to a curve point canonically, s is below the group order, and the encoded R equals the encoding of sB - hA; every other signature, key or length is rejected.",
  ["inputs"], "all seeds, messages, public keys and signatures, including low-order and non-canonical encodings",
  "Malleated s, non-canonical or small-order points and sign-bit edge cases are exactly what random testing never generates.",
  ["graviola/src/mid/ed25519.rs", "graviola/src/high/ed25519.rs"],
  [("sign/verify", "graviola/src/mid/ed25519.rs")])
p("C13", "RSA verification accepts exactly well-formed signatures of the key's length",
  "RSA PKCS#1 v1.5 and PSS verification with SHA-256/384/512 succeeds exactly when the signature is as long as the modulus, is less than the modulus, and its public-key image is the one PKCS#1 encoding (or, for PSS, an encoding that RFC 8017 verification with a hash-length salt accepts) of the message hash. Every other byte string is rejected.",
  ["inputs"], "all public keys in the supported size range, messages and signature byte strings",
  "Padding forgeries (garbage after the hash, wrong or missing parameters, short padding, wrong salt, nonzero top bits) must each be constructed; sampled mutations of a valid signature randomise the whole block.",
  ["graviola/src/high/rsa.rs", "graviola/src/high/pkcs1.rs", "graviola/src/mid/rsa_pub.rs"],
  [("PKCS#1 encodings", "graviola/src/high/pkcs1.rs"), ("public operation", "graviola/src/mid/rsa_pub.rs")])
p("C14", "RSA signing returns a correct signature or an error, never a faulty one",
  "For every loadable RSA private key, message, hash and randomness, signing either fills the buffer with exactly a signature of modulus length that verifies under the key (for PKCS#1 v1.5 the unique deterministic one, for PSS one with the drawn salt), or returns an error; a consistent key whose primes differ by at most one bit in size always signs. A private key whose components are inconsistent with one another is never used to release a wrong signature.",
  ["inputs", "fault_sequences"], "all key sizes and components (including corrupted ones), messages, salts and buffer sizes",
  "CRT recombination borders and faulty components leak the factorisation if a bad signature escapes; tests use a handful of good keys.",
  ["graviola/src/high/rsa.rs", "graviola/src/mid/rsa_priv.rs", "graviola/src/high/pkcs1.rs", "graviola/src/low/posint.rs"],
  [("private operation", "graviola/src/mid/rsa_priv.rs")])
p("C15", "RSA key generation yields valid keys for any random source behaviour",
  "Whatever bytes the random source supplies, RSA key generation returns a key of exactly the requested size (two distinct primes of half that size, public exponent 65537, consistent private components) that signs and verifies and survives its encoding, or returns an error. A composite candidate never becomes a factor unless at least the FIPS 186-5 number of Miller-Rabin rounds with bases drawn from the source all failed to expose it; factors are never equal or of another size, and a failing random source ends the generation with an error. It ends in every case while the source goes on supplying fresh bytes.",
  ["inputs", "fault_sequences"], "all random-source outputs, including crafted prime candidates, constants and failures at any call",
  "Bad candidates (pseudoprimes, p = q, primes with e dividing p-1, top bits clear) have negligible probability from a good random source.",
  ["graviola/src/mid/rsa_priv.rs", "graviola/src/mid/rsa_priv", "graviola/src/high/rsa.rs"],
  [("prime generation", "graviola/src/mid/rsa_priv.rs")])
p("C16", "Key and signature decoders accept only strict encodings and round-trip",
  "Every decoder (PKCS#8, SEC1, PKCS#1, SubjectPublicKeyInfo, ASN.1 signatures) accepts only a complete, strictly DER, correctly tagged and typed encoding with nothing after it, yields exactly the key it encodes, and returns an error (never a panic or a wrong key) for every other byte string. Every exported encoding is exactly the standard one and re-imports to an equivalent key.",
  ["inputs"], "all byte strings, in particular all truncations, single-byte changes, length re-encodings and structural edits of valid encodings",
  "Parsers fail on the malformed input nobody thought of; the neighbourhood of each valid encoding is far larger than a test list.",
  ["graviola/src/high/asn1.rs", "graviola/src/high/asn1", "graviola/src/high/pkcs8.rs", "graviola/src/high/rsa.rs", "graviola/src/high/ecdsa.rs", "graviola/src/high/ed25519.rs"],
  [("DER parser", "graviola/src/high/asn1.rs"), ("PKCS#8", "graviola/src/high/pkcs8.rs")])
p("C17", "Output buffers: exact result in a large enough buffer, an error in a smaller one",
  "Every operation that writes into a caller-supplied buffer succeeds whenever the buffer is at least as long as the result, returns exactly the prefix it filled with the result, and leaves the rest of the buffer alone. With any shorter buffer it returns an error instead of panicking, truncating or writing out of bounds.",
  ["inputs"], "all buffer lengths for every exporting, signing and encoding operation",
  "Tests pass one comfortable buffer size.",
  ["graviola/src/high/ecdsa.rs", "graviola/src/high/rsa.rs", "graviola/src/high/ed25519.rs", "graviola/src/high/pkcs8.rs", "graviola/src/high/asn1.rs"],
  [("encoders", "graviola/src/high/asn1.rs")])
p("C18", "A failing random source always surfaces as an error and never as weak output",
  "If the system random source fails at any request during any operation, that operation returns an error; no key, nonce, salt, signature, ciphertext or secret is produced from unfilled or partial randomness. Operations that succeed consume the randomness their specification calls for and use all of it.",
  ["fault_sequences", "inputs"], "a failure at every random-source request of every operation",
  "Entropy failure never happens in tests; an ignored error yields predictable keys.",
  ["graviola/src/mid/rng.rs", "graviola/src/lib.rs", "graviola/src/mid/x25519.rs", "graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "graviola/src/mid/mlkem768.rs", "graviola/src/high/ecdsa.rs", "graviola/src/high/rsa.rs", "graviola/src/high/ed25519.rs"],
  [("random source", "graviola/src/mid/rng.rs")])
p("C19", "Secret-bearing values are erased from memory when dropped",
  "When a value that holds secret key material (symmetric cipher keys, key-agreement private keys and shared secrets, signing keys, ML-KEM decapsulation keys and secrets) is dropped, no part of that secret remains in the memory the value occupied. This holds for every key, every way of creating the value and every use before the drop.",
  ["inputs", "histories"], "all secret-holding types, creation paths, prior operations and key contents",
  "A test on one key and one constructor does not notice a field or a path that is skipped.",
  ["graviola/src/low/generic/zeroise.rs", "graviola/src/mid/aes_gcm.rs", "graviola/src/mid/chacha20poly1305.rs", "graviola/src/mid/xchacha20poly1305.rs", "graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "graviola/src/mid/x25519.rs", "graviola/src/mid/mlkem768.rs", "graviola/src/mid/rsa_priv.rs", "graviola/src/mid/ed25519.rs"],
  [("Drop implementations", "graviola/src/low/generic/zeroise.rs")])
p("C20", "No operation reads or writes memory outside the buffers it was given",
  "For every operation, every input length and every buffer alignment, the library touches only the bytes of the slices it was handed (and its own memory), at both ends. Input buffers are never modified and outputs are written only within their bounds.",
  ["inputs", "configurations"], "all lengths and alignments, on every accelerated code path",
  "Over-reads are silent unless the neighbouring page is unmapped; assembly is invisible to sanitizers.",
  ["graviola/src/low/x86_64", "graviola/src/low/generic", "graviola/src/mid/aes_gcm.rs", "graviola/src/mid/sha2.rs"],
  [("raw-pointer kernels", "graviola/src/low/x86_64")])
p("C21", "Executed instructions and memory addresses do not depend on secret values",
  "For operations on secrets (scalar multiplication, key agreement, ECDSA/Ed25519/RSA signing, AEAD, tag comparison, ML-KEM decapsulation), the sequence of instructions executed and of memory addresses accessed is the same for all secrets of the same public shape, and no division operates on secrets. Invalid tags or ciphertexts are not distinguishable by where a comparison first differs.",
  ["inputs"], "all secret keys, shared secrets, nonces, tags and messages of a given public length",
  "A secret-dependent branch or table access computes correct results, so functional tests cannot see it.",
  ["graviola/src/low/ct.rs", "graviola/src/low/generic/ct_equal.rs", "graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "graviola/src/mid/rsa_priv.rs", "graviola/src/low/posint.rs", "graviola/src/mid/mlkem768.rs", "graviola/src/low/x86_64"],
  [("constant-time selection and comparison", "graviola/src/low/ct.rs")])
p("C22", "Operations are independent of history and of concurrent operations",
  "The result of every operation depends only on its own inputs and the randomness it draws: not on which operations ran before it on the same thread, on earlier failures, or on operations running concurrently in other threads, including ones sharing the same key value by reference. Shared key objects never change through use.",
  ["histories", "schedules"], "all operation sequences up to a depth and all interleavings of threads at their random-source and operation boundaries",
  "Leaked CPU state, cached state or shared mutable state shows only under particular orders or interleavings.",
  ["graviola/src/low/entry.rs", "graviola/src/low/x86_64/cpu.rs", "graviola/src/high/rsa.rs", "graviola/src/high/ecdsa.rs", "graviola/src/mid/aes_gcm.rs"],
  [("entry guard", "graviola/src/low/entry.rs")])
p("C23", "TLS record protection round-trips and rejects every altered record",
  "For each supplied TLS 1.2 and TLS 1.3 cipher suite, a record protected by one side is restored exactly by the other side for every content type, payload up to the maximum size and sequence number, in the standard wire format. Altered, truncated, replayed or reordered records, records under another sequence number, type or version, and plaintexts over the protocol maximum are rejected with an error.",
  ["inputs", "histories"], "all suites, payload sizes, sequence numbers, alterations and record sequences",
  "Handshake tests move a few short records in order; nonce or additional-data mistakes on both sides cancel out.",
  ["rustls-graviola/src/aead.rs", "rustls-graviola/src/suites.rs"],
  [("record encrypt/decrypt", "rustls-graviola/src/aead.rs")])
p("C24", "Session tickets are authentic, confidential, and expire as configured",
  "A ticket produced by the ticketer decrypts, to exactly the original state, only by the same ticketer and only within its lifetime (until the key that made it has been rotated out); any altered, truncated, foreign or expired ticket is refused without panicking. This holds across key rotations, for any sequence of encryptions, decryptions and clock advances, and with any number of threads; every ticket uses fresh randomness.",
  ["histories", "schedules", "inputs"], "all sequences of encrypt/decrypt/advance-clock operations, all ticket alterations, all thread interleavings",
  "Rotation happens over hours, and races between size tracking and rejection need particular interleavings.",
  ["rustls-graviola/src/ticketer.rs"],
  [("ticketer", "rustls-graviola/src/ticketer.rs")])
p("C25", "TLS key exchange agrees, uses standard shares, and rejects malformed ones",
  "Each offered TLS key-exchange group (hybrid X25519MLKEM768, X25519, P-256, P-384) yields key shares in the standard format, and client and server always derive the same standard shared secret, in the hybrid's component order. Any share of the wrong length or with an invalid component is refused with an error.",
  ["inputs", "fault_sequences"], "all groups, key-share byte strings and lengths, and random-source outcomes",
  "Handshakes between two copies of the same code agree even when both deviate from the standard.",
  ["rustls-graviola/src/kx.rs", "rustls-graviola/src/kx"],
  [("key exchange", "rustls-graviola/src/kx.rs")])
p("C26", "TLS signature schemes are chosen, produced and verified as the scheme names",
  "Loading a private key (PKCS#8, SEC1 or PKCS#1) for TLS yields a signer that offers exactly the schemes its key type supports, picks one only from the peer's list, and produces signatures valid under precisely that scheme. Each signature-verification algorithm offered accepts exactly signatures of its own scheme under keys of its own type and rejects all others.",
  ["inputs", "configurations"], "all key types and encodings, all subsets and orders of offered schemes, all scheme/key/signature combinations",
  "A scheme-to-algorithm table with a wrong entry works as long as both sides share it.",
  ["rustls-graviola/src/sign.rs", "rustls-graviola/src/verify.rs"],
  [("signer", "rustls-graviola/src/sign.rs"), ("verification algorithms", "rustls-graviola/src/verify.rs")])
p("C27", "Every advertised TLS configuration completes handshakes and moves data intact",
  "For every combination of protocol version, cipher suite, key-exchange group and certificate key type the provider advertises, a client and a server complete a full handshake, agree on exported keys, transfer data intact in both directions across key updates, and can resume. Corrupting any handshake or data record makes the connection fail rather than deliver altered data.",
  ["configurations", "histories", "fault_sequences"], "all advertised configurations, message interleavings, and single-record corruptions",
  "The configuration product is larger than the handshake tests, and active tampering at each record is not tested.",
  ["rustls-graviola/src/lib.rs", "rustls-graviola/src"],
  [("crypto provider", "rustls-graviola/src/lib.rs")])
p("C28", "No secret intermediate stays behind in the CPU's vector registers",
  "When an operation on secrets (AEAD, key agreement, ML-KEM, signing, private-key import or export) returns, whether it succeeds or fails, no vector register still holds secret-dependent data other than data its caller holds anyway (its arguments and results). This covers the whole register file of the processor, whichever code path was chosen.",
  ["inputs", "configurations", "fault_sequences"], "all secret operations, input lengths, error paths and CPU feature configurations",
  "The registers are not part of any result, and which of them are used depends on the processor, the code path and the input length.",
  ["graviola/src/low/entry.rs", "graviola/src/low/x86_64/cpu.rs"],
  [("leave_cpu_state", "graviola/src/low/x86_64/cpu.rs"), ("Entry", "graviola/src/low/entry.rs")])
p("C29", "TLS transcript hashes, HKDF and PRF equal the standards in every history",
  "For every cipher suite, the hash the provider names gives the standard digest of what a context was fed, for every history of updates, forks, peeks and finishes, with forks independent of one another. HKDF extraction and expansion, HMAC, and the TLS 1.2 PRF equal RFC 5869, RFC 2104 and RFC 5246 for every secret, salt, label, split and output length.",
  ["inputs", "histories"], "all suites, context operation histories, secret, salt, label and output lengths",
  "Two ends with the same deviation agree with each other, and transcript forks happen at few points in a handshake.",
  ["rustls-graviola/src/hash.rs", "rustls-graviola/src/hmac.rs", "rustls-graviola/src/suites.rs"],
  [("hash contexts", "rustls-graviola/src/hash.rs"), ("HMAC keys", "rustls-graviola/src/hmac.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
