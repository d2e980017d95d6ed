#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so statements are easy to review and edit).
import json, os
P=[]
G='graviola/src/'; R='rustls-graviola/src/'
def p(id,title,statement,over,text,why,files,mechanism,**kw):
    for f in files: assert os.path.exists('/repo/'+f),(id,f)
    a={"files":files,"mechanism":[{"name":m,"where":files[min(i,len(files)-1)]} for i,m in enumerate(mechanism if isinstance(mechanism,list) else [mechanism])],"hook_needed":None}; a.update(kw)
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","SHA-2 digests are right however the message is fed",
 "For every message, SHA-256, SHA-384 and SHA-512 return the FIPS 180-4 digest. The result depends only on the concatenation of the bytes fed: any partition into updates (empty ones included), any copy of a context taken midway, and any supported CPU give the same digest.",
 ["inputs","histories","configurations"],"all messages, all sequences of update/clone/finish, all CPU feature sets the library supports",
 "Tests use a few fixed vectors and a handful of chunkings on the host CPU; block-boundary and buffering faults need particular length/partition/CPU combinations.",
 [G+"mid/sha2.rs",G+"low/generic/blockwise.rs",G+"low/generic/sha256.rs",G+"low/generic/sha512.rs",G+"low/x86_64/sha256.rs",G+"low/x86_64/sha512.rs",G+"high/hash.rs"],
 "streaming contexts buffer partial blocks and dispatch to SHA-NI/AVX2/generic compression")
p("C02","SHA-3 and SHAKE outputs are right however input and output are split",
 "For every message, SHA3-256/SHA3-512 return the FIPS 202 digest, and SHAKE128/SHAKE256 yield the FIPS 202 output stream. Splitting the absorbed input or the squeezed output into any sequence of pieces does not change the bytes.",
 ["inputs","histories"],"all messages, all absorb partitions and all squeeze partitions",
 "Tests use short vectors; sponge-rate boundaries in both absorb and squeeze directions need specific split patterns.",
 [G+"mid/sha3.rs",G+"low/x86_64/sha3_keccak_f1600.rs"],"sponge absorb/squeeze state machine over a rate-sized buffer")
p("C03","HMAC is right for every key and message and verifies only the exact tag",
 "For every key length and message, fed in any pieces and from any copied context, the HMAC over SHA-256/384/512 equals RFC 2104. Tag verification succeeds for exactly the full correct tag and fails for every other value or length.",
 ["inputs","histories"],"all keys (shorter, equal, longer than a block), all messages, partitions, clone points and candidate tags",
 "Tests cover RFC vectors; key-length boundaries, reuse of cloned contexts and truncated or extended tags are sampled little.",
 [G+"high/hmac.rs",G+"high/hash.rs",G+"low/ct.rs"],"inner/outer hash contexts, constant-time comparison of the whole output")
p("C04","AES-GCM encryption matches the standard for all lengths and CPUs",
 "For every 128- or 256-bit key, 96-bit nonce, associated data and plaintext, encryption in place yields the SP 800-38D ciphertext and tag, and decryption of that returns the plaintext. This holds for every length combination, buffer alignment and supported CPU feature set.",
 ["inputs","configurations"],"all keys, nonces, AAD/plaintext lengths and alignments, with and without the wide-vector code paths",
 "Fixed vectors hit few lengths; the code has separate paths for 16-, 128- and 256-byte strides and for tails, chosen by length and CPU.",
 [G+"mid/aes_gcm.rs",G+"low/x86_64/aes_gcm.rs",G+"low/x86_64/aes.rs",G+"low/x86_64/ghash.rs"],"stitched CTR/GHASH main loops plus tail handling, runtime dispatch to AVX-512")
p("C05","ChaCha20-Poly1305 and XChaCha20-Poly1305 match their definitions",
 "For every key, nonce, associated data and plaintext, encryption yields the RFC 8439 (or, for 192-bit nonces, the draft-irtf-cfrg-xchacha) ciphertext and tag, and decryption of that returns the plaintext. This includes inputs that drive the authenticator's accumulator to the edges of its modulus.",
 ["inputs"],"all keys, nonces, AAD/plaintext lengths, alignments and accumulator values",
 "Random vectors practically never reach the modular-reduction edges of the authenticator, and length-specific fast paths are sampled sparsely.",
 [G+"mid/chacha20poly1305.rs",G+"mid/xchacha20poly1305.rs",G+"low/x86_64/chacha20.rs",G+"low/generic/poly1305.rs"],"multi-block keystream paths by length; limb-based one-time authenticator")
p("C06","AEAD decryption accepts only the exact sealed message",
 "For every AEAD, decryption succeeds only when key, nonce, associated data, ciphertext and the full 16-byte tag are exactly those of an encryption; any change to any of them, including a tag of another length, gives an error. On error no plaintext is left in the caller's buffer.",
 ["inputs","configurations"],"all single and multiple modifications of all messages, every tag length, every CPU feature set",
 "The existing tests reject a handful of hand-modified messages; the official negative vectors are not run here.",
 [G+"mid/aes_gcm.rs",G+"mid/chacha20poly1305.rs",G+"mid/xchacha20poly1305.rs",G+"low/mod.rs",G+"low/x86_64/cpu.rs"],"tag recomputed over AAD, ciphertext and lengths, compared in full; buffer wiped on mismatch")
p("C07","X25519 computes RFC 7748 for every key and peer value",
 "For every private key and every 32-byte peer value, including non-canonical and twist values, the shared secret equals RFC 7748, and an all-zero result is reported as an error. Both sides of any exchange agree and imported keys export unchanged.",
 ["inputs"],"all 2^256 private keys and peer encodings, including low-order, non-canonical and high-bit-set ones",
 "Tests use RFC vectors; field-arithmetic edges and non-canonical peers are rare under uniform sampling.",
 [G+"mid/x25519.rs",G+"low/x86_64/curve25519_x25519.rs",G+"low/x86_64/curve25519_x25519base.rs"],"clamping, ladder, all-zero check")
p("C08","P-256 and P-384 keys and shared secrets are computed correctly",
 "For every private scalar in range, the derived public key is that multiple of the curve's base point, and for every valid peer point the shared secret is the x-coordinate of the product. Ephemeral and static keys behave identically and both parties always agree.",
 ["inputs"],"all scalars 1..n-1 (including near 0, n, window boundaries and sparse/dense patterns) and all valid peer points",
 "Uniform sampling never meets scalars or coordinates at window, carry or near-order edges; tests check few products against an independent implementation.",
 [G+"mid/p256.rs",G+"mid/p384.rs",G+"mid/p256/precomp.rs",G+"mid/p384/precomp.rs"],"Booth-recoded windowed multiplication with precomputed tables, Jacobian arithmetic")
p("C09","Invalid elliptic-curve keys are never accepted",
 "A P-256 or P-384 public key is accepted exactly when it is the uncompressed encoding, of the right length, of a curve point with both coordinates in canonical range; a private key exactly when its value lies in 1..n-1. An accepted key re-encodes to the same value.",
 ["inputs"],"all byte strings offered as public or private keys",
 "The official invalid-point vectors are not run here, and near-valid encodings (coordinate plus modulus, twist points, truncated, compressed, hybrid forms) must be constructed.",
 [G+"mid/p256.rs",G+"mid/p384.rs",G+"mid/util.rs"],"format and length checks, curve equation, scalar range check")
p("C10","ECDSA verification accepts exactly the valid signatures",
 "For P-256 and P-384 with SHA-256/384/512, verification accepts a signature exactly when it is valid under SEC 1 for that key, message and hash. The fixed-length form must have the exact length and the ASN.1 form must be the canonical DER encoding; the message may be given in any pieces.",
 ["inputs"],"all keys, messages, hash choices and signature byte strings",
 "Valid signatures with extreme values (r, s or digest near 0 or the order, sums meeting in the doubling or cancelling case) and near-valid forgeries must be constructed; the official vectors are not run here.",
 [G+"high/ecdsa.rs",G+"high/curve.rs",G+"mid/p256.rs",G+"mid/p384.rs",G+"high/asn1.rs",G+"high/asn1/pkix.rs"],"range checks, hash truncation, two-scalar combination, x-coordinate comparison, DER parsing")
p("C11","ECDSA signatures always verify and never reuse a nonce",
 "Every signature produced, in either encoding and for any hash, verifies under the matching public key with an independent implementation and is canonically encoded. The per-signature nonce depends on the key, the message digest and fresh randomness, so it never repeats across different messages even if the random source repeats, and repeats of a message differ when the random source does.",
 ["inputs","histories"],"all keys, messages, hash choices and random-source outputs (stuck, repeated, adversarial)",
 "Signing is randomised, so tests only check that a few signatures verify; they cannot see nonce derivation or rare encodings (short r or s).",
 [G+"high/ecdsa.rs",G+"high/hmac_drbg.rs",G+"mid/rng.rs",G+"high/asn1.rs"],"RFC 6979 derivation hedged with random bytes; signature encoding")
p("C12","Ed25519 signs deterministically and verifies exactly per RFC 8032",
 "For every seed and message the signature and public key are those of RFC 8032. Verification accepts exactly the 64-byte signatures whose scalar is below the group order and whose first half is the canonical encoding of the recomputed point, for public keys that decode canonically to a curve point.",
 ["inputs"],"all seeds, messages, public-key encodings and signature byte strings, including small-order and non-canonical ones",
 "Malleated scalars, non-canonical and small-order encodings need construction; the official vectors are not run here.",
 [G+"mid/ed25519.rs",G+"high/ed25519.rs",G+"low/x86_64/edwards25519_decode.rs",G+"low/x86_64/edwards25519_scalarmuldouble.rs"],"scalar range check, decompression, cofactorless equation compared by encoding")
p("C13","RSA verification accepts exactly the valid signatures",
 "For every public key with a 2048- to 8192-bit modulus, PKCS#1 v1.5 and PSS verification (SHA-256/384/512, salt as long as the hash) accepts a signature exactly when RFC 8017 does: it has the length of the modulus, is below it, and decodes to exactly the expected encoding of the message.",
 ["inputs"],"all supported moduli and exponents, messages, and signature byte strings",
 "Near-valid encodings (padding shortened or altered, missing NULL, wrong digest identifier, trailing data, altered salt length or separator, extended or truncated signatures, odd modulus sizes) must be constructed; the official vectors are not run here.",
 [G+"high/rsa.rs",G+"high/pkcs1.rs",G+"mid/rsa_pub.rs",G+"low/posint.rs"],"public operation, then comparison against re-encoding (PKCS#1) or PSS decoding")
p("C14","RSA signing only ever returns correct signatures",
 "Signing with a consistent private key returns a signature that an independent implementation accepts, for every message, hash and padding, and PKCS#1 v1.5 signing is deterministic while PSS uses fresh salt from the random source. With an inconsistent private key, signing fails rather than returning a wrong signature.",
 ["inputs","fault_sequences"],"all keys (sizes 2048-8192, prime shapes, exponents), messages, hashes, and single or multiple corruptions of private components",
 "Tests use one key per size; CRT edge cases and corrupted components are not explored.",
 [G+"high/rsa.rs",G+"high/pkcs1.rs",G+"mid/rsa_priv.rs",G+"mid/rsa_pub.rs",G+"low/posint.rs"],"CRT private operation checked by the public operation before release")
p("C15","Generated RSA keys are valid keys of the requested size",
 "Every generated RSA key has a modulus of exactly the requested bit length that is the product of two distinct primes of half that length, exponent 65537, and private components consistent with them. The primes come from the random source, and a source that repeats a prime yields an error, not a weak key.",
 ["inputs","fault_sequences"],"all random-source outputs, including ones yielding composites with no small factors, primes unsuitable for the exponent, equal primes and failures",
 "Generation is random and slow, so tests run it a few times and only check that signing works.",
 [G+"mid/rsa_priv/generate.rs",G+"mid/rsa_priv.rs",G+"low/posint.rs"],"candidate sampling, small-factor sieve, Miller-Rabin, derivation of CRT parameters")
p("C16","ML-KEM-768 conforms to FIPS 203 including implicit rejection",
 "Key generation, encapsulation and decapsulation produce exactly the FIPS 203 bytes for the same inputs, so both sides always agree. A ciphertext that was not produced by encapsulation yields the specified pseudo-random secret, never an error, and an encapsulation key with any coefficient out of range is refused.",
 ["inputs"],"all seeds, messages, ciphertexts and encapsulation-key byte strings",
 "Rejection-sampling tails and coefficient edge values are rare; tests use a few vectors and do not compare against an independent implementation on malformed ciphertexts.",
 [G+"mid/mlkem768.rs",G+"mid/sha3.rs"],"matrix expansion by rejection sampling, NTT arithmetic, re-encryption comparison")
p("C17","Keys survive export and import unchanged in every format",
 "For every key of every kind, exporting to any supported format and importing again gives a key with the same public key, the same exported bytes and interoperable signatures. Exports are canonical DER that an independent implementation accepts, and an output buffer that is too small gives an error and never a truncated encoding.",
 ["inputs"],"all keys (including short scalars, all exponents, all modulus sizes), all formats, all output-buffer sizes",
 "Tests round-trip a few stored files; leading-zero, high-bit and buffer-size edges are not explored.",
 [G+"high/ecdsa.rs",G+"high/ed25519.rs",G+"high/rsa.rs",G+"high/pkcs8.rs",G+"high/asn1.rs",G+"high/asn1/pkix.rs"],"DER encoder/decoder, fixed-width scalars, integer sign handling")
p("C18","Malformed or mismatched key encodings are refused",
 "Key import accepts only complete, canonical DER of the expected structure, algorithm, parameters and version, with nothing missing or left over. A private-key encoding with a separate public-key field (SEC.1 or PKCS#8 v2) that does not match the private key is refused.",
 ["inputs"],"all byte strings; in particular all structured and byte-level mutations of valid encodings",
 "Tests try truncations and a few bad files; non-canonical lengths, trailing data, wrong tags, versions, parameters and swapped public keys form a large space.",
 [G+"high/asn1.rs",G+"high/asn1/pkix.rs",G+"high/pkcs8.rs",G+"high/ecdsa.rs",G+"high/ed25519.rs",G+"high/rsa.rs"],"strict DER parser with end checks, version/algorithm/parameter and public-key comparison")
p("C19","No input makes the library crash, hang or touch memory out of bounds",
 "For every byte string passed to any parsing, verifying, decrypting or key-agreement function, and every buffer length and alignment, the call returns normally: no panic, no hang, no fault. Only the bytes of the buffers it was given are read or written.",
 ["inputs"],"all inputs to all public functions, with every buffer placed against inaccessible memory",
 "Most of the work is in assembler and unsafe vector code, where an over-read of a few bytes is invisible to an ordinary test.",
 [G+"low/x86_64",G+"low/posint.rs",G+"high/asn1.rs",G+"high/rsa.rs",G+"high/ecdsa.rs",G+"mid/aes_gcm.rs",G+"mid/sha2.rs"],"hand-written assembler and intrinsics with raw pointers; DER parser on untrusted input")
p("C20","Random failures and bad randomness never yield a usable weak result",
 "Whenever the system random source fails at any point, the operation that needed it reports an error and returns no key, nonce or signature. Otherwise generated keys and nonces are exactly determined by the random bytes drawn, out-of-range draws are discarded rather than reduced, and a source that never gives a usable value ends in an error.",
 ["fault_sequences","inputs"],"all sequences of random-source outputs and failures at every draw of every generating operation",
 "Tests use the real random source, which never fails or returns edge values.",
 [G+"mid/rng.rs",G+"mid/p256.rs",G+"mid/p384.rs",G+"mid/x25519.rs",G+"mid/mlkem768.rs",G+"high/ed25519.rs",G+"high/ecdsa.rs",G+"high/pkcs1.rs",R+"ticketer.rs",R+"kx.rs"],"every generating operation draws from the operating system through one source")
p("C21","Results do not depend on optional CPU features",
 "For every operation and input, the result is identical on every CPU the library supports: enabling or disabling any combination of optional instruction-set extensions changes no output byte and no accept/reject decision.",
 ["configurations","inputs"],"all combinations of optional CPU features and all inputs to all operations",
 "The test suite runs once, with the features of the machine it happens to run on.",
 [G+"low/x86_64/cpu.rs",G+"low/x86_64/aes_gcm.rs",G+"low/x86_64/sha256.rs",G+"low/x86_64/sha512.rs",G+"low/x86_64/ghash.rs"],"runtime feature detection chooses between implementations")
p("C22","Key material is erased when a key or shared secret is dropped",
 "When any private key, AEAD key, or shared secret is dropped, none of its secret bytes, nor values derived from it that it stored, remain in the memory it occupied. This holds for every key value and however the key was created or used before.",
 ["inputs","histories"],"all key values, key kinds, constructors and prior uses",
 "The existing test drops one fixed key per kind straight after construction and does not cover used keys, shared secrets, post-quantum keys or the TLS objects that own keys.",
 [G+"low/mod.rs",G+"low/x86_64/cpu.rs",G+"mid/aes_gcm.rs",G+"mid/chacha20poly1305.rs",G+"mid/xchacha20poly1305.rs",G+"mid/p256.rs",G+"mid/p384.rs",G+"mid/x25519.rs",G+"mid/ed25519.rs",G+"mid/rsa_priv.rs",G+"mid/mlkem768.rs"],"Drop implementations overwrite stored secrets")
p("C23","TLS record protection interoperates and rejects every altered record",
 "For every TLS 1.2 and 1.3 cipher suite, sequence number and record, the sealed record is byte-for-byte what the protocol specifies and another implementation opens it, and vice versa. Opening a record fails if its header, body, tag, length or sequence number differ from what was sealed, or if the plaintext exceeds the protocol's limit.",
 ["inputs","histories"],"all keys, IVs, sequence numbers, record types, payload sizes and chunkings, and all modifications",
 "Tests run whole connections with a few short records; explicit-nonce construction, large sequence numbers, oversize and altered records are not reached.",
 [R+"aead.rs",R+"suites.rs"],"nonce and additional-data construction around the AEADs")
p("C24","TLS key exchange agrees with other implementations and refuses bad shares",
 "For every supported group, including the post-quantum hybrid, both roles derive the same secret as an independent implementation and the secret has the specified layout. A peer share of the wrong length or invalid content in any component is refused with an invalid-share error.",
 ["inputs"],"all groups, roles, peer implementations and peer share byte strings",
 "Tests do a few honest exchanges per group; malformed, mixed or boundary shares are not sent.",
 [R+"kx.rs",R+"kx/hybrid.rs",R+"kx/mlkem.rs"],"share splitting/concatenation, validation in the underlying key agreement")
p("C25","Session tickets decrypt only if issued by this ticketer, unmodified",
 "A ticket issued for any non-empty session state decrypts to exactly that state, in any order and number, from any thread. Any other byte string, including altered, truncated, extended or spliced tickets and tickets from another instance, is refused without error, as is, in a ticketer in use, a ticket past its advertised lifetime; two tickets never share a nonce.",
 ["inputs","histories","schedules"],"all sequences of issue/open operations from several threads, with all tampering of tickets",
 "Tests issue one ticket and check a couple of corruptions.",
 [R+"ticketer.rs"],"random-nonce authenticated encryption with a key name as associated data")
p("C26","TLS signing keys and verifiers match their advertised schemes",
 "A loaded private key signs only with a scheme that was offered and that its type supports, preferring the strongest, and the signature verifies under that scheme and under the advertised public key in an independent implementation. Each verification algorithm accepts exactly the valid signatures of its own scheme and key type, and rejects every other algorithm's.",
 ["inputs","configurations"],"all key kinds and encodings, all subsets and orders of offered schemes, all messages, all verifier/signature pairings",
 "Tests perform handshakes with default scheme lists only.",
 [R+"sign.rs",R+"verify.rs",R+"lib.rs"],"scheme selection and dispatch to the signature primitives; algorithm tables")
p("C27","TLS connections deliver exactly the sent bytes or fail",
 "For every suite, group, certificate type, version, direction and peer implementation, a handshake completes, both sides derive the same keys, and application data arrives intact and in order, also on resumption. If any byte in transit is altered, the connection fails and no altered application data is delivered.",
 ["inputs","histories","configurations","fault_sequences"],"all negotiated parameter combinations, data sizes, fragmentations, resumptions and single-byte corruptions in transit",
 "Tests run a fixed set of combinations once each with a short message and no corruption.",
 [R+"lib.rs",R+"suites.rs",R+"aead.rs",R+"hash.rs",R+"hmac.rs",R+"kx.rs",R+"sign.rs",R+"verify.rs",R+"ticketer.rs"],"CryptoProvider assembled from all components and driven by rustls")
p("C28","Keys and contexts can be shared and used concurrently",
 "Using the same key object from any number of threads at once gives exactly the results of using it from one thread, for encryption, decryption, signing, verification, key agreement and hashing of cloned contexts.",
 ["schedules","inputs"],"all interleavings of operations on shared keys by several threads, including the first ever use in the process",
 "Tests are single-threaded per process.",
 [G+"low/entry.rs",G+"low/x86_64/cpu.rs",G+"mid/aes_gcm.rs",G+"mid/rsa_priv.rs",G+"mid/mlkem768.rs"],"immutable key objects and one-time CPU feature detection")
p("C29","Printing keys, secrets or errors reveals no secret",
 "Formatting any value that holds a private key, symmetric key, shared secret or ticket key (Debug in every style, Display), alone or inside rustls configuration objects, reveals none of the secret's bytes. The same holds for the errors returned when keys are malformed or operations fail.",
 ["inputs"],"all secrets, all printable types of both crates, all errors from damaged private keys",
 "No test looks at formatted output; whether a type prints its contents is decided by one derive line or one error message.",
 [G+"mid/p256.rs",G+"mid/p384.rs",G+"mid/mlkem768.rs",G+"error.rs",R+"sign.rs",R+"ticketer.rs"],"hand-written Debug impls that omit the fields; errors without payloads")
p("C30","What the processor does is independent of secrets",
 "For fixed public inputs and lengths, the instructions executed and the memory addresses accessed do not depend on secret values. This covers X25519 and P-256/P-384 key derivation and agreement, ECDSA, Ed25519 and RSA signing, ML-KEM encapsulation and decapsulation, AEAD sealing and opening, HMAC, hashing, and every comparison of authentication tags. RSA key generation (documented as not side-channel safe) and the parsing of encoded keys are outside it.",
 ["inputs","configurations"],"all pairs of secrets of equal length, on every supported CPU feature set",
 "Functional tests cannot see timing or access patterns; the crate's own ctgrind run is not part of the test suite, and a leak may show only for particular secrets (zero digits, short values, early differences).",
 [G+"low/ct.rs",G+"low/generic/ct_equal.rs",G+"low/generic/ct_copy.rs",G+"low/x86_64/bignum_point_select_p256.rs",G+"low/x86_64/bignum_copy_row_from_table.rs",G+"low/posint.rs",G+"mid/p256.rs",G+"mid/mlkem768.rs","README.md"],"full table scans, masks and conditional moves instead of branches and secret-indexed loads")
p("C31","Vector registers hold no secrets after a call",
 "When a public operation on secrets returns, normally or with an error, the vector registers (xmm/ymm/zmm 0-31 on x86-64) hold nothing that depends on its secrets other than what it returned. This covers AEAD sealing and opening, X25519 and P-256/P-384 key handling and agreement, ECDSA, Ed25519 and RSA signing, and ML-KEM encapsulation and decapsulation.",
 ["inputs","configurations"],"all keys, messages and lengths of every secret operation, on every supported CPU feature set",
 "No test looks at registers after a call, and which of them an operation uses depends on the CPU and the message length.",
 [G+"low/entry.rs",G+"low/x86_64/cpu.rs",G+"mid/aes_gcm.rs",G+"mid/chacha20poly1305.rs",G+"mid/x25519.rs",G+"mid/mlkem768.rs",G+"high/ecdsa.rs",G+"high/rsa.rs"],"an entry guard at each public function whose drop clears the vector registers")
p("C32","Only instructions the processor has are executed",
 "Whatever CPU the library runs on, it never executes an instruction of an extension that the CPU (or, for vector state, the operating system) does not offer: using any documented operation of the graviola crate, as the first use in a process, on a CPU without the features the README requires either panics beforehand or works without them. On every CPU that has the required features, with any combination of optional ones (SHA, VAES, VPCLMULQDQ, AVX-512 subsets), every operation works and gives the same result.",
 ["configurations","inputs"],"all subsets of CPU features, all documented operations as first use, all inputs",
 "Tests run on one CPU; the debug-only toggles used by CI deny a few optional features and do not notice an instruction that should not have been executed.",
 [G+"low/x86_64/cpu.rs",G+"low/entry.rs",G+"low/inline_assembly_safety.rs",G+"mid/sha2.rs",G+"low/x86_64/sha256_mux.rs",G+"low/x86_64/sha512_mux.rs",G+"low/x86_64/aes_gcm.rs",G+"low/x86_64/aes.rs",G+"low/x86_64/ghash.rs","README.md","COMPATIBILITY.md"],"an entry guard at each public function that verifies the required features, and token types for the optional ones")
p("C33","Calls depend on their inputs alone and keep the caller's machine state",
 "Whatever the CPU registers, arithmetic flags, vector and mask registers, floating-point control state and unused stack memory contain when an operation of the graviola crate is called, its result is that given by its arguments (and random draws) alone. When it returns, the registers the platform ABI reserves for the caller (rbx, rbp, rsp, r12-r15), the direction flag, the MXCSR and x87 control settings and the empty x87 stack are as they were.",
 ["inputs","configurations"],"all machine states at the call, all operations and inputs, on every supported CPU feature set",
 "Tests call from one compiled context; an undeclared clobber or a register used before it is set shows only where the compiler happens to keep something there.",
 [G+"low/inline_assembly_safety.rs",G+"low/x86_64/bignum_montmul.rs",G+"low/x86_64/p256_montjadd.rs",G+"low/x86_64/curve25519_x25519.rs",G+"low/x86_64/sha3_keccak_f1600.rs",G+"low/x86_64/cpu.rs",G+"low/x86_64/aes_gcm.rs"],"operands and clobbers declared on each inline assembly block")
p("C34","What a process did before does not influence later results",
 "Each operation gives exactly the result (or error) that it gives as the first use of the library in a fresh process with the same inputs and random draws, whatever was done before it in the process: successful and failed operations, failed random draws, on the same key object or others (even ones that agree in part of their key, message, nonce or point), many thousands of repetitions, other threads, objects dropped and made again.",
 ["histories","inputs"],"all histories of operations on related keys and inputs, on every supported CPU feature set",
 "Tests run each operation a few times, in the same order, with unrelated keys; a stale cache, a counter or a flag that outlives its operation shows only with particular histories.",
 [G+"mid/aes_gcm.rs",G+"mid/mlkem768.rs",G+"mid/rng.rs",G+"mid/x25519.rs",G+"mid/p256.rs",G+"mid/p384.rs",G+"mid/rsa_priv.rs",G+"high/ecdsa.rs",G+"high/ed25519.rs",G+"high/hmac.rs","rustls-graviola/src/kx.rs"],"no mutable state outside the objects of the caller, and operations on keys take them by shared reference")
p("C35","What the library computes does not depend on how it was compiled",
 "Every operation of both crates gives the same result or error for the same inputs and random draws whether the crates were compiled without optimisation, as a release build, or for size, with or without debug assertions and overflow checks: no build computes something else, panics or accepts what another refuses.",
 ["builds","inputs"],"all inputs, under each way of compiling the crates (optimisation level, debug assertions, overflow checks, code generation units)",
 "The tests run in one debug build; users run release builds. A statement inside an assertion, an arithmetic wrap that only debug builds trap, or inline assembly that misstates what it reads or clobbers shows only in the other build.",
 [G+"lib.rs",G+"low/macros.rs",G+"low/inline_assembly_safety.rs",G+"low/entry.rs",G+"mid/aes_gcm.rs",G+"high/rsa.rs","rustls-graviola/src/lib.rs"],"inline assembly declares all it reads, writes and clobbers, and no assertion has an effect")
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
