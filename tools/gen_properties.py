#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so they can be edited in one place."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

ML = "ml-kem/src/"
prop("C01", "ML-KEM decapsulation never fails and rejects implicitly",
 "For every decapsulation key and every ciphertext of the parameter set's length, ML-KEM decapsulation succeeds. It returns the shared key hashed from the decrypted message and the stored public-key hash exactly when re-encrypting that message reproduces the received ciphertext in every byte, and otherwise returns J(z || received ciphertext), z being the key's secret rejection value.",
 ["inputs"], "all decapsulation keys, all ciphertexts, each of the three parameter sets",
 "The ACVP vectors contain ten ciphertexts per parameter set; a comparison that skips one byte, or a rejection key that drops part of its input, is only visible on ciphertexts the vectors do not contain.",
 [ML+"kem.rs", ML+"pke.rs", ML+"crypto.rs"],
 [("re-encryption and comparison over the whole ciphertext", ML+"kem.rs Decapsulate::decapsulate"), ("masked selection of K' or J(z||c)", ML+"kem.rs Decapsulate::decapsulate")],
 [dict(name="z", meaning="implicit-rejection secret", where=ML+"kem.rs DecapsulationKey"), dict(name="h", meaning="hash of the encapsulation key", where=ML+"kem.rs EncapsulationKey")],
 ["return value of decapsulate"])
prop("C02", "ML-KEM encapsulation derives key and coins from message and key hash",
 "For every encapsulation key and random message m, ML-KEM encapsulation succeeds and returns K and Encrypt(ek, m, r) where (K, r) are the two 32-byte halves of SHA3-512(m || SHA3-256(encoded ek)). Randomized encapsulation takes m as exactly the next 32 bytes of the caller's RNG, unmodified, and is otherwise identical to the deterministic form.",
 ["inputs"], "all encapsulation keys, all messages / RNG outputs, each parameter set",
 "ACVP gives 25 vectors per parameter set through the deterministic entry point only; the randomized entry point is tested only for self-consistency, so weakened randomness or a truncated hash input goes unnoticed.",
 [ML+"kem.rs", ML+"crypto.rs"], [("G(m || H(ek)) split", ML+"kem.rs encapsulate_deterministic_inner"), ("m drawn from the RNG", ML+"kem.rs Encapsulate::encapsulate")],
 observe=["return value of encapsulate / encapsulate_deterministic"])
prop("C03", "ML-KEM key generation expands its seeds as FIPS 203 specifies",
 "For every pair of seeds (d, z), key generation returns the keys of FIPS 203: (rho, sigma) = SHA3-512(d || k), matrix A from SHAKE128(rho || column || row), secret and error vectors from SHAKE256(sigma || nonce) with nonces 0..k-1 and k..2k-1, t = A*s + e in the NTT domain, stored hash SHA3-256(ek), and z kept verbatim. The encapsulation key returned beside a decapsulation key is the one embedded in it.",
 ["inputs"], "all seed pairs, each parameter set",
 "25 ACVP vectors per parameter set; conditional deviations, or ones in the randomized path (never compared to a known answer), are not sampled.",
 [ML+"kem.rs", ML+"pke.rs", ML+"algebra.rs", ML+"crypto.rs"], [("K-PKE.KeyGen", ML+"pke.rs DecryptionKey::generate"), ("ML-KEM.KeyGen_internal", ML+"kem.rs generate_deterministic")])
prop("C04", "Public-key encryption and decryption compute the FIPS 203 equations",
 "For every key, message and 32-byte coin string, the ciphertext is (Compress_du(NTTinv(A^T r) + e1), Compress_dv(NTTinv(t.r) + e2 + Decompress_1(m))) with r, e1, e2 sampled from SHAKE256(coins || nonce) under 2k+1 distinct nonces 0..2k and A^T derived from rho with transposed indices. For every key and ciphertext, decryption returns Compress_1(v - NTTinv(s.NTT(u))) with u, v decompressed from the two ciphertext parts.",
 ["inputs"], "all keys, messages, coins and ciphertexts, each parameter set",
 "Vectors sample a few dozen inputs; nonce reuse or index mix-ups conditional on data or on one parameter set are not excluded by them.",
 [ML+"pke.rs", ML+"algebra.rs", ML+"compress.rs", ML+"encode.rs"], [("K-PKE.Encrypt", ML+"pke.rs EncryptionKey::encrypt"), ("K-PKE.Decrypt", ML+"pke.rs DecryptionKey::decrypt")])
prop("C05", "Polynomial and NTT arithmetic is exact for all ring elements",
 "For all polynomials with reduced coefficients: the forward NTT evaluates the FIPS 203 transform, the inverse NTT inverts it, NTT-domain multiplication is multiplication modulo X^2 - zeta^(2*BitRev7(i)+1) in each of the 128 slots, and sums, differences, scalar products, dot products and matrix-vector products are the coefficient-wise exact values modulo 3329. Every result coefficient is again in 0..3328.",
 ["inputs"], "all polynomials / vectors / matrices over Z_3329",
 "The unit tests transform two ramps and a few constant polynomials; the input space has 3329^256 elements and reductions fail only near range ends.",
 [ML+"algebra.rs"], [("Barrett and conditional-subtract reductions", ML+"algebra.rs FieldElement"), ("NTT, inverse NTT, MultiplyNTTs", ML+"algebra.rs")])
prop("C06", "Fixed-width byte codecs are exact inverses and decoding canonicalizes",
 "For each coefficient width d in {1,4,5,6,10,11,12} used by ML-KEM, encoding 256 in-range coefficients places bit b of coefficient i at bit i*d+b of the output, and decoding reads exactly that bit back, so each is the inverse of the other for d < 12. For d = 12 decoding returns the 12-bit value reduced modulo 3329, for polynomials and for whole vectors alike.",
 ["inputs"], "all coefficient arrays and all byte strings, for every width and vector length in use",
 "Tests use one pattern and one random array per width; a bit lost at one position or for non-canonical values is not forced to show.",
 [ML+"encode.rs", ML+"param.rs", ML+"util.rs"], [("ByteEncode/ByteDecode", ML+"encode.rs byte_encode, byte_decode"), ("vector flatten/unflatten", ML+"param.rs, util.rs")])
prop("C07", "Compression and decompression round exactly as specified",
 "For every width d in {1,4,5,6,10,11,12} and every coefficient x in 0..3328, compression returns round(2^d x / 3329) mod 2^d, and for every y below 2^d decompression returns round(3329 y / 2^d), with halves rounded up. Applied to a polynomial or vector, each coefficient is mapped independently of the others and of its position.",
 ["inputs"], "all coefficients, widths and positions",
 "The tests enumerate single coefficients but never the polynomial and vector forms, which are what the scheme uses.",
 [ML+"compress.rs"], [("multiply-and-shift division", ML+"compress.rs Compress for FieldElement"), ("element-wise lifting", ML+"compress.rs Compress for Polynomial / PolynomialVector")])
prop("C08", "Centered binomial sampling is exact for all PRF outputs",
 "For eta 2 and 3 and every PRF output, coefficient i of the sampled polynomial is (sum of bits 2*eta*i .. 2*eta*i+eta-1) minus (sum of the next eta bits), reduced into 0..3328. Vectors are sampled by independent PRF calls whose nonce starts at the given offset and rises by one per entry.",
 ["inputs"], "all PRF outputs, both eta, all vector lengths",
 "The test is a statistical bound on one sample per eta, which many wrong tables satisfy.",
 [ML+"algebra.rs", ML+"param.rs", ML+"encode.rs"], [("difference-of-popcounts table", ML+"param.rs ones_array"), ("SamplePolyCBD", ML+"algebra.rs sample_cbd")])
prop("C09", "Uniform sampling keeps exactly the in-range 12-bit candidates in order",
 "For every XOF stream, the uniformly sampled polynomial consists of the first 256 values below 3329 in the sequence of 12-bit candidates formed from consecutive 3-byte groups (low candidate first), with no candidate skipped, repeated or out of range, across any number of buffer refills and rejections.",
 ["inputs"], "all XOF output streams (any accept/reject history)",
 "Vectors exercise only streams produced by SHAKE128 on a few seeds; rejection at particular buffer positions and the boundary candidate 3329 are rare or absent.",
 [ML+"algebra.rs"], [("rejection sampler with pending-value slot and 96-byte buffer", ML+"algebra.rs FieldElementReader")],
 [dict(name="pending candidate", meaning="second candidate of a group kept for the next call", where=ML+"algebra.rs FieldElementReader.next")])
prop("C10", "ML-KEM key encodings have the FIPS 203 layout and round-trip",
 "Encoded encapsulation keys are ByteEncode12(t) || rho and encoded decapsulation keys are ByteEncode12(s) || ek || H(ek) || z, every byte taken from exactly its field. Parsing reads each field from the same byte range for every input, takes the stored hash of a decapsulation key verbatim, recomputes that of an encapsulation key, and encoding a parsed key reproduces every canonical encoding.",
 ["inputs"], "all keys and all byte strings of the right length, each parameter set",
 "Codec tests round-trip one random key per parameter set, so a field mix-up conditional on content or non-canonical coefficients is unseen.",
 [ML+"kem.rs", ML+"pke.rs", ML+"param.rs"], [("concat_/split_ helpers", ML+"param.rs"), ("as_bytes / from_bytes", ML+"kem.rs, pke.rs")])
prop("C11", "Parameter sets and object sizes match FIPS 203 and the X-Wing draft",
 "The three ML-KEM parameter sets have (k, eta1, eta2, du, dv) = (2,3,2,10,4), (3,2,2,10,4), (4,2,2,11,5); encoded encapsulation keys, decapsulation keys and ciphertexts have 800/1632/768, 1184/2400/1088, 1568/3168/1568 bytes and shared keys 32; the public names MlKem512/768/1024 denote them in that order. X-Wing keys and ciphertexts have 1216, 32 and 1120 bytes and use ML-KEM-768.",
 ["configurations"], "all parameter sets and all feature configurations",
 "Vectors run in the all-features configuration only; size and parameter facts of the type system hold for every build or none.",
 [ML+"lib.rs", ML+"param.rs", "x-wing/src/lib.rs"], [("associated types of ParameterSet", ML+"lib.rs"), ("size arithmetic in the type system", ML+"param.rs")])
prop("C12", "No public operation can panic, overflow or read out of bounds",
 "For every byte input of the required length, and every RNG output, no key generation, parsing, serialization, encapsulation or decapsulation of the three crates reaches a panic, an arithmetic overflow, a division by zero or an out-of-range index in the workspace's code. Overflow checks may be on or off: no such operation wraps except where wrapping is asked for explicitly.",
 ["inputs", "configurations"], "all inputs to all public operations, with and without overflow checks",
 "A panic needs a particular value (non-canonical coefficients, extreme sums, a refill boundary); tests sample a few.",
 [ML+"algebra.rs", ML+"compress.rs", ML+"encode.rs", ML+"kem.rs", "x-wing/src/lib.rs", "dhkem/src/lib.rs"], [("deferred reductions sized to fit", ML+"algebra.rs"), ("type-level lengths", ML+"param.rs")])
prop("C13", "Secrets never steer control flow, division or addresses in ML-KEM",
 "In ML-KEM key generation, encapsulation, decapsulation and decapsulation-key parsing, no branch condition, no operand of an integer division or remainder, and no memory address is computed from secret data (seeds, messages, coins, secret vectors, rejection value, decrypted or re-encrypted values). In particular decapsulation executes the same instruction and address trace whether or not the ciphertext is valid, so that accepting and rejecting are indistinguishable to the caller except by key.",
 ["inputs"], "all secrets and ciphertexts, each parameter set",
 "Functional tests cannot see data-dependent timing at all; the property is about every pair of executions differing only in secrets.",
 [ML+"kem.rs", ML+"algebra.rs", ML+"compress.rs", ML+"encode.rs", ML+"pke.rs"], [("masked comparison and selection", ML+"kem.rs"), ("reciprocal multiplication instead of division (CHANGELOG #18)", ML+"compress.rs, algebra.rs")])
prop("C14", "Dropping an ML-KEM decapsulation key wipes every secret byte",
 "With the zeroize feature, after an ML-KEM decapsulation key goes out of scope, every byte of its storage that held the secret vector or the rejection secret is zero, for every key value and parameter set. The wipe is not skippable: it happens on every drop, through writes the compiler may not remove, and the type advertises it through the zeroize-on-drop marker.",
 ["inputs", "configurations"], "all key values, all three parameter sets, zeroize feature on",
 "No test inspects memory after drop; a missed polynomial or field changes no observable result.",
 [ML+"kem.rs", ML+"pke.rs", ML+"algebra.rs"], [("Drop for DecapsulationKey", ML+"kem.rs"), ("Zeroize chain down to coefficients", ML+"pke.rs, algebra.rs")])
prop("C15", "Every secret is drawn in full, once, from the caller's RNG",
 "Each randomized operation of the three crates takes its secret bytes only from the RNG it is given: ML-KEM key generation draws d then z, encapsulation draws m, X-Wing key generation draws its 32-byte seed, X-Wing encapsulation draws the ML-KEM message and then the X25519 scalar, and DHKEM draws one fresh ephemeral per call. Drawn bytes reach the derivation unmodified and complete, no draw is reused for two purposes, nothing else is drawn, and no operation consults another entropy source except those documented to use the operating system's.",
 ["inputs", "histories"], "all RNG outputs and call sequences",
 "Randomized paths are checked for self-consistency only, which a constant or truncated secret also satisfies.",
 [ML+"kem.rs", ML+"crypto.rs", "x-wing/src/lib.rs", "dhkem/src/ecdh_kem.rs", "dhkem/src/x25519_kem.rs"], [("rand", ML+"crypto.rs"), ("generate", "x-wing/src/lib.rs"), ("EphemeralSecret::random / ReusableSecret::random_from_rng", "dhkem/src")])
prop("C16", "Operations depend on nothing but their arguments",
 "No operation of the three crates reads or writes shared mutable state, thread-local state, clocks, environment, files or hardware entropy, so results depend only on the arguments and the supplied RNG and every call is independent of all earlier and concurrent calls. Keys passed by shared reference are never modified and contain no interior mutability.",
 ["histories", "schedules"], "all call histories and interleavings of calls on shared keys",
 "Single-threaded tests of single operations cannot exclude a cache or counter that changes later or concurrent results.",
 [ML+"lib.rs", "x-wing/src/lib.rs", "dhkem/src/lib.rs"], [("pure functions over owned data; no statics", "all crates")])
prop("C17", "Unsafe code stays within its allocations and ownership rules",
 "For every instantiation the crates use, each raw-pointer read stays inside the object it was derived from, is suitably aligned and reads initialized bytes, merged and split arrays cover their source exactly once and in order, no value is dropped twice, and the unchecked integer narrowing never meets an unrepresentable value.",
 ["inputs", "programs"], "all values and all array-shape instantiations reachable from the public API",
 "Tests run one 10-byte example without a memory checker; out-of-bounds or double-drop need not crash.",
 [ML+"util.rs"], [("flatten/unflatten", ML+"util.rs"), ("Truncate", ML+"util.rs")])
prop("C18", "Caller-chosen randomness is reachable only with the opt-in feature",
 "Without the deterministic feature, no item reachable by users of the ML-KEM crate lets the caller fix key-generation seeds or the encapsulation message: every public path to key generation or encapsulation draws them from a cryptographic RNG argument. No other feature, and not the default one, re-enables it.",
 ["configurations", "programs"], "all client programs, all feature sets without deterministic",
 "Tests are built with all features on; absence of an API for all clients is not observable by calling it.",
 [ML+"lib.rs", ML+"kem.rs", "ml-kem/Cargo.toml"], [("cfg(feature = deterministic) on trait, methods and re-export", ML+"lib.rs, kem.rs"), ("crate-private generate_deterministic", ML+"kem.rs")])
prop("C19", "X-Wing shared secrets bind both component secrets, ciphertext and key",
 "On both sides the X-Wing shared secret is SHA3-256(ss_M || ss_X || ct_X || pk_X preceded by the 6-byte label) with each component complete and unmodified. The sender uses the ML-KEM-768 encapsulation to pk_M and X25519 of a fresh scalar, whose public value is ct_X, with pk_X; the receiver uses ML-KEM-768 decapsulation of ct_M and X25519 of its scalar with the received ct_X, and its own public key; neither side ever fails.",
 ["inputs"], "all keys, ciphertexts and RNG outputs",
 "Three test vectors; a combiner that ignores a bit, or a receiver that special-cases some ciphertexts, agrees with them.",
 ["x-wing/src/lib.rs"], [("combiner", "x-wing/src/lib.rs"), ("encapsulate/decapsulate", "x-wing/src/lib.rs")])
prop("C20", "X-Wing keys are the documented expansion of the 32-byte seed",
 "For every seed, the X-Wing key pair is derived from the first 96 bytes of the XOF of the whole seed: bytes 0..32 and 32..64 are the ML-KEM-768 seeds d and z, bytes 64..96 are the X25519 scalar, in this order. The encapsulation key is exactly the pair of public keys so derived, and decapsulation and public-key extraction use the same expansion.",
 ["inputs"], "all seeds", "Three vectors; an expansion that varies with the seed or between uses is not excluded.",
 ["x-wing/src/lib.rs"], [("expand_key", "x-wing/src/lib.rs")])
prop("C21", "X-Wing encodings are the exact concatenation and round-trip",
 "X-Wing encapsulation keys encode as ML-KEM-768 key (1184 bytes) || X25519 key (32), ciphertexts as ML-KEM-768 ciphertext (1088) || X25519 public value (32), and decapsulation keys as their 32-byte seed. Parsing inverts encoding for every value, and encoding inverts parsing for every byte string (up to reduction of ML-KEM coefficients).",
 ["inputs"], "all keys, ciphertexts and byte strings",
 "One random round trip per object; byte-range or conditional errors that cancel or are rare are not seen.",
 ["x-wing/src/lib.rs"], [("as_bytes / From impls", "x-wing/src/lib.rs")])
prop("C22", "X-Wing wipes its secret key and ciphertext on drop",
 "With the zeroize feature, dropping an X-Wing decapsulation key or ciphertext leaves every byte of its storage zero, for every value, by writes the compiler may not remove, and the types advertise it; decapsulation and public-key derivation also leave the expanded ML-KEM and X25519 private keys they hold internally wiped.",
 ["inputs", "configurations"], "all values, zeroize feature on", "No test inspects memory after drop.",
 ["x-wing/src/lib.rs", "x-wing/Cargo.toml"], [("derive(Zeroize, ZeroizeOnDrop)", "x-wing/src/lib.rs")])
prop("C23", "DHKEM encapsulation and decapsulation are plain Diffie-Hellman",
 "For every supported curve, key generation returns a secret freshly drawn from the RNG with its own public key; encapsulation draws a fresh secret and returns its public key together with the Diffie-Hellman secret of that same secret and the recipient key it was called on; decapsulation returns the Diffie-Hellman secret of the stored secret and the given encapsulated key. None of them ever fails, retries, or alters a key.",
 ["inputs"], "all keys and RNG outputs, secp256k1, P-256, P-384, P-521 and X25519",
 "Round trips with random keys per curve and one RFC vector for P-256 only.",
 ["dhkem/src/ecdh_kem.rs", "dhkem/src/x25519_kem.rs"], [("Encapsulate/Decapsulate/DhKem impls", "dhkem/src")])
prop("C24", "DHKEM key wrappers are transparent and wipe what they wrap",
 "Wrapping a key in an encapsulator or decapsulator, borrowing it, unwrapping it, cloning, comparing, ordering, hashing or point-encoding it gives the same result as for the wrapped key, for every wrapped type and value. With the zeroize feature, zeroizing a wrapper zeroizes the wrapped value, and a wrapper is marked as wiped on drop only if the wrapped type is.",
 ["inputs", "programs", "configurations"], "all wrapped types and values", "The wrappers have no tests of their own.",
 ["dhkem/src/lib.rs"], [("From, AsRef, into_inner, ToEncodedPoint, Zeroize impls and derives", "dhkem/src/lib.rs")])
prop("C25", "Key and ciphertext values compare and clone by full content",
 "Two ML-KEM keys compare equal exactly when all the components they hold are equal (secret vector, public vector, rho, stored public-key hash, rejection secret), two X-Wing encapsulation keys or ciphertexts exactly when both halves are, and cloning any key or ciphertext gives an equal value with the same encoding. No field is left out of comparison or cloning, and none is compared to itself.",
 ["inputs"], "all pairs of values, each parameter set", "Tests compare equal values only and never assert that different ones differ.",
 [ML+"kem.rs", ML+"pke.rs", ML+"algebra.rs", "x-wing/src/lib.rs"], [("derived PartialEq and Clone", "ml-kem and x-wing types")])
prop("C26", "The crates stay free of the standard library when built without it",
 "Built without default features, none of the three crates nor any dependency they activate links the standard library or an allocator, so they work on bare-metal targets. Every feature set of the project's CI that the crates advertise as no_std keeps this true.",
 ["configurations"], "all no-default-features builds", "Host tests always have std available.",
 [ML+"lib.rs", "x-wing/src/lib.rs", "dhkem/src/lib.rs"], [("no_std attributes and feature forwarding", "crate roots and Cargo.toml files")])
prop("C29", "Secrets never steer control flow or addresses in X-Wing and DHKEM",
 "In X-Wing and in the Diffie-Hellman adapters, no secret (the X-Wing seed, the expanded private keys, drawn ephemeral secrets and messages, component and combined shared secrets) decides a branch, an early exit, a memory address, a length or the operand of a division; they only flow through arithmetic, hashing, X25519/ECDH, copying and wiping. This holds for generation, derivation, encapsulation, decapsulation, encoding, cloning and wiping.",
 ["inputs", "configurations"], "all secrets, all public inputs, every X-Wing and DHKEM operation",
 "Functional tests see results only; a fast path taken for a special shared secret or seed returns the same results and leaks through timing.",
 ["x-wing/src/lib.rs", "dhkem/src/ecdh_kem.rs", "dhkem/src/x25519_kem.rs"],
 [("key expansion and combiner", "x-wing/src/lib.rs"), ("Encapsulate/Decapsulate impls", "dhkem/src")])
prop("C30", "The guarantees do not depend on enabled features or build profile",
 "Every feature set of the three crates compiles, and in each of them, with or without debug assertions and overflow checks, the operations it offers keep the guarantees stated for the full build: ML-KEM, X-Wing and DHKEM compute the same functions of the same inputs and random bytes, never fail, keep secrets out of control flow, compare by full content and, where zeroize is on, wipe. Features add or remove interfaces and wiping, never change results.",
 ["configurations", "inputs"], "ml-kem without features and with zeroize only, x-wing and dhkem without zeroize, everything with release-profile settings; all inputs of each",
 "The test suite runs once, with all features in the debug profile: code for absent features or for builds without debug assertions is never executed by it.",
 [ML+"lib.rs", ML+"kem.rs", ML+"pke.rs", "x-wing/src/lib.rs", "dhkem/src/lib.rs"],
 [("cfg attributes on code, derives and imports", "all crates"), ("feature forwarding", "Cargo.toml files")])
prop("C31", "Results do not depend on word size or byte order",
 "On a big-endian processor with 32-bit words the three crates compute the same keys, ciphertexts, shared secrets and encodings, of the same sizes, from the same bytes as on a 64-bit little-endian one, without overflow, panic or invalid memory access and without secret-dependent branches or addresses.",
 ["configurations", "inputs"], "a 32-bit big-endian target beside the 64-bit little-endian host; all inputs",
 "Tests only run on the host; conversions through usize, native byte order or reinterpreted memory are indistinguishable from portable ones there.",
 [ML+"encode.rs", ML+"algebra.rs", ML+"util.rs", ML+"crypto.rs", "x-wing/src/lib.rs"],
 [("byte_encode/byte_decode packing through u128 and little-endian bytes", ML+"encode.rs"), ("array reinterpretation", ML+"util.rs")])
prop("C27", "Honest ML-KEM and X-Wing exchanges agree except with negligible probability",
 "For keys and encapsulations produced by the crates themselves, the decapsulated shared key equals the encapsulated one except with the decryption-failure probability of FIPS 203 (at most 2^-138).",
 ["inputs"], "all honest exchanges", "A probability over all seeds; tests sample a handful of exchanges.",
 [ML+"kem.rs", "x-wing/src/lib.rs"], [("decryption noise bound", "FIPS 203 parameter choice")])
prop("C28", "The compiled machine code runs in time independent of secrets",
 "For every target and optimization level, the running time and cache footprint of decapsulation do not depend on the secret key or on whether the ciphertext is valid.",
 ["inputs", "configurations"], "all targets, compilers and secrets", "Timing is invisible to functional tests.",
 [ML+"kem.rs", ML+"algebra.rs"], [("source-level constant-time style", "ml-kem/src")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
