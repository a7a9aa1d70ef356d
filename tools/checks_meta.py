"""What each check decides and how: the source of MANIFEST.json and of the evidence texts."""

TRUST = [
    "rustc's front end, MIR construction, layouts and trait resolution",
    "the analyzer's transfer functions (analyzer/src) and its value graphs of FIPS 203 (spec.rs)",
    "Keccak (sha3 crate), curve arithmetic (RustCrypto elliptic-curve crates, x25519-dalek) and the caller's RNG are uninterpreted functions",
]
# the configurations beside the full one, and the properties decided in each
CONFIGS = {
    "plain": dict(
        features="", release=True, jobs=3, what="ml-kem without features, no debug assertions or overflow checks",
        props=["C01", "C15", "C12", "C10", "C13", "C16", "C25", "C05"]),
    "wiping": dict(
        features="zero", release=True, jobs=3, what="ml-kem with only the zeroize feature, no debug assertions or overflow checks",
        props=["C14", "C01", "C15", "C17"]),
    "hybrid": dict(
        features="xw,dh", release=True, jobs=3, what="x-wing and dhkem without zeroize and getrandom, no debug assertions or overflow checks",
        props=["C19", "C20", "C21", "C23", "C24", "C29", "C25", "C16"]),
    "release": dict(
        features="full", release=True, jobs=3, what="every feature, no debug assertions or overflow checks",
        props=["C01", "C13", "C15", "C14", "C19", "C22", "C24", "C29"]),
    "word": dict(
        features="det,zero,xw,dh", target="powerpc-unknown-linux-gnu", what="a big-endian processor with 32-bit words",
        props=["C12", "C13", "C01", "C17", "C09", "C02", "C03", "C10", "C19", "C20", "C21", "C23", "C11", "C08", "C06", "C07"]),
}
GRAPH = "abstract interpretation of MIR: value graph equality"
CHECKS = {
    "C01": dict(
        harness=["harness"],
        technique=GRAPH + ", two-world case split on the re-encryption",
        note="All inputs, three parameter sets, through the public API from key bytes and ciphertext bytes to the shared key.",
        rule="Abstract interpretation of Decapsulate::decapsulate (all reachable MIR) for every parameter set with symbolic key and ciphertext bytes. "
             "Obligations: no panic/overflow/bounds/Err outcome on any path; the re-encrypted bytes equal Encrypt(ek, Decrypt(dk,c), G(m'||h)) as value graphs; "
             "with the re-encryption equal to c every output byte is G(m'||h)[0..32]; for every ciphertext byte position i, if byte i differs (others arbitrary) every output byte is J(z||c).",
    ),
    "C02": dict(
        harness=["harness"],
        technique=GRAPH,
        note="All encapsulation keys and messages, three parameter sets, both the deterministic and the RNG-driven entry point.",
        rule="Abstract interpretation of encapsulate and encapsulate_deterministic for every parameter set with symbolic key bytes and message; every output byte's value graph must equal the FIPS 203 graph "
             "(K,r)=G(m||H(ek)), c=Encrypt(ek,m,r).",
    ),
    "C03": dict(
        harness=["harness"],
        technique=GRAPH,
        note="All seeds, three parameter sets, generate and generate_deterministic.",
        rule="Abstract interpretation of key generation for every parameter set with symbolic seeds; every byte of dk, ek and the embedded ek must equal the FIPS 203 value graph.",
    ),
    "C04": dict(
        harness=["harness"],
        technique=GRAPH,
        note="All keys, messages, coins and ciphertexts, three parameter sets.",
        rule="Encryption observed in encapsulate_deterministic and decapsulate, decryption observed in decapsulate: message, coins and ciphertext bytes must equal the K-PKE value graphs.",
    ),
    "C05": dict(
        harness=["harness"],
        technique="abstract interpretation of MIR: coefficient polynomials modulo 3329 in normal form, with intervals",
        note="Every polynomial, vector and matrix of reduced coefficients, every instance the three parameter sets use.",
        rule="Abstract interpretation of the ring operations on symbolic reduced coefficients. Every result coefficient's normal form modulo 3329 must equal the FIPS 203 formula's "
             "(transforms, slot products, sums, dot and matrix products) and its interval must lie in 0..3328.",
    ),
    "C06": dict(
        harness=["harness"],
        technique=GRAPH + " at bit granularity",
        note="All coefficients and byte strings; widths 1,4,5,6,10,11,12; polynomials and vectors.",
        rule="Abstract interpretation of byte_encode/byte_decode and Encode::encode/decode for every used width: every output bit is the specified input bit; d=12 decoding is the 12-bit value reduced modulo 3329.",
    ),
    "C07": dict(
        harness=["harness"],
        technique="abstract interpretation of MIR: per-coefficient function tables over the finite coefficient domain",
        note="All 3329 (compress) and 2^d (decompress) values at every position, all used widths.",
        rule="Abstract interpretation of compress/decompress: each output coefficient's value graph has exactly its own input coefficient as leaf and tabulates to the FIPS 203 rounding.",
    ),
    "C08": dict(
        harness=["harness"],
        technique=GRAPH + " and per-coefficient function tables",
        note="All PRF outputs, eta 2 and 3, all vector lengths and nonce offsets used.",
        rule="Abstract interpretation of the centered binomial samplers with symbolic PRF bytes: each coefficient depends on exactly its 2*eta bits and tabulates to the FIPS 203 difference; vector sampling uses nonces offset..offset+k-1.",
    ),
    "C09": dict(
        harness=["harness"],
        technique="abstract interpretation of MIR with state exploration and abstraction to the set of sampler states",
        note="Every XOF stream, including arbitrarily many rejections and refills; every continuation is explored from every distinct abstract state.",
        rule="Exploration of sample_uniform with both outcomes of every candidate comparison; at each state the accepted prefix, the next candidate and its position in the stream must be the ones FIPS 203 prescribes; states equal up to renaming of stream positions are visited once.",
    ),
    "C10": dict(
        harness=["harness"],
        technique=GRAPH,
        note="All byte strings and keys, three parameter sets, encapsulation and decapsulation keys.",
        rule="Abstract interpretation of as_bytes/from_bytes: every output byte and parsed field equals the FIPS 203 layout's value graph; re-encoding a parsed key gives the canonical input bytes.",
    ),
    "C14": dict(
        harness=["harness"],
        technique="abstract interpretation of drop glue MIR over symbolic key contents, plus a trait query for the marker",
        note="All keys, three parameter sets.",
        rule="Abstract interpretation of the drop glue of DecapsulationKey with symbolic contents: every byte that held the secret vector or z is zero afterwards and its last write is volatile; ZeroizeOnDrop is implemented.",
    ),
    "C19": dict(
        harness=["harness"],
        technique=GRAPH,
        note="All keys, ciphertexts and random bytes, both sides.",
        rule="Abstract interpretation of X-Wing encapsulate and decapsulate: ciphertext and shared secret bytes equal the combiner's value graph with the ML-KEM-768 graphs of C01/C02 and uninterpreted X25519 on the prescribed operands; no failing path.",
    ),
    "C20": dict(
        harness=["harness"],
        technique=GRAPH,
        note="All seeds; generation, public-key extraction and decapsulation.",
        rule="Abstract interpretation of X-Wing key generation and derivation: every byte of both keys equals the graph of the documented SHAKE256 expansion.",
    ),
    "C21": dict(
        harness=["harness"],
        technique=GRAPH,
        note="All keys, ciphertexts and byte strings.",
        rule="Abstract interpretation of X-Wing encodings and parsings: each output byte is the specified field's byte; round trips are identities.",
    ),
    "C22": dict(
        harness=["harness"],
        technique="abstract interpretation of drop glue and of decapsulation's MIR over symbolic secrets, plus a trait query for the marker",
        note="All values.",
        rule="Abstract interpretation of the drop glue of the X-Wing secret key and ciphertext, and of decapsulate and public-key derivation: all bytes zero with volatile last writes; the expanded private keys wiped; ZeroizeOnDrop implemented.",
    ),
    "C11": dict(
        harness=["harness"],
        technique="constant evaluation of type-level sizes by the compiler, and abstract interpretation of the codecs at those sizes",
        note="All three ML-KEM parameter sets and X-Wing; every size the public types and constants advertise.",
        rule="Type-level constants (k, eta1, eta2, du, dv, every advertised length, sizes of the encoded types) of each parameter set, evaluated by the compiler from the current source, equal FIPS 203 tables 2 and 3 and the X-Wing draft; "
             "abstract interpretation of the public codecs writes every byte of those sizes.",
    ),
    "C12": dict(
        harness=["harness"],
        technique="abstract interpretation of MIR: reachability of panics, overflows, out-of-bounds accesses and error returns",
        note="Every public operation of the three crates on arbitrary bytes, keys and generator outputs; component contracts are checked on their own.",
        rule="Abstract interpretation of every public operation with symbolic inputs: no reachable panic, overflow, out-of-bounds index, unreachable code or Err; every abstract path returns.",
    ),
    "C13": dict(
        harness=["harness"],
        technique="taint (information-flow) analysis over MIR with a value domain: secret-dependent branches, addresses, divisions and early exits",
        note="Secrets: seeds, secret vectors, messages, coins, rejection secrets, shared secrets; all secret-handling paths of ML-KEM and X-Wing down to modelled Keccak, X25519 and subtle primitives.",
        rule="Every seed, secret-key byte, message and coin is a taint source; rho and published encodings are declassified. Taint flows through values and, at joins, through conditions. "
             "No branch condition, memory address, slice length, division or remainder operand or comparison primitive with early exit may be tainted.",
    ),
    "C15": dict(
        harness=["harness"],
        technique=GRAPH + " over an explicit random stream, with effect counting",
        note="Every generator output, key generation and encapsulation of ML-KEM (three sets), X-Wing and DHKEM (x25519, k256, p256, p384, p521).",
        rule="The generator is an unknown stream: each randomized operation draws exactly the specified number of bytes, all of them and only them reach the seed, message or scalar, in the specified order, and deterministic operations draw nothing; "
             "X-Wing's getrandom entry points draw from the operating system's generator (whose type is resolved at the call).",
    ),
    "C16": dict(
        harness=["harness"],
        technique="effect analysis over MIR: writes to statics, interior mutability, mutable access through shared references, plus value graphs of interleaved calls",
        note="Every public operation of ML-KEM and X-Wing.",
        rule="No operation reads or writes mutable static state, calls into the environment, or stores through a shared reference; key types contain no interior mutability; the operation's inputs are unchanged afterwards.",
    ),
    "C17": dict(
        harness=["harness"],
        technique="abstract interpretation of MIR with a provenance-tracking memory model",
        note="All unsafe code of the repository (array flattening and splitting, truncation, zeroizing) for the types and lengths it is instantiated with, drop behaviour included.",
        rule="Every unsafe operation is interpreted with allocation, bounds, alignment, initialisation and provenance checks, on element types with and without destructors; each element is moved exactly once, no `unwrap_unchecked` precondition fails.",
    ),
    "C23": dict(
        harness=["harness"],
        technique=GRAPH + " over uninterpreted group operations",
        note="All keys and random scalars, five curves.",
        rule="Abstract interpretation of DHKEM key generation, encapsulation and decapsulation: the encapsulated key is the public key of a freshly drawn secret, the shared secret is the Diffie-Hellman function of the prescribed operands, nothing fails.",
    ),
    "C24": dict(
        harness=["harness"],
        technique=GRAPH + " of wrapped against unwrapped operations over an opaque type",
        note="Every conversion, comparison, ordering, hash, clone and zeroize operation of both wrapper types, for an arbitrary wrapped type.",
        rule="Each operation on DhEncapsulator/DhDecapsulator over an opaque type must yield the same graph as the operation on the wrapped value; Zeroize is forwarded and ZeroizeOnDrop holds exactly when the wrapped type has it.",
    ),
    "C25": dict(
        harness=["harness"],
        technique="abstract interpretation of MIR: value graphs of eq/ne/clone specialised to worlds differing in one component",
        note="All pairs of values of every key and ciphertext type.",
        rule="Abstract interpretation of eq and ne on two symbolic values: with equal contents the result is `equal`; for every encoded component, when it alone is known to differ the result is `different`; clone copies every component.",
    ),
    "C18": dict(
        harness=["variants/surface_min", "variants/surface_max"],
        technique="call-graph reachability over MIR from the crate's public surface (visibility and type reachability closure)",
        note="The ML-KEM crate without the deterministic feature, with none and with all of its other features; generic code, without instantiation.",
        rule="Public surface: functions, inherent and trait methods reachable through public modules, re-exports, signatures, public fields, associated types and bounds. "
             "Every such function from which the noise sampler or its PRF is reachable in the call graph (trait calls resolved, or all implementations) takes exactly one CryptoRng argument besides self, or is kem::Decapsulate::decapsulate; "
             "no feature other than `deterministic` implies it.",
    ),
    "C26": dict(
        harness=["variants/nostd_mlkem", "variants/nostd_mlkem_all", "variants/nostd_xwing", "variants/nostd_dhkem", "variants/nostd_dhkem_all"],
        technique="crate dependency query on the compiler's resolved crate graph",
        note="Each crate without default features; ML-KEM also with deterministic and zeroize, DHKEM also with every curve and zeroize.",
        rule="In a no_std build of each crate the compiler's crate graph contains neither `std` nor `alloc`; a violation names the chain of crates and the item that links it.",
    ),
    "C29": dict(
        harness=["harness"],
        technique="taint (information-flow) analysis over MIR with a value domain: secret-dependent branches, addresses, divisions and early exits",
        note="Every operation of X-Wing and of the Diffie-Hellman adapters; ML-KEM decapsulation inside X-Wing is C13's, curve arithmetic is a modelled primitive.",
        rule="X-Wing seeds, drawn bytes, Diffie-Hellman secrets and everything computed from them are taint sources; rho and public points are declassified. "
             "No branch condition, memory address, slice length, division operand or comparison primitive with early exit in the X-Wing or DHKEM code, or in the ML-KEM code X-Wing runs, may be tainted.",
    ),
    "C30": dict(
        feature_sets=True,
        harness=["@plain", "@wiping", "@hybrid", "@release"],
        technique="the analyses of C01-C29 repeated on the MIR of other feature sets and of the release profile",
        note="ML-KEM without features, ML-KEM with only zeroize, X-Wing and DHKEM without zeroize and getrandom, and everything with the release profile's settings.",
        rule="The analyses of the ML-KEM, X-Wing and DHKEM properties are repeated on the program the compiler sees with other features selected and with debug assertions and overflow checks off; "
             "every obligation must hold there too, and every configuration must compile. The compiler's type check also decides each crate in every set of at most two of its features and in every set lacking at most one.",
    ),
    "C31": dict(
        harness=["@word"],
        technique="the analyses of C01-C23 repeated on the MIR compiled for a big-endian target with 32-bit words, byte order and pointer width taken from the target's data layout",
        note="powerpc-unknown-linux-gnu; together with the other checks' 64-bit little-endian target.",
        rule="The program is compiled for a big-endian target with 32-bit words and analysed with that target's layout (width of usize, byte order of stored integers): "
             "sizes, codecs, key generation, encapsulation, decapsulation, X-Wing and DHKEM must still have the value graphs of the standards, without panics or invalid accesses, and with no secret-dependent branch or address.",
    ),
}
