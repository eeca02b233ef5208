"""What decides each property: contract modules, crates whose MIR is read, and the replay harness."""
# property -> (spec modules, harness crates)
PLAN = {
    'B01': (['bbs'], ['bbs']), 'B02': (['bbs'], ['bbs']), 'B03': (['bbs'], ['bbs']),
    'B04': (['bbs'], ['bbs']), 'B05': (['bbs'], ['bbs']), 'V01': (['bbs', 'ps'], ['bbs', 'zmix']),
    'G01': (['groth'], ['zmix']), 'G02': (['groth', 'ps'], ['zmix']),
    'S01': (['sharing'], ['sharing']), 'S02': (['sharing'], ['sharing']), 'S03': (['sharing'], ['sharing']),
    **{c: (['cl'], ['ursa']) for c in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07')},
    'U01': (['shamir'], ['ursa']), 'U02': (['bls'], ['ursa']), 'U03': (['pair'], ['ursa']), 'U04': (['bn'], ['ursa']), 'K01': (['kex'], ['ursa']), 'A01': (['symm'], ['ursa']), 'D01': (['sig'], ['ursa']), 'F01': (['ffi'], ['ursa']),
    'E01': (['cs'], ['zmix']),
    **{c: (['r1cs'], ['bp']) for c in ('R01', 'R02', 'R03')},
    'P01': (['ps'], ['zmix']), 'P02': (['ps'], ['zmix']), 'P03': (['ps'], ['zmix']), 'P04': (['ps'], ['zmix']),
}
# cargo packages cleaned before a harness is rebuilt (everything that lives under /repo)
HDEPS = {'sharing': ['ursa_sharing'], 'bbs': ['bbs'], 'zmix': ['zmix', 'bbs', 'bulletproofs_amcl', 'ursa'], 'ursa': ['ursa'], 'bp': ['bulletproofs_amcl']}
LEVEL = {'R01': 'other', 'R02': 'other', 'R03': 'other'}
NOTES = {'G02:note': 'verify_delegations is decided for chains of every length; verify_delegations_batched for chains of one, two and three links with any number of attributes (lemmas bounded in the number of links) and by the bounded harness beyond',
    'S01:assumptions': ['scalar encodings are taken as 32 bytes and group encodings as 48 bytes in the obligations (any fixed sizes would do)', 'i -> from_usize(i) is injective on identifiers below 2^32 (field characteristic larger than 2^32)', 'an honest share or a drawn coefficient is zero only with negligible probability (a zero share is refused by design)', 'Group and Field implementations satisfy the field and vector-space laws; group elements are represented by their discrete logs'],
    'S02:assumptions': ['as for S01'], 'S03:assumptions': ['encodings of one type have one fixed length and decoding inverts encoding'],
    'U01:assumptions': ['the field modulus is prime and, for recombination, larger than 255 (smaller fields: bounded harness)', 'an honest share is zero only with negligible probability (zero shares are refused by design)', 'secrets are numbers: leading zero bytes are not kept'],
    'U02:assumptions': ['AMCL (BN254) and amcl_wrapper (BLS12-381) groups, pairings and hash-to-point are models: group elements are their discrete logarithms, the pairing multiplies them'],
    'U03:assumptions': ['AMCL BIG, ECP, ECP2 and pairing operations are models: integers modulo the group order, discrete logarithms', 'the inverse of zero is not specified', 'ECP::new_big is a function of the integer x coordinate that is the identity where the curve has no such point; that the search of PointG1::from_hash ends is not proved (partial correctness)', 'a serializer keeps the string it is given and a deserializer hands its string to the visitor', 'from_bytes does not check subgroup membership (decoding is only claimed to invert encoding)'],
    'U04:assumptions': ['the OpenSSL binding is a model: big numbers are exact integers', 'from_u32 is given numbers below 2^32'],
    'E01:assumptions': ['the OpenSSL binding is a model: exact integers, residues modulo n^2 as formal powers (units)', 'honest keys: n = pq odd, generated primes are prime, messages in 0..n, challenge at most n', 'the number theory used as simplification rules is proved in lean/Paillier.lean; that the rules of models_cs.py are instances of those theorems is by reading', 'collisions of the hash modelled as absent; its input is the bare concatenation (known finding cs-label-boundary)'],
    **{r + ':assumptions': ['the OpenSSL binding is a model: big numbers are exact integers, residues modulo n are units written by their formal logarithm', 'SHA-256 is an uninterpreted function of the hashed bytes', 'generated primes are prime and of the requested range; negligible events (a random residue that is zero, a collision) are left out'] for r in ('C01', 'C02', 'C03', 'C04', 'C05')},
    **{r + ':assumptions': ['the pairing wrappers are models (checked as U03): group elements are their discrete logarithms, the pairing multiplies them', 'an honest tails accessor returns the tail of the index it is asked for, or fails without calling back', 'the registry holds fewer than 2^31 indices', 'changes are those of a history: an index is revoked only while it is issued and issued again only after it was revoked (the library keeps no record of it)'] for r in ('C06', 'C07')},
    'F01:assumptions': ['the C caller keeps its side: a non-null pointer is a live object of the type the function documents, a length is that of its buffer, strings are NUL-terminated, and result pointers the library does not test for null (marked out! in specs/ffi.py) are valid', 'the library operations behind the interface are uninterpreted functions of their arguments here (their contracts are the other properties); serde_json is an uninterpreted function per type', 'boxes and raw pointers are models: an object and the pointer given out for it are the same value; freeing is checked for the type released, not for double frees', 'the tails callbacks are opaque; the interfaces of ffi::signatures, ffi::encryption and the logger are not covered'],
    'D01:assumptions': ['ed25519-dalek, curve25519-dalek, libsecp256k1, ChaCha and the digests are models: a public key is its scalar; a signature made with a key is genuine for the message under its public key, and whether any other byte string is genuine is an uninterpreted condition', 'an Ed25519 private key of 64 bytes is a key pair (ed25519-dalek does not check that its halves belong together)', 'public_key_compressed and public_key_uncompressed return no Result: the key is valid (they panic on others)'],
    'D01:note': 'signatures_native is checked (the portable and asm variants are cargo features this build does not use)',
    'A01:assumptions': ['the AES-GCM, ChaCha20-Poly1305, AES-CBC, HMAC, subtle, generic-array and typenum crates are models: a ciphertext is an uninterpreted function of algorithm, key, nonce, aad and message, decryption inverts it, and whether anything else is genuine is an uninterpreted condition of all of these', 'readers and writers handed to the buffer forms never fail', 'no length overflows a usize'],
    'A01:note': 'the software implementations are checked (the *_asm and wasm variants are cargo features this build does not use); hex text is a model (decoding inverts encoding)',
    'K01:assumptions': ['x25519-dalek, k256, ChaCha and the digests are models: a public key is its scalar, the Diffie-Hellman value the product of two scalars', 'secp256k1: a private key in the scalar range (the library refuses others)'],
    'R01': 'Obligations over the real create_ipp, verify_ipp and verification_scalars, discharged by the verifier for all vector entries, generators, factors and challenges at the vector lengths 1, 2, 4, .., 64 (the code recurses over halves; each length is its own set of obligations). Refusals of inconsistent inputs are discharged for vectors of every length (symbolic lengths), the closed form of the verification scalars for 0 to 3 rounds, and that verification decides the group equation for lengths 1, 2, 4, 8. Bounded in the length, therefore not labelled a proof.',
    'R01:note': 'all values at the lengths 1..64 (powers of two); refusals at all lengths; group elements are discrete logarithms, the transcript a random oracle of what it was fed',
    'R02': 'Obligations over the real Prover, Verifier and LinearCombination code. Linear-combination algebra: discharged for combinations of every length (symbolic lengths), negation and simplify for 0, 1, 2 and 6 terms. Proving and verifying: discharged for all wire values, coefficients, blindings and challenges of circuits with up to 3 multipliers, 2 commitments, 2 constraints, one- and two-phase, with every way to allocate a wire; that verification decides both group equations and that the challenges depend on the commitments sent before them, at the same sizes. Bounded in the circuit size, therefore not labelled a proof.',
    'R02:note': 'all values, circuits with up to 3 multipliers, 2 commitments, 2 constraints; linear combinations of every length',
    'R03': 'Obligations over the real gadget code. Completeness: every constraint the prover side adds vanishes on its assignment, for all values (symbolic) or for every value of the stated small ranges. Soundness: the named relation lies in the ideal of the constraints the verifier side adds (Groebner basis), for all assignments. Sets of up to 3 elements, ranges of 1 to 3 bits exhaustively and samples of 33, 58 and 64 bits. Bounded in the gadget size, therefore not labelled a proof. The sparse Merkle trees are decided by the bounded harness against an independent map and path computation, and by the obligations named R03.tree at small depth.',
    'R03:note': 'all values at small gadget sizes (sets of up to 3, ranges of 1..3 bits and samples up to 64 bits)',
    **{r + ':technique': 'contract-based deductive verification of rustc MIR at stated sizes (symbolic execution against contracts, ring normaliser, Groebner ideal membership, z3), failing obligations replayed on the real code' for r in ('R01', 'R02', 'R03')},
    **{r + ':assumptions': ['amcl_wrapper groups are models: elements are their discrete logarithms to independent generators', 'the merlin transcript is a random oracle: a challenge is an uninterpreted non-zero function of everything fed before it', 'HashMap iteration order does not matter', 'machine integers in lengths do not overflow'] for r in ('R01', 'R02', 'R03')},
    'trusted': [], 'assumptions': []}
