#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the lines stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

BB='libzmix/bbs/src/'
p('B01','BBS+ signature acceptance is exactly the scheme equation',
  'A BBS+ signature issued over a full message vector with a key pair verifies under the matching public key for exactly that vector. Verification returns true exactly when the signature satisfies the BBS+ pairing equation for the given messages and key (no identity or zero components), and a message count different from the key\'s, or a key with an identity component, is rejected with an error.',
  ['inputs'],'all keys, message vectors of every length, all signature values',
  'Tests sign and verify vectors of 0 to 5 random messages; they cannot cover every length, position and message value, nor wrong-message rejection for all of them.',
  [BB+'signature.rs',BB+'keys.rs',BB+'lib.rs',BB+'issuer.rs'],
  [('Signature::new / verify / get_b / compute_b','signature.rs'),('PublicKey::validate','keys.rs'),('multi_scalar_mul helpers','lib.rs')],
  ['Issuer::sign','Signature::verify'])
p('B02','BBS+ blind issuance yields a valid signature on hidden and known messages',
  'For every choice of which message positions the recipient hides, an honest blind-issuance run (commit, context, issuer check, blind sign, unblind) yields a signature that verifies for the combined message vector. The issuer accepts a recipient\'s context only if its proof of knowledge matches the commitment, the hidden positions announced, the key and the issuer\'s nonce.',
  ['inputs','histories'],'all message vectors, all subsets of hidden positions, all nonces and contexts',
  'One or two hidden positions are tried in the tests; the subset-dependent base selection is only sampled.',
  [BB+'signature.rs',BB+'lib.rs',BB+'prover.rs',BB+'issuer.rs'],
  [('BlindSignature::new / to_unblinded','signature.rs'),('BlindSignatureContext::verify','lib.rs'),('Prover::new_blind_signature_context, complete_signature','prover.rs'),('Issuer::blind_sign','issuer.rs')],
  ['Issuer::blind_sign','Prover::complete_signature'])
p('B03','BBS+ selective-disclosure proofs made honestly always verify',
  'For every valid signature and every split of its messages into revealed and hidden ones (random or linked blinding), the proof the holder derives for a verifier\'s challenge verifies, and carries exactly the revealed messages at their positions. The response disclosed for a hidden position is the one belonging to that position\'s message.',
  ['inputs'],'all keys, message vectors, reveal/hide partitions, blindings and challenges',
  'Tests reveal fixed index sets of 5-message signatures; the proof\'s base/response alignment must hold for every partition.',
  [BB+'pok_sig.rs',BB+'pok_vc.rs',BB+'prover.rs',BB+'verifier.rs'],
  [('PoKOfSignature::init / gen_proof','pok_sig.rs'),('ProverCommitting/ProverCommitted/Proof','pok_vc.rs'),('Prover::commit_signature_pok, generate_signature_pok','prover.rs')],
  ['PoKOfSignatureProof::verify'])
p('B04','BBS+ proof verifier enforces the proof equations and the request',
  'The proof verifier accepts only if the pairing check and both Schnorr relations hold for the presented revealed messages under the given key and challenge, with no identity component. The high-level verifier accepts only if, in addition, the challenge is the hash of the proof transcript and the nonce, and the positions revealed are exactly the ones requested; it then returns the revealed messages in position order.',
  ['inputs'],'all proofs, keys, challenges, requests and nonces, including adversarial ones',
  'Tests only check that a wrong nonce or key fails for one instance; a missing conjunct is invisible to them.',
  [BB+'pok_sig.rs',BB+'pok_vc.rs',BB+'verifier.rs',BB+'lib.rs'],
  [('PoKOfSignatureProof::verify, get_bytes_for_challenge','pok_sig.rs'),('ProofG1::verify','pok_vc.rs'),('Verifier::verify_signature_pok','verifier.rs')],
  ['Verifier::verify_signature_pok'])
p('B05','BBS+ byte encodings round-trip',
  'Decoding the encoding of any BBS+ key, signature, commitment, proof, context or request returns an equal value, in compressed and uncompressed form and for every number of messages and responses. Byte strings too short or of the wrong length are rejected with an error, not a crash.',
  ['inputs'],'all values of each encodable type; all byte strings of every length',
  'Tests round-trip single fixed-size instances and never feed truncated input to most decoders.',
  [BB+'macros.rs',BB+'keys.rs',BB+'pok_sig.rs',BB+'pok_vc.rs',BB+'signature.rs',BB+'lib.rs'],
  [('to_bytes/from_bytes pairs','keys.rs, pok_vc.rs, pok_sig.rs, lib.rs'),('to_bytes_impl/from_bytes_impl macros','signature.rs, macros.rs')],
  ['*::to_bytes_*','*::from_bytes_*','TryFrom<&[u8]>'])
PS='libzmix/src/signatures/ps/'
p('P01','PS signature acceptance is exactly the scheme equation',
  'A Pointcheval-Sanders signature issued over a message vector verifies under the matching verification key for exactly that vector. Verification returns true exactly when both signature components are non-identity and the pairing equation over all messages holds; a message count different from the key\'s is rejected with an error.',
  ['inputs'],'all keys, message vectors of every length, all signature values',
  'Tests use random vectors of a few fixed lengths.',
  [PS+'signature.rs',PS+'keys.rs',PS+'mod.rs'],
  [('Signature::new / new_with_deterministic / verify','signature.rs'),('keygen / Verkey::validate','keys.rs')],['Signature::verify'])
p('P02','PS blind issuance yields a valid signature on hidden and known messages',
  'For every number of hidden messages, blind-signing a commitment to the hidden messages together with the known ones and unblinding with the committed randomness yields a signature that verifies for hidden followed by known messages. The commitment uses one key base per hidden message and the blinding base, in order.',
  ['inputs'],'all keys, message vectors and hidden/known splits, all blindings',
  'Tests use one split of 10 messages.',
  [PS+'blind_signature.rs'],[('BlindSignature::new/unblind','blind_signature.rs'),('BlindingKey','blind_signature.rs')],['BlindSignature::unblind'])
p('P03','PS signature proofs of knowledge: honest ones verify, others must satisfy it',
  'For every valid signature, every set of revealed positions and optional chosen blindings, the derived proof verifies with the revealed messages. The verifier accepts only if the two signature components are non-identity, the Schnorr relation on the hidden messages holds for the given challenge, and the pairing equation holds with the presented revealed messages.',
  ['inputs'],'all keys, messages, reveal sets, blindings and challenges; all proofs',
  'Tests use one reveal set {2,4,9}-like of fixed-size vectors.',
  [PS+'pok_sig.rs','libzmix/src/commitments/pok_vc.rs'],
  [('PoKOfSignature::init/gen_proof, PoKOfSignatureProof::verify','pok_sig.rs'),('impl_PoK_VC! macro','commitments/pok_vc.rs')],['PoKOfSignatureProof::verify'])
p('P04','PS and commitment-proof byte encodings round-trip',
  'Decoding the encoding of any PS key, signature, blinding key or proof returns an equal value, for every number of messages and in both groups. Inputs of wrong length are rejected with an error.',
  ['inputs'],'all values of each encodable type, all byte strings',
  'Tests encode one instance of few types.',
  [PS+'keys.rs',PS+'signature.rs',PS+'blind_signature.rs',PS+'pok_sig.rs','libzmix/src/commitments/pok_vc.rs'],
  [('to_bytes/from_bytes','each file')],['to_bytes/from_bytes'])
p('V01','Schnorr vector-commitment proofs: complete, and accepted only by equation',
  'For every list of bases and equally many secrets and blindings, the proof of knowledge of a vector commitment verifies against the commitment to those secrets, for every challenge. Verification returns true exactly when the responses satisfy the Schnorr equation for the commitment and challenge, and a number of responses different from the number of bases (or of secrets from commitments) is rejected with an error.',
  ['inputs'],'all base/secret vectors of every length, all challenges, both curves groups',
  'Tests sample 5 random bases; length and alignment arguments are universally quantified.',
  ['libzmix/src/commitments/pok_vc.rs','libzmix/bbs/src/pok_vc.rs'],
  [('impl_PoK_VC! (G1 and G2) commit/finish/gen_proof/verify','commitments/pok_vc.rs'),('ProverCommittingG1 … ProofG1','bbs pok_vc.rs')],['Proof::verify'])
DC='libzmix/src/signatures/delg_cred_cdd/'
p('G01','Groth structure-preserving signatures: acceptance equals the equations',
  'A Groth signature (either group) on a vector of group elements verifies under its key, also after re-randomisation with any non-zero factor, and its batched verification agrees with it. Verification returns true exactly when all the pairing equations hold, and a message vector longer than the parameters is rejected.',
  ['inputs'],'all keys, message vectors, randomisers and signature values',
  'Tests sign ten random attributes once.',
  [DC+'groth_sig.rs'],[('impl_GrothS1/impl_GrothS2 macros','groth_sig.rs')],['verify','verify_fast'])
p('G02','Delegated credential chains verify exactly when every link does',
  'A credential chain built by honest delegations from a root verifies to the root key at every length. A chain is accepted only if links alternate between the two levels, are consecutive, and each link\'s signature verifies over its delegatee key under the key of the previous link (the root key for the first).',
  ['inputs','histories'],'all delegation histories of any length and attribute vectors',
  'Tests build chains of length 1 to 3.',
  [DC+'issuer.rs'],[('CredChain::verify_delegations, CredLink*::verify','issuer.rs'),('Issuer/RootIssuer::delegate','issuer.rs')],['CredChain::verify_delegations'])
p('E01','Verifiable encryption decrypts to what was encrypted and verified',
  'For every key, message vector and label, decrypting an honest ciphertext returns the messages in order, and a ciphertext whose tag does not match the label and content is rejected. An honest proof of encryption reconstructs exactly its commitment for every number of messages, and one with a different number of responses than the ciphertext has messages is refused.',
  ['inputs'],'all keys, message vectors (any length), labels and ciphertexts',
  'Tests encrypt one random vector of ten messages.',
  ['libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs'],
  [('CSKeypair::new, encrypt, decrypt, encrypt_and_prove_phase_1, encrypt_and_prove_phase_2, reconstruct_blindings_ciphertext','cs_verifiable_encryption.rs')],['decrypt','reconstruct_blindings_ciphertext'])
BP='libzmix/bulletproofs_amcl/src/'
p('R01','Inner-product argument: honest proofs verify, recursion is exact',
  'For every power-of-two vector length and all vectors, the inner-product argument for their commitment verifies. Inputs whose lengths are not consistent are rejected.',
  ['inputs'],'all vectors a, b of every power-of-two length, all generators and factors',
  'Tests use lengths up to 64 with random vectors.',
  [BP+'ipp.rs'],[('IPP::create_ipp, verify_ipp, verification_scalars','ipp.rs')],['verify_ipp'])
p('R02','Constraint-system proofs: satisfied circuits prove and verify',
  'For every circuit and every assignment that satisfies it, the proof the prover outputs is accepted by a verifier that builds the same circuit with the prover\'s commitments and transcript label; linear combinations evaluate as their algebra says. A circuit whose constraints are not satisfied by the committed values yields no accepted proof.',
  ['inputs','programs'],'all linear-combination expressions, circuits and assignments',
  'Tests cover a handful of fixed gadget circuits.',
  [BP+'r1cs/linear_combination.rs',BP+'r1cs/prover.rs',BP+'r1cs/verifier.rs'],
  [('LinearCombination operators and eval','linear_combination.rs'),('flattened_constraints, prove, verify','prover.rs, verifier.rs')],['Prover::prove','Verifier::verify'])
p('R03','Proof gadgets constrain exactly the relation they are named for',
  'The range, non-zero, set-membership and set-non-membership gadgets add constraints that are satisfied by the committed assignment exactly when the value lies in the range, is non-zero, is in the set, or is not in the set (sets without repeated elements, ranges max - min < 2^bits); a value outside the relation yields no accepted proof. The verifier side refuses too few commitments instead of panicking. The sparse Merkle tree (for indices below arity^depth) returns the last value stored at each index, its membership paths recompute the root, and a path of another length than the depth of the tree proves nothing.',
  ['inputs','histories'],'all values, bounds, sets and update histories',
  'Tests try a few values and one random set.',
  [BP+'r1cs/gadgets/bound_check.rs',BP+'r1cs/gadgets/non_zero.rs',BP+'r1cs/gadgets/set_membership.rs',BP+'r1cs/gadgets/set_non_membership.rs',BP+'r1cs/gadgets/sparse_merkle_tree_8_ary.rs'],
  [('*_gadget functions','gadgets/*.rs'),('VanillaSparseMerkleTree','sparse_merkle_tree_*_ary.rs')],['gadget constraint systems'])
p('S01','Threshold secret sharing recombines to the secret, and only when it may',
  'Splitting any non-zero field element with limits t of n (2 <= t <= n) yields n shares with distinct non-zero identifiers, any t or more of which recombine to the secret, as field element and as group element. Recombination rejects fewer than t shares, duplicate identifiers, identifier zero, zero-valued or undecodable shares; splitting rejects a zero secret or limits outside the allowed range.',
  ['inputs','configurations'],'all secrets, thresholds, limits, share subsets and orders, for every field implementation',
  'Tests use one (t,n) per curve and one subset of shares.',
  ['ursa_sharing/src/shamir.rs','ursa_sharing/src/lib.rs'],
  [('Scheme::split_secret, combine_shares, combine_shares_group','shamir.rs'),('Polynomial::evaluate','lib.rs')],['combine_shares'])
p('S02','Verifiable sharing accepts a share exactly when it lies on the committed poly',
  'Every share output by verifiable splitting (Feldman and Pedersen) is accepted by the verifier output with it. A verifier accepts a share exactly when its value (and blinding value, at the same identifier) matches the commitments evaluated at the identifier; other shares are rejected.',
  ['inputs','configurations'],'all secrets, thresholds, limits, shares and verifiers',
  'Tests verify honest shares of one configuration per curve.',
  ['ursa_sharing/src/feldman.rs','ursa_sharing/src/pedersen.rs','ursa_sharing/src/lib.rs'],
  [('Scheme::split_secret','feldman.rs, pedersen.rs'),('Verifier::verify_share','feldman.rs, pedersen.rs')],['verify_share'])
p('S03','Share and verifier wire formats round-trip',
  'Encoding a share or a (Feldman or Pedersen) verifier and decoding the result returns an equal value for every field, threshold and identifier. Malformed byte strings of any length are rejected with an error instead of crashing or looping.',
  ['inputs'],'all shares and verifiers; all byte strings',
  'No test encodes a share or a verifier at all.',
  ['ursa_sharing/src/shamir.rs','ursa_sharing/src/feldman.rs','ursa_sharing/src/pedersen.rs'],
  [('Share::to_bytes/TryFrom','shamir.rs'),('Verifier::to_bytes/TryFrom','feldman.rs, pedersen.rs')],['to_bytes','try_from'])
p('U01','Byte-field Shamir sharing recombines exactly',
  'Splitting a secret below the field modulus with threshold t and limit n gives n shares, any t of which recombine to the secret for every secret, threshold and subset of shares. Encoded shares decode to equal shares. Secrets that are not below the modulus, thresholds outside 2..n, n not below the modulus, repeated or zero identifiers and too few shares are refused. (The secret is the number its bytes encode: leading zero bytes are not kept. Zero-valued shares are refused by design.)',
  ['inputs','configurations'],'all secrets, t, n, subsets',
  'Unit tests of this module are not part of the run suite; examples sample few parameters.',
  ['libursa/src/sharing/shamir.rs'],[('ShamirSecret*::split, combine_with, split_with','shamir.rs')],['combine'])
p('U02','BLS signatures and multi-signatures verify exactly by the pairing equation',
  'A BLS signature verifies for its message and signer key, a multi-signature made from any non-empty set of signatures on one message verifies for the signers\' keys (in any order), and an aggregated verification accepts signatures on distinct messages exactly when the product equation holds. Proofs of possession verify for their key; repeated messages in an aggregated verification are rejected.',
  ['inputs'],'all keys, messages, signer sets',
  'Tests in that module are not run; doctests show two signers and one message.',
  ['libursa/src/bls/mod.rs','libursa/src/pair/amcl.rs'],
  [('Bls::sign, verify, verify_multi_sig, verify_pop','bls/mod.rs'),('MultiSignature::new','bls/mod.rs')],['Bls::verify*'])
p('U03','Pairing-group wrapper obeys the group and field laws',
  'The scalar operations of the pairing wrapper are addition, subtraction, multiplication, negation and inversion modulo the group order for all operands, and point operations are the group operations with matching bilinear pairing. Text, byte and serde encodings of scalars and points decode to equal values. Hashing to a point is a function of the hash and never yields the identity.',
  ['inputs'],'all scalars and points',
  'Unit tests of the wrapper are not run; they sample random pairs.',
  ['libursa/src/pair/amcl.rs'],[('GroupOrderElement::*_mod','pair/amcl.rs'),('PointG1/PointG2/Pair','pair/amcl.rs')],['GroupOrderElement','PointG1','PointG2','Pair'])
p('U04','Big-number wrapper computes exact integer and modular arithmetic',
  'Every arithmetic, comparison, bit and conversion operation of the big-number type returns the mathematical integer result of its operands, of any size and sign. Text and byte conversions are mutually inverse on non-negative numbers; the serde form keeps every number.',
  ['inputs'],'all integers of any size and sign, all moduli',
  'Unit tests of the wrapper are not run; the anonymous-credential tests exercise a few of the operations on fixed sizes.',
  ['libursa/src/bn/openssl.rs'],[('BigNumber methods','bn/openssl.rs')],['BigNumber'])
CL='libursa/src/cl/'
p('C01','Issuer key correctness proofs: honest accepted, equations enforced',
  'For every credential schema, the key-correctness proof produced with a new credential key is accepted. A proof is accepted only if it contains a response for every attribute base and the challenge equals the hash over all bases and all recomputed commitments.',
  ['inputs','configurations'],'all keys and schemas; all proofs',
  'Tests use fixed keys with four attributes.',
  [CL+'issuer.rs',CL+'prover.rs'],[('Issuer::_new_credential_key_correctness_proof','issuer.rs'),('Prover::_check_credential_key_correctness_proof','prover.rs')],['Prover::blind_credential_secrets'])
p('C02','Blind credential issuance produces a valid credential signature',
  'For every schema and every split of attributes into hidden and known, an honest issuance run is accepted at each step and yields a signature satisfying the issuer key equation over all attributes and the link secret. The issuer accepts blinded secrets only if their proof holds for the announced hidden attributes and the issuer\'s nonce, and refuses to sign a value for an attribute the holder has blinded. The credential context it signs is a hash of the holder\'s identifier and of the revocation index (or the mark that there is none).',
  ['inputs','histories'],'all keys, schemas, attribute values and hidden sets',
  'Tests issue credentials of four attributes with fixed values.',
  [CL+'issuer.rs',CL+'prover.rs'],[('Issuer::_sign_primary_credential, _check_blinded_credential_secrets_correctness_proof','issuer.rs'),('Prover::_blind_primary_credential_secrets','prover.rs')],['Issuer::sign_credential'])
p('C03','The holder accepts a credential only with a correct signature and proof',
  'The holder\'s processing of an issued credential accepts it only if the signature\'s exponent and value satisfy the key equation for exactly the given attribute values and link secret, and the signature correctness proof matches the holder\'s nonce. An honest issuance is always accepted.',
  ['inputs'],'all credentials, values, nonces',
  'Tests check one honest case and a wrong-value case.',
  [CL+'issuer.rs',CL+'prover.rs'],[('Prover::_check_signature_correctness_proof','prover.rs'),('Issuer::_new_signature_correctness_proof','issuer.rs')],['Prover::process_credential_signature'])
p('C04','Honest credential presentations always verify',
  'For every set of issued credentials, every choice of revealed attributes and satisfied predicates and shared hidden attributes, the presentation built by the holder is accepted by a verifier configured with the same request and nonce, whatever that verifier processed before. Predicates (of any i32 value) that the attribute value does not satisfy cannot be put in a presentation.',
  ['inputs','histories'],'all credentials, requests, nonces, predicate values',
  'Tests use fixed requests with one or two credentials.',
  [CL+'prover.rs',CL+'verifier.rs',CL+'helpers.rs'],[('ProofBuilder','prover.rs'),('ProofVerifier','verifier.rs'),('calc_teq/calc_tne','helpers.rs')],['ProofVerifier::verify'])
p('C05','The presentation verifier binds every requested claim to the credential',
  'A presentation is accepted only if the revealed attributes and predicates are exactly those requested, every attribute shared across credentials has the same response, each predicate\'s response equals that of the attribute of that credential it is about, the response for the signature exponent is within its range, the non revocation part is present when the registry was given, and the challenge is the hash of all recomputed commitments, the presented values (which are those of the verified parts) and the nonce.',
  ['inputs'],'all presentations and requests, adversarial ones included',
  'Tests check a few specific tampered proofs.',
  [CL+'verifier.rs',CL+'helpers.rs',CL+'mod.rs'],[('ProofVerifier::verify, _check_verify_params_consistency, _verify_primary_proof, _verify_ne_predicate','verifier.rs'),('calc_teq, calc_tne','helpers.rs')],['ProofVerifier::verify'])
p('C06','Revocation registry state equals its history of issues and revocations',
  'After any history of issuances, revocations and recoveries, the registry accumulator is the product of the tails of exactly the indices currently valid, and merged deltas describe the same state as applying them one by one. A credential\'s witness updated with the deltas matches the accumulator iff its index is valid. Indices outside the registry are refused, a failed change leaves the registry as it was, and the tail that would make a witness for any index is never published.',
  ['histories'],'all histories of issue/revoke/recover/update calls and their delta partitions',
  'Tests run short fixed histories on registries of five entries.',
  [CL+'issuer.rs',CL+'mod.rs',CL+'prover.rs'],[('Issuer::revoke_credential, recovery_credential, update_revocation_registry','issuer.rs'),('RevocationRegistryDelta::merge, Witness::new/update','mod.rs')],['RevocationRegistry','Witness'])
p('C07','Non-revocation proofs: honest accepted, relations enforced',
  'For a holder whose index is valid and whose witness is current, the non-revocation part of a presentation is always accepted. A presentation for a revoked index, a stale witness or another registry is rejected. The recomputed commitments the verifier hashes are exactly those of the non-revocation relation for the registry, key, and proof responses.',
  ['inputs','histories'],'all registries, witnesses, challenges',
  'Tests use one or two revocation scenarios.',
  [CL+'prover.rs',CL+'verifier.rs',CL+'helpers.rs'],[('Prover::_init_non_revocation_proof, ProofVerifier::_verify_non_revocation_proof','prover.rs, verifier.rs'),('create_tau_list_values/create_tau_list_expected_values','helpers.rs')],['ProofVerifier::verify'])
SY='libursa/src/encryption/symm/'
p('A01','Symmetric encryption returns every message and accepts nothing else',
  'For each of the six authenticated ciphers, every key, nonce, associated data and message of any length: what encryption produces (plain form, easy form, buffer form, through SymmetricEncryptor, DynEncryptor or EncryptorType alike) decrypts to the message under the same key, nonce and associated data. A CBC-HMAC ciphertext is accepted only with the HMAC of associated data, nonce and ciphertext under the second half of the key; the others only if the cipher finds them genuine for that key, nonce and associated data; no ciphertext made under one key, nonce and associated data is accepted under another. The easy form carries a nonce drawn anew. Keys, nonces and ciphertexts of a wrong length are refused with an error, never a panic. A serialized cipher deserializes to itself.',
  ['inputs'],'all keys, nonces, associated data and messages, of every length',
  'Unit tests of these modules are not run, and use one message of 18 bytes.',
  [SY+f for f in ('mod.rs','aescbc.rs','aesgcm.rs','chacha20poly1305.rs','xchacha20poly1305.rs')]+['libursa/src/encryption/mod.rs'],[('Aes128CbcHmac256/Aes256CbcHmac512 encrypt/decrypt','aescbc.rs'),('Aes128Gcm/Aes256Gcm','aesgcm.rs'),('ChaCha20Poly1305, XChaCha20Poly1305','chacha20poly1305.rs, xchacha20poly1305.rs'),('Encryptor, SymmetricEncryptor, DynEncryptor, EncryptorType','mod.rs')],['SymmetricEncryptor','Encryptor::encrypt_easy','EncryptorType::gen_encryptor'])
SG='libursa/src/signatures/'
p('D01','Plain signatures verify for the key and message signed, and for nothing else',
  'For Ed25519 and ECDSA over secp256k1, every key pair (drawn, from a seed, from a private key, from expanded key material) and every message of any length: the signature made with the private key, directly or through Signer, verifies under the public key. Verification accepts exactly the signatures genuine for that public key and message, and refuses the rest, including keys and signatures of any wrong length, without a panic. Key pairs made again from the same private key are the same; drawn keys are drawn anew from the system random source, and a seed always stands for the key pair its fixed derivation gives (ChaCha20 keyed with the seed or its SHA-256). Ed25519 keys converted for key exchange are X25519 key pairs of each other. Both encodings of a secp256k1 public key stand for that key; a signature in the high form is refused, and normalizing it writes the low form.',
  ['inputs'],'all keys, messages and signature byte strings, of every length',
  'Unit tests of these modules are not run.',
  [SG+f for f in ('ed25519.rs','secp256k1.rs','mod.rs')],[('keypair, sign, verify','ed25519.rs, secp256k1.rs'),('expand_keypair, *_to_key_exchange','ed25519.rs'),('normalize_s, public_key_compressed/uncompressed, parse','secp256k1.rs'),('Signer','mod.rs')],['SignatureScheme','Signer'])
p('K01','Key agreement gives both parties the same secret',
  'For every two key pairs the shared secret computed from one private key and the other public key is the same on both sides, and it depends on the private key and the peer public key only. Key pairs derived from the same private key are equal; drawn keys are drawn anew from the system random source, and a seed always stands for the key pair its fixed derivation gives (ChaCha20 keyed with the seed or its SHA-256). Private and public keys of a wrong length are refused, never cut or a panic.',
  ['inputs'],'all key pairs and seeds',
  'Unit tests of these modules are not run.',
  ['libursa/src/kex/x25519.rs','libursa/src/kex/secp256k1.rs'],
  [('compute_shared_secret, keypair','kex/*.rs')],['compute_shared_secret'])
FI='libursa/src/ffi/'
p('F01','The C interface does what the library does',
  'For every exported C function for BLS signatures and anonymous credentials and every arguments: the function hands exactly the objects, buffers, strings and numbers it was given, each in its place, to the library operation it is named for. It reports success exactly when the operation succeeds, and then each result pointer receives that result (the truth value for a verification), of its own type; when the operation fails it reports an error and writes no result and changes nothing it was given. A null pointer where an object, buffer, string or result is required, an empty buffer or an empty string is refused with an error, never a panic. An absent optional argument is an absent argument of the operation, never a default. JSON and byte forms given out or taken are those of the type of the object, and an object is released as the type it was given out as.',
  ['inputs'],'all arguments: null, absent, any content and length, any outcome of the operation',
  'Tests call each function once or twice with good arguments.',
  [FI+f for f in ('bls.rs','cl/mod.rs','cl/issuer.rs','cl/prover.rs','cl/verifier.rs')]+['libursa/src/utils/ctypes.rs'],[('ursa_bls_*','bls.rs'),('ursa_cl_issuer_*, ursa_cl_*_to_json/from_json/free','cl/issuer.rs'),('ursa_cl_prover_*, ursa_cl_proof_builder_*','cl/prover.rs'),('ursa_cl_verifier_*, ursa_cl_proof_verifier_*','cl/verifier.rs'),('builders, witness, tails','cl/mod.rs'),('check_useful_c_* macros','ctypes.rs')],['ursa_bls_*','ursa_cl_*'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
