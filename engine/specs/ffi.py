"""Contracts of the C interface (F01): every exported function hands the objects and buffers it was given to the operation it is named for,
and hands the result back through its out pointers exactly when it reports success."""
import re
from contracts import *
from models_ffi import FfiModels, NULL, OWNED, lib, outcome, bytes_of
from models_cl import disc
CRATES = ['ursa']; CRATE = 'ursa'; MODELS = FfiModels
C = {}; LEM = []; TAGS = {}
U = ('F01',)
def lem(name, props=U, limit=60):
    def d(f): LEM.append((props, Lemma('ursa', name, f, limit))); return f
    return d
UNSET = app('unwritten', (), 'X')
# module | function | parameters | operation(arguments) [| extras]
#   parameters: ref x (object), mut x (object the operation may change), opt x (object or null), box x (object that is consumed), own.T x (object of type T that is released), bytes x, optbytes x,
#   refs x (array of objects), set x (array of indices, a set), str x, int x, bool x, fnp x (callback or context), out x (receives the result; out! : the library does not check it for null)
#   extras: bool (the result is a truth value), inf (the operation cannot fail), unit (no result), opt (the last result is optional), seq (the result is a byte buffer)
TABLE = '''
bls | ursa_bls_generator_new | out gen_p | Generator::new()
bls | ursa_bls_generator_from_bytes | bytes bytes, out gen_p | Generator::from_bytes(bytes)
bls | ursa_bls_sign_key_new | optbytes seed, out! sign_key_p | SignKey::new(seed)
bls | ursa_bls_sign_key_from_bytes | bytes bytes, out sign_key_p | SignKey::from_bytes(bytes)
bls | ursa_bls_ver_key_new | ref gen, ref sign_key, out! ver_key_p | VerKey::new(gen, sign_key)
bls | ursa_bls_ver_key_from_bytes | bytes bytes, out ver_key_p | VerKey::from_bytes(bytes)
bls | ursa_bls_pop_new | ref ver_key, ref sign_key, out! pop_p | ProofOfPossession::new(ver_key, sign_key)
bls | ursa_bls_pop_from_bytes | bytes bytes, out pop_p | ProofOfPossession::from_bytes(bytes)
bls | ursa_bls_signature_from_bytes | bytes bytes, out signature_p | Signature::from_bytes(bytes)
bls | ursa_bls_multi_signature_new | refs signatures, out multi_sig_p | MultiSignature::new(signatures)
bls | ursa_bls_multi_signature_from_bytes | bytes bytes, out multi_sig_p | MultiSignature::from_bytes(bytes)
bls | ursa_bls_sign | bytes message, ref sign_key, out signature_p | Bls::sign(message, sign_key)
bls | ursa_bls_verify | ref signature, bytes message, ref ver_key, ref gen, out valid_p | Bls::verify(signature, message, ver_key, gen) | bool
bls | ursa_bls_verify_multi_sig | ref multi_sig, bytes message, refs ver_keys, ref gen, out valid_p | Bls::verify_multi_sig(multi_sig, message, ver_keys, gen) | bool
bls | ursa_bls_verify_pop | ref pop, ref ver_key, ref gen, out valid_p | Bls::verify_proof_of_posession(pop, ver_key, gen) | bool
cl::issuer | ursa_cl_issuer_new_credential_def | ref schema, ref non_schema, bool revocation, out pub_p, out priv_p, out proof_p | Issuer::new_credential_def(schema, non_schema, revocation)
cl::issuer | ursa_cl_issuer_new_revocation_registry_def | ref pub, int max, bool default, out rev_pub_p, out rev_priv_p, out rev_reg_p, out tails_p | Issuer::new_revocation_registry_def(pub, max, default)
cl::issuer | ursa_cl_issuer_sign_credential | str prover_id, ref secrets, ref proof, ref nonce, ref issuance_nonce, ref values, ref pub, ref priv, out sig_p, out proof_p | Issuer::sign_credential(prover_id, secrets, proof, nonce, issuance_nonce, values, pub, priv)
cl::issuer | ursa_cl_issuer_sign_credential_with_revoc | str prover_id, ref secrets, ref proof, ref nonce, ref issuance_nonce, ref values, ref pub, ref priv, int idx, int max, bool default, mut rev_reg, ref rev_priv, fnp ctx, fnp take, fnp put, out sig_p, out proof_p, out! delta_p | Issuer::sign_credential_with_revoc(prover_id, secrets, proof, nonce, issuance_nonce, values, pub, priv, idx, max, default, rev_reg, rev_priv, TAILS) | opt changes=rev_reg
cl::issuer | ursa_cl_issuer_merge_revocation_registry_deltas | mut delta, ref other, out! merged_p | RevocationRegistryDelta::merge(delta, other) | unit
cl | ursa_cl_tails_generator_next | mut tails, out tail_p | RevocationTailsGenerator::try_next(tails) | opt
cl::issuer | ursa_revocation_registry_delta_from_parts | opt from, ref to, set issued, set revoked, out! delta_p | RevocationRegistryDelta::from_parts(from, to, issued, revoked) | inf
cl::issuer | ursa_cl_issuer_revoke_credential | mut rev_reg, int max, int idx, fnp ctx, fnp take, fnp put, out! delta_p | Issuer::revoke_credential(rev_reg, max, idx, TAILS)
cl::issuer | ursa_cl_issuer_recovery_credential | mut rev_reg, int max, int idx, fnp ctx, fnp take, fnp put, out! delta_p | Issuer::recovery_credential(rev_reg, max, idx, TAILS)
cl | ursa_cl_tails_generator_count | ref tails, out count_p | RevocationTailsGenerator::count(tails) | inf
cl | ursa_cl_witness_new | int idx, int max, bool default, ref delta, fnp ctx, fnp take, fnp put, out! witness_p | Witness::new(idx, max, default, delta, TAILS)
cl | ursa_cl_witness_update | int idx, int max, ref delta, mut witness, fnp ctx, fnp take, fnp put | Witness::update(witness, idx, max, delta, TAILS) | unit
cl | ursa_cl_credential_schema_builder_new | out builder_p | Issuer::new_credential_schema_builder()
cl | ursa_cl_credential_schema_builder_add_attr | mut builder, str attr | CredentialSchemaBuilder::add_attr(builder, attr) | unit
cl | ursa_cl_credential_schema_builder_finalize | box builder, out schema_p | CredentialSchemaBuilder::finalize(builder)
cl | ursa_cl_non_credential_schema_builder_new | out builder_p | Issuer::new_non_credential_schema_builder()
cl | ursa_cl_non_credential_schema_builder_add_attr | mut builder, str attr | NonCredentialSchemaBuilder::add_attr(builder, attr) | unit
cl | ursa_cl_non_credential_schema_builder_finalize | box builder, out schema_p | NonCredentialSchemaBuilder::finalize(builder)
cl | ursa_cl_credential_values_builder_new | out builder_p | Issuer::new_credential_values_builder()
cl | ursa_cl_credential_values_builder_add_dec_known | mut builder, str attr, str value | CredentialValuesBuilder::add_dec_known(builder, attr, value) | unit
cl | ursa_cl_credential_values_builder_add_dec_hidden | mut builder, str attr, str value | CredentialValuesBuilder::add_dec_hidden(builder, attr, value) | unit
cl | ursa_cl_credential_values_builder_add_dec_commitment | mut builder, str attr, str value, str blinding | CredentialValuesBuilder::add_dec_commitment(builder, attr, value, blinding) | unit
cl | ursa_cl_credential_values_builder_finalize | box builder, out values_p | CredentialValuesBuilder::finalize(builder)
cl | ursa_cl_sub_proof_request_builder_new | out builder_p | Verifier::new_sub_proof_request_builder()
cl | ursa_cl_sub_proof_request_builder_add_revealed_attr | mut builder, str attr | SubProofRequestBuilder::add_revealed_attr(builder, attr) | unit
cl | ursa_cl_sub_proof_request_builder_add_predicate | mut builder, str attr, str p_type, int value | SubProofRequestBuilder::add_predicate(builder, attr, p_type, value) | unit
cl | ursa_cl_sub_proof_request_builder_finalize | box builder, out request_p | SubProofRequestBuilder::finalize(builder)
cl | ursa_cl_new_nonce | out nonce_p | cl::new_nonce()
cl::prover | ursa_cl_prover_new_master_secret | out secret_p | Prover::new_master_secret()
cl::prover | ursa_cl_prover_blind_credential_secrets | ref pub, ref key_proof, ref values, ref nonce, out secrets_p, out factors_p, out proof_p | Prover::blind_credential_secrets(pub, key_proof, values, nonce)
cl::prover | ursa_cl_prover_process_credential_signature | mut sig, ref values, ref proof, ref factors, ref pub, ref nonce, opt rev_pub, opt rev_reg, opt witness | Prover::process_credential_signature(sig, values, proof, factors, pub, nonce, rev_pub, rev_reg, witness) | unit
cl::prover | ursa_cl_prover_new_proof_builder | out builder_p | Prover::new_proof_builder()
cl::prover | ursa_cl_proof_builder_add_common_attribute | mut builder, str name | ProofBuilder::add_common_attribute(builder, name) | unit
cl::prover | ursa_cl_proof_builder_add_sub_proof_request | mut builder, ref request, ref schema, ref non_schema, ref sig, ref values, ref pub, opt rev_reg, opt witness | ProofBuilder::add_sub_proof_request(builder, request, schema, non_schema, sig, values, pub, rev_reg, witness) | unit
cl::prover | ursa_cl_proof_builder_finalize | box builder, ref nonce, out proof_p | ProofBuilder::finalize(builder, nonce)
cl::verifier | ursa_cl_verifier_new_proof_verifier | out verifier_p | Verifier::new_proof_verifier()
cl::verifier | ursa_cl_proof_verifier_add_common_attribute | mut verifier, str name | ProofVerifier::add_common_attribute(verifier, name) | unit
cl::verifier | ursa_cl_proof_verifier_add_sub_proof_request | mut verifier, ref request, ref schema, ref non_schema, ref pub, opt rev_pub, opt rev_reg | ProofVerifier::add_sub_proof_request(verifier, request, schema, non_schema, pub, rev_pub, rev_reg) | unit
cl::verifier | ursa_cl_proof_verifier_verify | box verifier, ref proof, ref nonce, out valid_p | ProofVerifier::verify(verifier, proof, nonce) | bool
'''
def given(l, k, n, null):
    """(arguments of the C call, what the operation must be given)"""
    x = app('arg.' + n, (), 'X')
    OWNED.pop(x, None)
    if k.startswith('own.'): OWNED[x] = k[4:]; return [NULL if null else x], x
    if k.startswith('out'): m = l.mut(l.st, UNSET); return [NULL if null else m], m
    if k in ('ref', 'box', 'fnp'): return [NULL if null else x], x
    if k == 'mut': m = l.mut(l.st, x); return [NULL if null else m], m
    if k == 'opt': return [NULL if null else x], none() if null else some(x)
    if k in ('bytes', 'optbytes'):
        v = l.sym('&[u8]', n); L = l.ex.seq_len(v); l.st.assume(le(ONE, L))
        return [NULL if null else v, L], (none() if null else some(v)) if k == 'optbytes' else v
    if k in ('refs', 'set'):
        j = fresh_var('I', 'k'); N = app(n + '.len', (), 'I'); l.st.assume(le(ONE if k == 'refs' else ZERO, N))
        v = Seq([Comp(j, and_(le(ZERO, j), lt(j, N)), [One(app('arg.' + n, (j,), 'X' if k == 'refs' else 'I'))])])
        return [NULL if null else v, N], v if k == 'refs' else app('set.of', (valterm(v),), 'X')
    if k == 'str': s = app('arg.' + n, (), 'S'); return [NULL if null else s], s
    if k == 'int': i = app('arg.%s:u32' % n, (), 'I'); l.st.assume(le(ZERO, i)); return [i], i
    if k == 'bool': b = app('arg.' + n, (), 'B'); return [b], b
    raise Unsupported(k)
def entry(mod, fn, params, op, opargs, extras):
    lib(op, 'inf' not in extras, bool_='bool' in extras, unit='unit' in extras, opt='opt' in extras, changes=opargs.index(([e[8:] for e in extras if e.startswith('changes=')] or opargs[:1])[0]) if opargs else 0, seq='seq' in extras, arity=sum(k.startswith('out') for k, _ in params))
    ident = 'ffi::%s::%s' % (mod, fn)
    def start(l, nulls=()):
        xs = []; g = {}
        for k, n in params: a, g[n] = given(l, k, n, n in nulls); xs += a
        g['TAILS'] = app('lib.FFITailsAccessor::new', tuple(valterm(g[n]) for n in ('ctx', 'take', 'put')), 'X') if 'TAILS' in opargs else None
        return xs, g
    changed = ([e[8:] for e in extras if e.startswith('changes=')] or opargs[:1] or [None])[0]
    outs = [n for k, n in params if k.startswith('out')]; muts = [n for k, n in params if k == 'mut']
    def good(l, nulls=()):
        xs, g = start(l, nulls); st = l.st; D = l.ex.deref
        ids = tuple(valterm(D(st, g[n])) for n in opargs); succ, vals, after = outcome(op, ids)
        for n, k in [(n, k) for k, n in params if k == 'str']: st.assume(and_(app('str.utf8', (g[k] if k in g else g[n],), 'B')))
        for s2, o in l.run(st, ident, *xs):
            if contradiction(s2.pc): continue
            if o[0] == 'panic': l.res.add('%s#panic' % l.name, 'failed', 'panics (%s)' % o[1], 0); continue
            code = disc(o[1]); empty = or_(*[app('str.empty', (g[n],), 'B') for k, n in params if k == 'str'])
            yes, no = s2.fork().assume(and_(succ, not_(empty))), s2.fork().assume(and_(not_(succ), not_(empty))); emp = s2.fork().assume(empty)
            if not contradiction(yes.pc):
                l.holds(yes, eq(code, ZERO), 'success when the operation succeeds')
                if 'unit' in extras: vals = [after]       # the object it worked on, given out
                if 'seq' in extras:
                    yes.assume(le(ZERO, vals[1])); vals = [bytes_of(op, ids, vals[1]), vals[1]]
                some_ = app('lib.some.' + op, ids, 'B')
                for n, v in zip(outs, vals):
                    if 'opt' not in extras or n != outs[-1]: l.eq(yes, D(yes, g[n]), v, 'what %s receives' % n); continue
                    for s3, w, why in ((yes.fork().assume(some_), v, 'what %s receives'), (yes.fork().assume(not_(some_)), NULL, 'a null %s when there is nothing to give')):
                        if not contradiction(s3.pc): l.eq(s3, D(s3, g[n]), w, why % n)
                for n in muts: l.eq(yes, D(yes, g[n]), after if n == changed else app('arg.' + n, (), 'X'), 'the object %s afterwards' % n)
            for s3, why in ((no, 'the operation fails'), (emp, 'a string is empty')):
                if contradiction(s3.pc): continue
                l.holds(s3, not_(eq(code, ZERO)), 'an error code when %s' % why)
                for n in outs: l.eq(s3, D(s3, g[n]), UNSET, '%s is not written when %s' % (n, why))
    lem(fn)(lambda l: good(l))
    opts = [n for k, n in params if k.startswith('opt')]
    for n in opts: lem('%s without %s' % (fn, n))(lambda l, n=n: good(l, (n,)))
    if len(opts) > 1: lem('%s without optional arguments' % fn)(lambda l: good(l, opts))
    def refuse(n):
        def f(l):
            xs, g = start(l, (n,)); st = l.st; D = l.ex.deref
            for s2, o in l.run(st, ident, *xs):
                if contradiction(s2.pc): continue
                if o[0] == 'panic': l.res.add('%s#panic' % l.name, 'failed', 'panics (%s)' % o[1], 0); continue
                l.holds(s2, not_(eq(disc(o[1]), ZERO)), 'an error code')
                for m in outs:
                    if m != n: l.eq(s2, D(s2, g[m]), UNSET, '%s is not written' % m)
                for m in muts:
                    if m != n: l.eq(s2, D(s2, g[m]), app('arg.' + m, (), 'X'), '%s is not changed' % m)
        return f
    for k, n in params:
        if k in ('ref', 'mut', 'box', 'bytes', 'refs', 'str', 'out') or k.startswith('own.'): lem('%s: a null %s is refused' % (fn, n))(refuse(n))
rows = []
for name in 'generator sign_key ver_key pop signature multi_signature'.split():
    T_ = {'pop': 'ProofOfPossession'}.get(name, ''.join(w.capitalize() for w in name.split('_')))
    rows.append('bls | ursa_bls_%s_as_bytes | ref x, out bytes_p, out len_p | %s::as_bytes(x) | inf seq' % (name, T_))
    rows.append('bls | ursa_bls_%s_free | own.%s x | free_%s(x) | inf unit' % (name, T_, name))
for mod, names in (('cl::issuer', 'credential_public_key credential_private_key credential_key_correctness_proof=CredentialKeyCorrectnessProof revocation_key_public revocation_key_private revocation_registry revocation_tails_generator credential_signature signature_correctness_proof revocation_registry_delta'),
                   ('cl::prover', 'master_secret blinded_credential_secrets credential_secrets_blinding_factors blinded_credential_secrets_correctness_proof proof'),
                   ('cl', 'nonce=BigNumber tail!=PointG2 witness! credential_schema! non_credential_schema! credential_values! sub_proof_request!')):
    for e in names.split():
        name, _, T_ = e.replace('!', '').partition('='); T_ = T_ or ''.join(w.capitalize() for w in name.split('_'))
        rows.append('%s | ursa_cl_%s_free | own.%s x | free_%s(x) | inf unit' % (mod, name, T_, name))
        if '!' in e: continue
        rows.append('%s | ursa_cl_%s_to_json | ref x, out json_p | to_string:%s(x)' % (mod, name, T_))
        rows.append('%s | ursa_cl_%s_from_json | str json, out x_p | from_str:%s(json)' % (mod, name, T_))
for line in rows + TABLE.strip().split('\n'):
    parts = [x.strip() for x in line.split('|')]
    m = re.match(r'^([\w:]+)\((.*)\)$', parts[3])
    entry(parts[0], parts[1], [tuple(p.split()) for p in parts[2].split(', ') if p], m.group(1), [a.strip() for a in m.group(2).split(',') if a.strip()], parts[4].split() if len(parts) > 4 else [])
