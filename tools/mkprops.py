#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the table is easy to edit)."""
import json,os
R='Reference_Implementation/'; O='Optimized_Implementation/common/'
def F(*names):
    out=[]
    for n in names:
        out += [R+n, O+n]
    return out
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,tags=None):
    d=dict(id=id,title=title,statement=statement,
           quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=x,where=files[0]) for x in mech]))
    if state: d['anchors']['state']=[dict(name=x,meaning='state object the property speaks about') for x in state]
    if observe: d['anchors']['observe_at']=observe
    if tags: d['tags']=tags
    assert len(title)<=80,(id,len(title))
    P.append(d)

prop('C01','Challenge hash covers every commitment, the message and the salt',
 'When signing and when verifying, the challenge digest is the hash of exactly: the complete commitment of each of the t rounds in round order, then every byte of the message, then every byte of the salt - nothing skipped, repeated, truncated or reordered. The digest is produced at its full length, and the digest placed in the signature is that value.',
 ['inputs'],'every key, message (any length), randomness and challenge, all parameter sets, both implementations',
 'The tests sign and verify with the same code, so a transcript that omits part of the message, the salt or a commitment still verifies; only a forged or altered message would show it.',
 F('lib/LESS.c','lib/fips202.c','include/sha3.h'),
 ['sponge absorb sequence in LESS_sign and LESS_verify'],['sha3 incremental context'],['digest field of the signature'])
prop('C02','Verification accepts only on full digest equality and valid responses',
 'Verification returns only 0 or 1. It returns 1 exactly when every revealed response used for a challenged round is a valid monomial action and every byte of the recomputed challenge digest equals the corresponding digest byte carried in the signature.',
 ['inputs'],'every public key with a well-formed encoding, message and signature bytes',
 'Existing tests verify only honestly generated signatures; a comparison that ignores some bytes, or a dropped validity check, accepts them all.',
 F('lib/LESS.c'),['LESS_verify final comparison','is_monom_action_valid result'],None,['return value of LESS_verify'])
prop('C03','Opening a signed message is bounded and decided for arbitrary bytes',
 'For every buffer and length given as a signed message, including empty and truncated ones, opening reads only inside that buffer, writes at most the recovered message into the output, and returns 0 or -1. It returns 0 only if verification of the embedded signature on the recovered message succeeded, and the recovered message is then a prefix of the input of length input-length minus the encoded signature length.',
 ['inputs'],'every byte string of every length passed as signed message, every public key',
 'Only well-formed signed messages are ever opened by the tests; lengths below a signature and hostile count bytes are a practically unbounded input space.',
 F('lib/sign.c','lib/LESS.c','include/parameters.h'),
 ['crypto_sign_open length handling'],None,['reads of sm, writes to m and mlen, return value'])
prop('C04','Signer and opener agree on the signed-message layout',
 'A signed message is the unmodified message followed by the signature; its reported length is the message length plus the length implied by the number of published seeds, and its last byte is that number. The opener locates the signature at exactly the offset the signer used, for every number of published seeds the signer can produce, and rejects none of these.',
 ['inputs'],'every message length and every attainable number of published seeds (0..capacity) in each parameter set',
 'The extreme seed counts have negligible probability in random tests, so an off-by-one between the two sides is never sampled.',
 F('lib/sign.c','include/parameters.h','include/LESS.h'),
 ['LESS_CRYPTO_BYTES','MAX_PUBLISHED_SEEDS','crypto_sign / crypto_sign_open'],None,['sm, smlen'])
prop('C05','Packing of a response is lossless, exact in size and fully defined',
 'Encoding any monomial action and decoding it yields the same permutation and coefficients, bit for bit. The encoder writes exactly the bytes of one response slot, all of them with values determined by the action alone, and the decoder reads only those bytes.',
 ['inputs'],'every monomial action with in-range entries (all 2^n value combinations), all parameter sets, both implementations',
 'Random actions sample a vanishing part of the bit patterns and an over-write by one byte or an undefined padding bit goes unnoticed inside the signature structure.',
 F('lib/monomial.c','include/monomial_mat.h','include/parameters.h'),
 ['compress_monom_action','expand_to_monom_action'])
prop('C06','Packing of a public matrix is lossless, exact in size and fully defined',
 'Encoding a matrix in reduced row echelon form with its pivot flags and decoding it yields the same matrix, bit for bit. The encoder writes exactly the bytes of one public-key slot and leaves none of them undefined; the decoder reads only those bytes.',
 ['inputs'],'every matrix content for pivot-column patterns with the pivots leading, trailing, interleaved or displaced; all parameter sets, both implementations',
 'In practice almost every matrix has its pivots in the first k columns, so other pivot patterns are essentially never exercised.',
 F('lib/codes.c','include/codes.h','include/parameters.h'),
 ['compress_rref','expand_to_rref'])
prop('C07','Every key and signature uses fresh, full-length system randomness',
 'Key generation draws the whole secret seed and the whole public-code seed, and signing draws the whole ephemeral seed and the whole salt, from the system random source on every call. No drawn byte is discarded, reused in two places, overwritten or replaced by a constant, and nothing else is drawn.',
 ['inputs','histories'],'every call sequence and every state of the random source',
 'A shortened, duplicated or constant draw still produces keys and signatures that verify.',
 F('lib/LESS.c','include/rng.h'),['randombytes calls in LESS_keygen and LESS_sign'],['platform_csprng_state'])
prop('C08','Seed expansion depends on the whole seed, salt and index',
 'Each expansion feeds the extendable-output function with exactly the complete inputs it is specified to take: the ephemeral monomial from the whole seed, whole salt and 16-bit round index; the secret monomial from the whole double-length seed; the public code from its whole seed; the challenge from the whole digest; each tree node from the whole salt and its whole parent seed.',
 ['inputs'],'every seed, salt and index value',
 'Dropping or truncating an input keeps signing and verification mutually consistent, so round-trip tests pass while different inputs collide.',
 F('lib/monomial.c','lib/seedtree.c','lib/codes.c','lib/utils.c','lib/rng.c'),
 ['initialize_csprng call sites'])
prop('C09','Published seeds never reveal the seed of a challenged round',
 'For every challenge, no seed written to the signature is the leaf seed of a challenged round or one of its ancestors in the seed tree.',
 ['inputs'],'every subset of challenged rounds (2^t) and every tree content',
 'The leak does not affect verification; a test would have to search the tree for each of the 2^t challenges.',
 F('lib/seedtree.c'),['compute_seeds_to_publish','seed_tree_path'],['flags tree'],['seed storage in the signature'])
prop('C10','The verifier rebuilds exactly the signer\'s seeds for unchallenged rounds',
 'For every challenge, the leaf seed the verifier reconstructs for each unchallenged round from the published seeds and the salt equals the one the signer used. Both sides publish and consume the same number of seeds in the same order.',
 ['inputs'],'every subset of challenged rounds and every tree content',
 'Only the challenges hit by random tests are checked; the pairing of publishing order and consuming order must hold for all subsets.',
 F('lib/seedtree.c'),['seed_tree_path','rebuild_seed_tree_leaves','generate_seed_tree_from_root'])
prop('C11','Secret bytes reach public outputs only through the specified maps',
 'No byte of the public key or the signature is computed directly from the secret seed, the ephemeral root seed, an unpublished tree seed or a per-key secret monomial seed other than through the extendable-output function followed by the specified matrix or monomial operations.',
 ['inputs'],'every key, message, randomness and challenge',
 'A leaked secret byte in an otherwise unused or verified-as-opaque field does not change any test outcome.',
 F('lib/LESS.c','lib/sign.c','lib/seedtree.c'),['LESS_keygen, LESS_sign data flow'])
prop('C12','No hidden mutable state besides the system random source',
 'The library keeps no mutable global or static state except the state of the system random source. Verification neither reads nor writes that state, so concurrent verifications, and signing with per-thread random sources, cannot interfere.',
 ['schedules','histories'],'every interleaving and history of API calls',
 'Single-threaded tests never observe a race or a result cached from an earlier call.',
 F('lib/LESS.c','lib/codes.c','lib/monomial.c','lib/seedtree.c','lib/utils.c','lib/rng.c','lib/fips202.c','lib/keccakf1600.c','lib/sign.c'),
 ['all functions reachable from the API'],['platform_csprng_state'])
prop('C13','Inputs declared const are never written',
 'Key generation, signing, verification and opening never write through an argument they receive as input: message, secret key, public key, signature and signed message are unchanged after every call.',
 ['inputs'],'every call, both implementations',
 'The casts in the wrapper drop const, so the compiler does not object and tests that reuse fresh buffers do not notice.',
 F('lib/sign.c','lib/LESS.c','lib/codes.c','lib/monomial.c','lib/seedtree.c'),['stores reachable from API entry points'])
prop('C14','API calls have no external effects, heap use or unbounded recursion',
 'No function reachable from key generation, signing, verification or opening allocates heap memory, performs I/O, terminates the process or calls outside the library except for memory copy, fill and compare. The only recursion is the column sort.',
 ['inputs','fault_sequences'],'every path through every function reachable from the API',
 'Error paths that print, abort or allocate are exactly the ones the tests never take.',
 F('lib/sign.c','lib/LESS.c'),['call graph from the API entry points'])
prop('C15','Outputs are completely written and never depend on uninitialised memory',
 'On return of key generation every byte of both keys, and on return of signing every byte of the reported signature, has been written and is determined by the inputs and the random source. No branch, address or output of the API depends on an uninitialised byte.',
 ['inputs'],'every input and randomness, all parameter sets, both implementations',
 'Stale stack or heap bytes usually happen to be harmless in a test run; memory checkers see only the sampled paths.',
 F('lib/LESS.c','lib/codes.c','lib/monomial.c','lib/seedtree.c'),['LESS_keygen, LESS_sign, LESS_verify'])
prop('C16','Parameter sets are internally consistent',
 'In every parameter set: types and masks are wide enough for the quantities they hold, packed sizes match the bits they carry, the seed tree has room for every round, the reserved seed space holds the largest number of seeds any challenge of the fixed weight can require, and that number fits the count byte.',
 ['configurations'],'all seven parameter sets in both implementations',
 'The worst-case seed count has negligible probability, and slack in sizes hides inconsistencies in a run.',
 F('include/parameters.h','include/LESS.h','include/codes.h','include/monomial_mat.h'),['constants and type definitions'])
prop('C17','Reference and optimised implementations are interoperable byte for byte',
 'For every parameter set, both implementations use identical layouts for keys and signatures, identical packed encodings and seed trees, and the same challenge transcript; given the same inputs and randomness they produce the same keys and signatures and reach the same verdict, and each decodes what the other encoded.',
 ['configurations','inputs'],'all parameter sets and all inputs',
 'Each implementation is only tested against itself.',
 F('lib/LESS.c','lib/monomial.c','lib/codes.c','lib/seedtree.c','lib/utils.c'),['public key, signature, transcript'])
prop('C18','The hash functions are FIPS 202 SHA3 and SHAKE',
 'The permutation is Keccak-f[1600] with 24 rounds, and each SHA3/SHAKE variant uses the standard rate, padding and output length. Incremental hashing gives the same result however the input is split into absorb calls and the output into squeeze calls.',
 ['inputs'],'every input content, length and chunking (checked for representative length/chunk shapes around the block boundaries)',
 'A wrong hash is self-consistent between signer and verifier; no known-answer vectors are compared by the tests.',
 F('lib/fips202.c','lib/keccakf1600.c','include/fips202.h'),['KeccakF1600_StatePermute','keccak_inc_*'])
prop('C19','The challenge always has length t and exactly w nonzero in-range entries',
 'Expanding any digest writes only inside the challenge vector and terminates only when exactly w positions are nonzero. Every entry is smaller than the number of key pairs, and a position once set is never overwritten.',
 ['inputs'],'every digest',
 'Rejection edge cases depend on hash output and are sampled with tiny probability.',
 F('lib/utils.c'),['expand_digest_to_fixed_weight'])
prop('C20','Samplers fill the whole output with in-range values',
 'Sampling field elements writes exactly the requested number of elements, each inside the requested range and taken unmodified from accepted random bits. A sampled permutation vector contains only valid positions, obtained from the identity by exchanges.',
 ['inputs'],'every random bit stream and requested length used in the library',
 'Out-of-range values occur only for rejected bit patterns that a modified test may never sample.',
 F('include/fq_arith.h','lib/monomial.c'),['DEF_RAND / DEF_RAND_STATE','yt_shuffle_state'])
prop('C21','Field arithmetic is exact and canonical for all operands',
 'For all field elements, reduction, multiplication, matrix-by-monomial products and inversion give the exact residue modulo 127 in the range 0 to 126, in the scalar and in the vectorised code.',
 ['inputs'],'all operand pairs in 0..126, every vector lane and column',
 'An error confined to one lane, one column or a few operand values (such as the second representation of zero) is hit rarely and cancels out in sign/verify round trips.',
 F('include/fq_arith.h','lib/codes.c','lib/monomial.c')+['Optimized_Implementation/avx2/include/macro.h'],
 ['fq_red, fq_inv, br_mul, br_red, generator_monomial_mul, monomial_mat_mul'])
prop('C22','Verification is memory-safe for arbitrary keys and signatures',
 'For every content of the public key, message and signature, verification reads only inside its arguments and reads and writes only inside its own objects, apart from row reduction and the in-place sorting of columns, which are not covered.',
 ['inputs'],'every byte pattern of public key and signature, any message length',
 'The tests only use honest keys and signatures; out-of-range indices require adversarial bytes.',
 F('lib/LESS.c','lib/codes.c','lib/monomial.c','lib/seedtree.c'),['LESS_verify and its callees'])
prop('C23','The response validity check is exact',
 'The validity check accepts a decoded response if and only if all its coefficients lie in 1..126, all its positions are smaller than the code length, and no position occurs twice.',
 ['inputs'],'every decoded response',
 'The check is never exercised with invalid responses by the tests.',
 F('lib/monomial.c'),['is_monom_action_valid'])
prop('C24','Designated constant-time helpers have data-independent control flow',
 'Digest comparison, field inversion and column minimisation perform the same sequence of instructions and memory addresses for all values of the data they process.',
 ['inputs'],'all values of the compared or processed data',
 'Functional tests cannot observe timing or address traces.',
 F('lib/LESS.c','lib/codes.c','include/fq_arith.h'),['timing_safe_memcmp','fq_inv','lex_minimize'])
prop('C25','Key generation and signing derive the same secrets for each key slot',
 'The secret monomial seeds are consecutive, disjoint, full-length outputs of one expansion of the whole secret seed, and the same in key generation and signing. The response for challenge value v is computed from the secret belonging to public-key slot v, from the commitment action of the same round, and stored in the order of the challenged rounds.',
 ['inputs'],'every secret key and challenge',
 'With only one extra key pair in most parameter sets, slot mix-ups are invisible in most test configurations.',
 F('lib/LESS.c'),['private_monomial_seeds in LESS_keygen and LESS_sign'])
prop('C26','Column comparison and exchange of the canonical form are exact',
 'Comparing two columns of the commitment matrix decides by the first row in which they differ, over all rows, and reports equality only if all rows agree. Exchanging two columns swaps all their entries and changes nothing else.',
 ['inputs'],'every matrix and pivot content; all parameter sets, both implementations',
 'Random columns differ in their first or second row, so rows further down are essentially never compared.',
 F('lib/codes.c'),
 ['lex_compare_with_pivot','column_swap'])
prop('E01','Honest signatures always verify',
 'For every key pair produced by key generation and every message, a signature produced by signing is accepted by verification.',
 ['inputs'],'all keys, messages and randomness',
 'Only a few keys and messages are sampled.',
 F('lib/LESS.c'),['LESS_sign / LESS_verify'])
prop('E02','Signatures are unforgeable',
 'Without the secret key nobody can produce an accepted signature on a message that was not signed.',
 ['programs'],'all efficient adversaries','A computational assumption cannot be tested.',F('lib/LESS.c'),['whole scheme'])
prop('E03','Sampled keys, permutations and challenges are uniformly distributed',
 'Field elements, permutations and challenges are distributed as the specification requires.',
 ['inputs'],'the distribution over all random streams','A distribution cannot be established by samples.',F('lib/monomial.c','lib/utils.c'),['yt_shuffle_state','expand_digest_to_fixed_weight'])
prop('E04','Row reduction and column sorting are functionally correct',
 'Row reduction returns the reduced row echelon form of its input and the column sort returns the columns in lexicographic order.',
 ['inputs'],'all matrices','Only random matrices are sampled.',F('lib/codes.c'),['generator_RREF','lex_sort_cols'])
prop('E05','The whole signing operation is constant time',
 'The execution time and memory trace of signing do not depend on secret data.',
 ['inputs'],'all secrets','Timing is not observed by functional tests.',F('lib/LESS.c','lib/codes.c','lib/monomial.c'),['LESS_sign'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
