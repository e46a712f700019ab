CONFIGS=[('CATEGORY_1','BALANCED'),('CATEGORY_1','INTERMEDIATE'),('CATEGORY_1','SHORT_SIG'),('CATEGORY_3','BALANCED'),('CATEGORY_3','SHORT_SIG'),('CATEGORY_5','BALANCED'),('CATEGORY_5','SHORT_SIG')]
PAR={('CATEGORY_1','BALANCED'):dict(T=247,W=30,NK=2),('CATEGORY_1','INTERMEDIATE'):dict(T=244,W=20,NK=4),('CATEGORY_1','SHORT_SIG'):dict(T=198,W=17,NK=8),('CATEGORY_3','BALANCED'):dict(T=759,W=33,NK=2),('CATEGORY_3','SHORT_SIG'):dict(T=895,W=26,NK=3),('CATEGORY_5','BALANCED'):dict(T=1352,W=40,NK=2),('CATEGORY_5','SHORT_SIG'):dict(T=907,W=37,NK=3)}
T_=lambda c:PAR[c]['T']
ENG='Value-graph abstract interpretation of the LLVM IR of the current sources (all seven parameter sets, both implementations); joins at control-flow merges, no execution, no solver.'
CHECKS={}
CHECKS['C05']=dict(kinds=['bounds','prove','uninit','readonly'],harnesses=[dict(file='C05.c',reach={'roundtrip':1})],
  rule='In exact-size buffers: every access of compress_monom_action/expand_to_monom_action in bounds; every slot byte defined; decode(encode(a)) has the same value-graph node as a for every coefficient and position.',
  explain=ENG+' Coefficients range over 0..126, positions over 0..N-1, symbolically and bit by bit.')

CHECKS['C06']=dict(kinds=['bounds','prove','uninit','readonly'],harnesses=[dict(file='C06.c',defs=['-DPAT=%d'%p],reach={'roundtrip':1}) for p in range(6)],
  rule='In an exact-size slot (all bytes initially undefined): after compress_rref every slot byte is defined; expand_to_rref reads only those bytes; afterwards every pivot flag and every entry of the matrix has the value-graph node it had before encoding, and the decoder reports acceptance.',
  explain=ENG+' Every matrix entry outside the pivot columns is symbolic (0..126), bit by bit; the pivot pattern is one of: leading, trailing, interleaved, displaced, shifted by one, pseudo-random.',
  assumptions=['Pivot patterns are the six listed ones; the entries are arbitrary in each of them.'])

UFN=' Heavy matrix/monomial/tree functions are replaced by uninterpreted functions of their complete inputs; hash contexts are uninterpreted sponges.'
VER=lambda d,**k: dict(file='verify.c',defs=['-D'+d],reach={'verify':1},**k)
SGN=lambda d,**k: dict(file='sign.c',defs=['-D'+d],reach={'sign':1},**k)
KGN=lambda d,**k: dict(file='keygen.c',defs=['-D'+d],reach={'keygen':1},**k)
AS_UF='Bodies of the functions treated as uninterpreted are covered by other properties (C05, C06, C08, C18-C23), not by this one.'
CHECKS['C01']=dict(kinds=['prove','sponge'],harnesses=[SGN('P_C01'),VER('P_C01')],
  rule='The value-graph node of the digest equals the node of H(commitments of all rounds in order | message[0..mlen) | salt); verification compares against that node.',
  explain=ENG+UFN+' LESS_sign and LESS_verify are interpreted for an arbitrary key, message of arbitrary length, signature and challenge; the absorbed transcript is compared piece by piece with the specified one.',assumptions=[AS_UF,'Pivot flags of recomputed codewords are taken from a representative pattern (odd columns) in LESS_verify.'])
CHECKS['C02']=dict(kinds=['prove'],harnesses=[VER('P_C02')],
  rule='The return value of LESS_verify, as a boolean function of all inputs, is equivalent to (all used responses valid) and (all digest bytes equal); each conjunct implied in both directions.',
  explain=ENG+UFN+' The returned value is a formula over validity results and digest bits; equivalence is decided conjunct by conjunct.',assumptions=[AS_UF,'Public key encodings that decode and codewords of full rank (failing decodes are handled by C22).'])
CHECKS['C07']=dict(kinds=['prove'],harnesses=[KGN('P_C07'),SGN('P_C07')],
  rule='Every drawn seed/salt in the outputs is a full-length window of the system source stream, windows are consecutive and disjoint, and the source has advanced by exactly their total on return.',
  explain=ENG+UFN+' The system source is an uninterpreted stream at an arbitrary position.',assumptions=[AS_UF])
CHECKS['C15']=dict(kinds=['uninit','prove'],harnesses=[KGN('P_C15'),SGN('P_C15'),VER('P_C15')],
  rule='No branch, address, hash input or function input carries the uninitialised attribute; every output byte is defined on return.',
  explain=ENG+UFN+' Every object starts with uninitialised contents; the attribute is propagated through all operations and joins.',assumptions=[AS_UF])
CHECKS['C23']=dict(kinds=['prove','bounds','uninit'],harnesses=[dict(file='C23.c',reach={'compared':1})],
  rule='The value of is_monom_action_valid is equivalent to: all coefficients in 1..126, all positions < n, positions pairwise distinct.',
  explain=ENG+' All coefficient bytes and all position values are symbolic; equivalence is decided conjunct by conjunct.')
CHECKS['C25']=dict(kinds=['prove'],harnesses=[KGN('P_C25'),SGN('P_C25')],
  rule='Public matrix i = SF(G0*Q_i^-1) and each response = action composed from secret f_r-1 and the commitment action of round r, stored at the index of r among the challenged rounds; secret seeds are consecutive windows of one expansion in both functions.',
  explain=ENG+UFN+' Slot and round indices are compared symbolically for every challenge.',assumptions=[AS_UF])
API=lambda d,reach,**k: dict(file='api.c',defs=['-D'+d],reach=reach,**k)
CHECKS['C03']=dict(kinds=['prove','bounds','readonly','uninit'],harnesses=[API('M_OPEN',{'short':1,'count':1,'open':2,'trunc':1})],
  rule='For symbolic signed-message length and contents, split by (too short | seed count above capacity | count k with truncated | count k with complete signature): every access of crypto_sign_open is inside its exact-size buffers, malformed inputs return -1, otherwise the result is LESS_verify(recovered message, embedded signature)-1 and the output is the prefix of length smlen - siglen(k).',
  explain=ENG+' crypto_sign_open is interpreted with symbolic lengths; LESS_verify is replaced by its contract (it may read all of the signature object it is given).',assumptions=['LESS_verify itself is covered by C02 and C22.'])
CHECKS['C04']=dict(kinds=['prove','bounds','uninit'],harnesses=[API('M_SIGN',{'signed':2}),API('M_OPEN',{'open':2}),SGN('P_C25',kinds=['prove'])],
  rule='For every seed count k up to the capacity and every message length: signing produces message|signature with length mlen+siglen(k) and last byte k; opening hands verification exactly the signature at offset smlen-siglen(k); LESS_sign writes the number of published seeds as the byte following the seeds.',
  explain=ENG+' Lengths and offsets are compared as linear forms over a symbolic message length, for each seed count.',assumptions=[AS_UF])

TRE=lambda d,r: dict(file='tree.c',defs=['-D'+d],reach=r)
CHECKS['C09']=dict(kinds=['prove'],harnesses=[TRE('P_C09',{'path':1}),dict(file='sign.c',defs=['-DP_C09','-DP_LEAF'],reach={'sign':1})],
  rule='Every piece of the seed tree that seed_tree_path stores, under its symbolic store condition, is a node with no challenged round below it; LESS_sign publishes exactly the output of seed_tree_path on the tree of this signature and the exact set of challenged rounds.',
  explain=ENG+' All challenge flags are symbolic at once; each conditional store of the path function is paired with the specification flag of the node it copies.',assumptions=['At least one round is challenged (w >= 1).','The capacity of the published-seed area is decided by C16.'])
CHECKS['C10']=dict(kinds=['prove'],harnesses=[TRE('P_C10',{'round':T_}),dict(file='sign.c',defs=['-DP_C10','-DP_LEAF'],reach={'sign':1}),dict(file='verify.c',defs=['-DP_C10','-DP_LEAF'],reach={'verify':1})],
  rule='For symbolic flags: after generate, path and rebuild, the value-graph node of every unchallenged leaf equals the one generated, and the numbers published and consumed are equal; in LESS_sign and LESS_verify round i uses exactly leaf i and the salt of the tree, and the tree functions get exactly the set of challenged rounds and the seeds of the signature.',
  explain=ENG+' All challenge flags, the root seed and the salt are symbolic; tree expansion is an uninterpreted sponge.',assumptions=['At least one round is challenged (w >= 1).'])
SMP=lambda d,r: dict(file='sampler.c',defs=['-D'+d],reach=r)
CHECKS['C08']=dict(kinds=['prove','sponge','bounds','uninit'],harnesses=[SMP('P_C08',{'challenge':1,'ephemeral':1,'secret':1,'code':1,'draw':4}),TRE('P_C08',{'nodes':1})],
  rule='At every draw the expandable-output context has the value-graph node of a context that absorbed exactly the specified inputs (seed | salt | 16-bit round index; double-length seed; code seed; digest); every seed tree node has the node of the corresponding half of the expansion of (salt | parent seed).',
  explain=ENG+' Inputs are symbolic, the extendable-output function is an uninterpreted sponge whose identity is everything absorbed so far; the rejection loops around the draws are abstracted by a loop fixpoint.')
CHECKS['C19']=dict(kinds=['prove','bounds','uninit'],harnesses=[SMP('P_C19',{'challenge':1})],
  rule='In the loop fixpoint of expand_digest_to_fixed_weight for arbitrary random bits: the loop counter equals the number of nonzero entries (each store sets a zero entry to a nonzero value), the loop exits only with counter w, all entries are in range, every access is inside the vector.',
  explain=ENG+' The rejection loop is abstracted by a fixpoint over its loop-carried variables and memory classes; the weight relation is a loop invariant of the abstract domain.')
CHECKS['C20']=dict(kinds=['prove','bounds','uninit'],harnesses=[SMP('P_C20',{'field':12,'ephemeral':1,'secret':1,'code':1})],
  rule='In the loop fixpoint of each sampler for arbitrary random bits: exactly the requested elements are written, each is (minimum + the masked raw bits) and inside its range on the accepting branch; the permutation vector is the identity changed only by exchanges of two in-range positions.',
  explain=ENG+' Rejection, row and shuffle loops are abstracted by fixpoints (common iteration counter, intervals with widening, contiguous-fill and exchange invariants); random bits are arbitrary.')
SPG=lambda v,x,r,o,c: dict(file='sponge.c',defs=['-DV=%s'%v,'-DV_XOF=%d'%x,'-DRATE=%d'%r,'-DOUTLEN=%d'%o],cfgs=[CONFIGS[c]],reach={'sponge':r*11,'oneshot':12})
CHECKS['C18']=dict(kinds=['prove','bounds','uninit','readonly'],harnesses=[dict(file='keccakf.c',reach={'permutation':1}),SPG('shake128',1,168,0,0),SPG('sha3_256',0,136,32,0),SPG('shake256',1,136,0,3),SPG('sha3_384',0,104,48,3),SPG('sha3_512',0,72,64,5)],
  rule='For an arbitrary 1600-bit state every bit after KeccakF1600_StatePermute has the value-graph node of the FIPS 202 permutation. For every byte position within a block and every way a following call can end relative to the block boundaries, the incremental and one-shot functions produce the nodes of the byte-by-byte sponge of the standard.',
  explain=ENG+' The permutation is compared bit by bit over a GF(2)-linear value numbering; the sponge functions are compared with a byte-at-a-time specification around an uninterpreted permutation, with symbolic data, for every starting position in a block (reached with an arbitrary state) and call lengths around each block boundary.',
  assumptions=['Call lengths beyond three blocks only repeat the per-block loop already covered by the enumerated lengths.'])
F21=lambda d,r,**k: dict(file='C21.c',defs=['-D'+d],reach=r,**k)
CHECKS['C21']=dict(kinds=['prove','bounds','uninit','div0'],harnesses=[F21('P_SCALAR',{'scalar':1}),F21('P_SCALAR',{'scalar':1,'lanes':1},impl='opt',cfgs=[CONFIGS[0]]),F21('P_ACT',{'product':1,'inverse':1,'compose':1,'apply':1}),F21('P_MUL',{'product':1}),F21('P_MIN',{'minimise':4})],
  rule='For all operands: every output element is the exact residue modulo 127 in 0..126 (complete value-set table over the operand bits for each distinct expression); every element of every matrix and monomial product is the specified product at the specified position, in every vector lane and column.',
  explain=ENG+' Operands range over all of 0..126 symbolically. Matrix rows carry five different symbolic contents in rotation; permutations are fixed (a rotation and a reversal), coefficients and entries are arbitrary.',
  assumptions=['The permutation only selects positions: the products are analysed for two fixed permutations.','Rows are analysed with five symbolic row contents in rotation.'])
CTP='function(sroa,mem2reg,early-cse,simplifycfg<bonus-inst-threshold=4>,gvn,instcombine<no-verify-fixpoint>,simplifycfg<bonus-inst-threshold=4>,loop-simplify,lcssa),mergereturn'
CHECKS['C24']=dict(kinds=['ct'],harnesses=[dict(file='C24.c',reach={'compare':2,'invert':1,'minimise':1},passes=CTP)],
  rule='No branch condition, memory address, division operand or loop bound inside timing_safe_memcmp, fq_inv and lex_minimize carries the secret attribute when their data operands are secret.',
  explain=ENG+' The data operands are tagged secret and the tag is propagated through all operations and joins; every branch, address and variable-latency operation executed with the tag is reported.',
  assumptions=['Conditions without side effects that the source writes with && , || or ?: are lowered without a branch, as the standard LLVM simplification passes applied before the analysis do.'])

import structural as ST
FXT='static analysis: interprocedural call-graph and effect analysis (inclusion-based points-to with one context per call path) over linked LLVM IR'
FXE='The linked LLVM IR of every configuration is scanned: complete call graph from each API entry, inclusion-based points-to analysis cloned per call path, set of objects every store may write, every reference to a global.'
CHECKS['C12']=dict(kinds=['state','verify'],libs=True,post=ST.c12,technique=FXT,explain=FXE,
  rule='Every global that any store reachable from the API may write is the state used by randombytes; LESS_verify and crypto_sign_open reach no function that mentions a mutable global.')
CHECKS['C13']=dict(kinds=['readonly'],libs=True,post=ST.c13,technique=FXT,explain=FXE,assumptions=['Arguments of one call do not overlap.'],
  rule='The may-write set of every API entry, over all call paths, does not contain the objects passed as message, secret key, public key, signature or signed message.')
CHECKS['C14']=dict(kinds=['extern','recursion'],libs=True,post=ST.c14,technique=FXT,explain=FXE,
  rule='Every callee reachable from the API is defined in the library or is a memory copy/fill/compare; no indirect call or assembly; with the column sort removed the call graph is acyclic.')

CHECKS['C16']=dict(kinds=['params'],libs=True,post=ST.c16,technique='static analysis: compile-time constant evaluation by the compiler front end plus exhaustive tree recurrence over the evaluated constants',
  explain='All derived constants, type sizes and field offsets of every configuration are evaluated by the compiler from the current headers (no code is run) and compared with their defining relations; the largest number of published seeds is the exact maximum of a recurrence over the seed tree for the evaluated t, w and leaf count.',
  rule='Type widths, masks, packed sizes, structure layouts, encoded lengths and seed-tree constants satisfy their defining relations; worst-case published seeds <= reserved capacity <= 255.')

JNT=lambda r,*d: dict(file='C17.c',side='C17_side.c',defs=['-D'+x for x in d],reach=r)
PATS=['(i<K)','(i>=N-K)','(i%2)','((i>=2&&i<K+1)||i==N-1)']
CHECKS['C17']=dict(kinds=['prove'],post=ST.c17,harnesses=[JNT({'round':T_,'path':1},'B_TREE','DIR=1'),JNT({'round':T_,'path':1},'B_TREE','DIR=2'),JNT({'keygen':1},'B_UF','B_KEYGEN'),JNT({'sign':1},'B_UF','B_SIGN'),JNT({'verify':1},'B_UF','B_VERIFY')]+[JNT({'action':1,'matrix':1,'acceptance':3,'expand':1},'B_PACK','PAT='+p) for p in PATS]+[JNT({'digest':1},'B_DIGEST','PIV='+p) for p in PATS],
  rule='Both implementations are linked into one module (symbols prefixed) and interpreted on the same symbolic inputs: keys, signature fields, verdict, packed responses and matrices (each decoding what the other packed), seed tree, published and rebuilt seeds, commitment construction and expanded matrices have the same value-graph nodes; every layout constant (sizes, offsets, parameters) evaluates to the same number in both.',
  explain='Relational value-graph abstract interpretation of the LLVM IR of both implementations for all seven parameter sets.'+UFN+' Matrices are compared by their logical content, since the optimised implementation pads its rows.',
  assumptions=['Row reduction and column sorting of the two implementations are treated as the same mathematical function (E04); field, monomial and matrix products are each decided against one specification in C21, sampling in C08/C19/C20, hashing in C18.','Matrix packing is compared for four pivot patterns, the commitment for one permutation and the same patterns; contents are arbitrary.'])
CHECKS['C26']=dict(kinds=['prove','bounds','readonly','uninit'],harnesses=[dict(file='C26.c',defs=['-DP_CMP'],reach={'comparison':lambda c:{'CATEGORY_1':126,'CATEGORY_3':200,'CATEGORY_5':274}[c[0]]+1},anchors=['lex_compare_with_pivot']),dict(file='C26.c',defs=['-DP_SWAP'],reach={'exchange':6},anchors=['column_swap'])],
  rule='For every row j in which two columns can first differ (and for equal columns), the value returned by the column comparison follows the order of the two entries in row j; after an exchange of columns a and b every entry of the matrix has the value-graph node of the specified exchange.',
  explain=ENG+' Column contents are symbolic; the classes "first difference in row j" (j = 0..K-1, or none) partition all inputs.',
  assumptions=['Comparison is analysed for the first, second, middle and last column (rotating over the rows), exchange for six column pairs; contents are arbitrary. The partition scheme that calls them is not covered (E04).'])
ALLOUT=['-DP_C01','-DP_C07','-DP_C25']
CHECKS['C11']=dict(kinds=['prove','sponge'],harnesses=[dict(file='sign.c',defs=ALLOUT,reach={'sign':1}),dict(file='keygen.c',defs=ALLOUT,reach={'keygen':1}),TRE('P_C09',{'path':1}),SMP('P_C08',{'challenge':1,'ephemeral':1,'secret':1,'code':1,'draw':4}),TRE('P_C08',{'nodes':1}),dict(file='api.c',defs=['-DM_SIGN'],reach={'signed':2})],
  rule='Source whitelist for every output byte: the public-code seed and the salt are whole fresh draws; every public matrix byte is packed from SF(G0*Q_i^-1) with Q_i sampled from the expansion of the secret seed; the digest is the hash of commitments, message and salt; every response byte is packed from the composed action; published seeds are nodes of the tree grown from the ephemeral seed, none of them above a challenged round; the signed message is message | signature. Each secret enters only as the input of an extendable-output function.',
  explain=ENG+UFN+' Every byte of the public key and of the reported signature has the value-graph node of its specified map, so no other data flow from a secret to an output exists.',
  assumptions=[AS_UF,'At least one round is challenged (w >= 1).'])
MEM=['bounds','readonly','uninit']
mem=lambda h: dict(h,kinds=MEM)
CHECKS['C22']=dict(kinds=MEM+['prove'],harnesses=[VER('P_C22')]+[mem(h) for h in [dict(file='C05.c',reach={'roundtrip':1}),dict(file='C06.c',defs=['-DPAT=0'],reach={'roundtrip':1}),dict(file='C06.c',defs=['-DPAT=5'],reach={'roundtrip':1}),dict(file='C23.c',reach={'compared':1}),SMP('P_C19',{'challenge':1}),SMP('P_C20',{'field':12,'ephemeral':1,'secret':1,'code':1}),dict(TRE('P_C10',{'round':T_}),cfgs=[CONFIGS[0],CONFIGS[4],CONFIGS[6]],thorough_all=True),F21('P_ACT',{'product':1,'inverse':1,'compose':1,'apply':1}),F21('P_MUL',{'product':1}),F21('P_MIN',{'minimise':4})]],
  rule='For an arbitrary public key, message, signature and challenge: every access LESS_verify makes is inside its exact-size arguments and objects, inputs are not written, and the action is applied only to a matrix that decoded and with an action that passed the validity check; every access of the functions it calls (decoders, validity check, samplers, seed tree, matrix products, column minimisation) is inside its objects under the contract established there.',
  explain=ENG+' The verification driver is interpreted over uninterpreted callees with ghost outcomes of the two validity decisions; each callee is then interpreted on its own in exact-size objects (compositional contracts).',
  assumptions=['Row reduction is not covered: the bounds of its pivot search rest on relations between row and column counters that hold only for matrices of the right rank.','Public matrices are decoded for two pivot patterns and permutations in matrix products are fixed; contents are arbitrary.','Pivot flags after row reduction follow a representative pattern with exactly K pivots.'])
