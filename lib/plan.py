"""Which obligations decide which property, and the verdict."""
import os, sys, json, time, hashlib
import engine1, build
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUANT = ('greedy', 'lazy', 'possessive', 'repeated')
# instances that cost the most; the same code is covered by the other instances of the node
HEAVY = {'greedy_mm_v2', 'greedy_mm_v0ii', 'greedy_mu_g0i', 'greedy_mu_g1', 'greedy_mu_v2', 'greedy_mu_v0ii', 'greedy_mm_v1i', 'greedy_mu_v1i', 'greedy_mu_v1', 'greedy_mu_v0i', 'greedy_mm_s0i', 'greedy_mm_s1'}
HEAVIER = HEAVY | {'greedy_mm_g0i', 'greedy_mm_g1', 'greedy_mm_v0i', 'greedy_mm_v1', 'greedy_0u_g1g', 'greedy_mm_f2', 'greedy_0m_v2', 'greedy_0u_v2', 'greedy_0m_v0ii', 'greedy_0u_v0ii', 'greedy_mu_f2', 'greedy_mm_f0ii', 'greedy_0u_v1i', 'greedy_0m_g0i', 'greedy_0m_g1'}
ALLP = ['C%02d' % k for k in range(1, 15)]

def select(p, tier):
    def f(spec, i):
        nodes, term, res, tok = spec == 'nodes_spec', spec == 'term_spec', spec == 'result_spec', spec == 'token_spec'
        k = getattr(i, 'kind', '')
        skip = set() if tier == 'thorough' else HEAVY if p in ('C04',) else HEAVIER
        if nodes and i.name in skip: return False
        if spec == 'math_spec': return p in ('C06', 'C08')
        if p == 'C01': return True
        if spec == 'uniform_spec': return p in ('C02', 'C04', 'C05', 'C08', 'C14')
        if p == 'C02': return nodes or term or (res and k in ('ctor', 'next'))
        if p == 'C03': return (res and k in ('ctor', 'next', 'incr', 'begin', 'end')) or (nodes and k in ('alt', 'simple'))
        if p == 'C04': return nodes and k in QUANT
        if p == 'C05': return nodes or term
        if p == 'C06': return (nodes and i.ng > 0) or (term and k in ('exact', 'class')) or (res and not k.startswith('lsv'))
        if p == 'C07': return term or (nodes and k == 'negated')
        if p == 'C08': return (nodes and (i.meta or k in ('lazy', 'possessive') or i.name.startswith(('greedy_0u', 'greedy_0m')))) or term
        if p == 'C09': return term
        if p == 'C10': return False
        if p == 'C11': return tok or (res and k.startswith('lsv'))
        if p == 'C12': return res
        if p == 'C13': return nodes and k in ('simple', 'alt', 'group') and not i.meta
        if p == 'C14': return (nodes and k in QUANT) or tok or (res and k in ('ctor', 'next', 'incr'))
        return False
    return f

TAGMAP = {'safety': 'C01', 'termination': 'C14'}
def tagged(p, tags):
    t = {TAGMAP.get(x, x) for x in tags}
    if p in t: return True
    if p == 'C08' and ({'C04'} & t): return True      # both forms of a quantifier have to meet their contracts
    if p == 'C13' and ({'C05'} & t): return True
    return False

def tok_corpus():
    try:
        import tokcorpus; return tokcorpus
    except ImportError: return None

def corpus_run(p, tier, seed, wide=False):
    """bounded supplement -> (mismatches for p, all mismatches, stats)"""
    bad = []; stats = dict(patterns=0, subjects=0, compared=0)
    import viewcorpus
    views = viewcorpus.start() if p in ('C03', 'C12') or wide and p in ('C01', 'C11', 'C14') else None
    if p == 'C11' or (p in ('C01', 'C14') and tok_corpus()):
        tc = tok_corpus()
        if tc:
            b, s = tc.run(tier, seed); bad += b
            for k in stats: stats[k] += s.get(k, 0)
    if p != 'C11':
        import corpus
        corpus.DEADLINE[0] = None if tier == 'thorough' else time.time() + 240
        cap = None if tier == 'thorough' else 1500 if wide else 400
        allp = corpus.patterns(tier)
        ps = allp if wide else [x for x in allp if p in x[1]]
        if cap and len(ps) > cap:
            key = lambda x: hashlib.sha256(p.encode() + x[0]).hexdigest()
            own = [x for x in ps if p in x[1]]; 
            if wide: own = own + [x for x in ps if p not in x[1]]
            cnt = [x for x in own if x[2].startswith('count')]; rest = [x for x in own if not x[2].startswith('count')]
            nc = min(len(cnt), 200 if p == 'C10' or wide else 50 if p == 'C04' else 0)
            ps = sorted(rest, key=key)[:cap - nc] + sorted(cnt, key=key)[:nc]
        keep = {x[0] for x in ps}
        b, s = corpus.run(tier, seed, select=None, only=keep, extra=[(x, (p,), k) for x, k in corpus.literals()] if wide else ()); bad += b
        for k in stats: stats[k] += s.get(k, 0)
        if p == 'C09' and hasattr(corpus, 'independence'):
            b, s = corpus.independence(tier); bad += b; stats['compared'] += s
    if p == 'C02':
        import ctcorpus
        b, s = ctcorpus.run(tier, seed); bad += b
        for k in stats: stats[k] += s.get(k, 0)
    if views:
        b, s = viewcorpus.finish(views); bad += b
        for k in stats: stats[k] += s[k]
    return [b for b in bad if p in b['tags']], bad, stats

def known():
    f = os.path.join(HERE, 'known_findings.json')
    return json.load(open(f)).get('known', []) if os.path.exists(f) else []

def show(b):
    return ', '.join('%s=%s' % (k, str(v)[:300]) for k, v in b.items() if k != 'tags')

def replay(p, mism, failed, extra=''):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    f = os.path.join(HERE, 'evidence', 'replay_%s.txt' % p)
    with open(f, 'w') as o:
        o.write('property %s\n\n' % p)
        if mism:
            o.write('FAILING INPUTS (real code, through the public API; expected values from lib/ref.py)\n')
            for b in mism[:20]: o.write('  ' + show(b) + '\n')
            b = mism[0]
            if 'program' in b: o.write('\nreproduce:\n' + b['program'] + '\n')
            elif b.get('subject') is not None:
                import corpus
                o.write('\nreproduce: g++ -std=c++23 -I/repo/src x.cpp, with\n#include <algorithm>\n#include <array>\n#include <e_regex.hpp>\n#include <cstdio>\nint main() { auto m = e_regex::regex<%s>::match(std::string_view(%s, %d)); const char* b = m.to_view().data(); while (m.is_accepted()) { for (unsigned k = 0; k <= m.size(); ++k) printf("[%%.*s] ", (int)m[k].size(), m[k].data()); puts(""); if (!m.next()) break; } }\n'
                        % (corpus.cstr(b['pattern']), corpus.cstr(b['subject']), len(b['subject'])))
        if failed:
            o.write('\nFAILED OBLIGATIONS (generated from the current source)\n')
            for n, ob in failed[:60]:
                o.write('  %s: %s%s\n' % (n, ob[0], ' [depends on a loop invariant]' if ob[3] else ' [solver gave up]' if ob[4] else ''))
                if ob[5]: o.write('      verifier output: %s\n' % str(ob[5])[:600])
        o.write(extra)
    return f

def main(p, tier):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    total = 3000 if tier == 'thorough' else 560
    deadline = t0 + total
    failed = []; obls = 0; ok = 0; insts = []; errors = []
    funcs = set(); stubs = set(); loops = set(); queries = 0; solver = 0.0
    def bad_of(r): return [o for o in r['obls'] if not o[2] and tagged(p, o[1])]
    mism, allm, stats = corpus_run(p, tier, seed)
    kn = [k for k in known() if k['property'] == p]
    def is_known(b): return any('pattern' in b and k.get('pattern') == b['pattern'].decode('latin1') and (k.get('subject') is None or b.get('subject') is not None and k['subject'] == b['subject'].decode('latin1')) for k in kn)
    if any(not is_known(b) for b in mism): deadline = time.time() + 90      # decided already: the contracts are only asked which obligation fails
    rs = engine1.run(select(p, tier), limit=600 if tier == 'thorough' else 150, deadline=deadline, stop=lambda r: any(not o[3] and not o[4] for o in bad_of(r)))
    for r in rs:
        mine = [o for o in r['obls'] if tagged(p, o[1])]
        if r['error']: errors.append((r['name'], r['error']))
        if not mine and not r['error']: continue
        insts.append(r['name']); obls += len(mine) + (1 if r['error'] else 0); ok += sum(1 for o in mine if o[2])
        failed += [(r['name'], o) for o in mine if not o[2]]
        funcs |= set(r['funcs']); stubs |= set(r['stubs']); loops |= set(r['loops']); queries += r['queries']; solver += r['solver_s']
    # type-level equations and lemmas
    backends = {'z3 (contracts of functions)': ok}; soft = []; wit = []
    for mod in ('engine2', 'lemmas'):
        try: M = __import__(mod)
        except ImportError: continue
        res = M.run(p, tier)        # list of (name, ok, hard, output, patterns that reach it)
        o_ = sum(1 for x in res if x[1]); obls += len(res); ok += o_
        if res: backends[M.BACKEND] = o_
        for x in res:
            if x[1]: continue
            if x[2]: failed.append((x[0], (x[0], [p], False, False, False, x[3])))
            else: errors.append((x[0], str(x[3])[:400])); soft.append((x[0], (x[0], [p], False, True, False, x[3])))
            if len(x) > 4: wit += [w for w in x[4] if w not in wit]
    if p == 'C02':
        # the contracts are proved of the code as it runs; they hold at compile time because nothing asks which of the two it is
        import ctcorpus
        res = ctcorpus.obligations(); backends[ctcorpus.BACKEND] = sum(1 for x in res if x[1]); obls += len(res); ok += backends[ctcorpus.BACKEND]
        for x in res:
            if not x[1]: errors.append((x[0], x[2])); soft.append((x[0], (x[0], [p], False, True, False, x[2])))
        if any(not x[1] for x in res) and not mism and not os.environ.get('VERIF_CT'):
            ct = ctcorpus.at_compile_time(tier, max(60, 1500 if tier == 'thorough' else min(420, t0 + 760 - time.time())))
            line = [l for l in (ct[1] or '').splitlines() if l]
            if ct[0] == 1 and any(l.startswith('VIOLATION') for l in line):
                if not any('no-failing-input-found' in l for l in line): mism.append(dict(tags=[p], what='as a constant evaluation sees the code', got=line[0][:600]))
                else: failed.append(('constant evaluation', ('contracts of the code as a constant evaluation sees it', [p], False, False, False, '\n'.join(line)[:600])))
            elif ct[0] == 0 and not any(l.startswith('UNDECIDED') for l in line):
                # both readings of the code meet the same contracts
                ok += sum(1 for x in res if not x[1]); backends['z3, the code as a constant evaluation sees it'] = sum(1 for x in res if not x[1]); names = {x[0] for x in res if not x[1]}
                errors = [e for e in errors if e[0] not in names]; soft = [e for e in soft if e[0] not in names]
    hard = [f for f in failed if not f[1][3] and not f[1][4]]
    if wit and not mism:
        # a failed equation names the patterns that reach the code: these are compared first
        import corpus
        corpus.DEADLINE[0] = time.time() + 120
        w, st2 = corpus.run('quick', seed, only=(), extra=[(x, (p,)) for x in wit[:400]])
        mism = [b for b in w if p in b['tags']]
        for k in stats: stats[k] += st2[k]
    if mism: failed += soft
    if (failed or soft) and not mism:
        w, allw, st2 = corpus_run(p, 'quick', seed, wide=True)
        mism = w or allw or allm
        for k in stats: stats[k] += st2[k]
    kf = [b for b in mism if is_known(b)]; mism = [b for b in mism if not is_known(b)]
    for k in kn:
        if any(is_known(b) for b in kf): print('KNOWN-FINDING: property=%s %s' % (p, k['what']))
    rc = 0
    if mism:
        f = replay(p, mism, failed); print(show(mism[0])); print('VIOLATION property=%s replay=%s' % (p, f)); rc = 1
    elif hard:
        f = replay(p, [], failed)
        for n, o in hard[:5]: print('failed obligation: %s: %s' % (n, o[0]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (p, f)); rc = 1
    undecided = [] if rc else sorted({n for n, _ in failed} | {n for n, _ in errors})
    if undecided: print('UNDECIDED (bounded check only, passed): %s' % ', '.join(undecided[:12]))
    trusted = ['clang 18 front end (C++ to unoptimised LLVM IR)', 'lib/symex.py (IR semantics, obligation generation), z3 4.x', 'g++ 13 / clang 18 (type-level equations, static_assert)']
    cov = dict(obligations=obls, discharged=ok, checker_cmd='python3 check.py %s %s' % (p, tier), trusted_base=trusted,
               instances_under_contract=len(insts), functions_under_contract=sorted(funcs)[:400], assumed_contracts_of=sorted(stubs)[:200], loops_by_invariant=len(loops),
               backends=backends, solver_queries=queries, solver_seconds=round(solver, 1), undecided=undecided,
               bounded_supplement=dict(label='bounded, not counted as proved', **stats))
    ev = dict(property=p, tier=tier, seed=seed, level='proof', coverage=cov, wall_s=round(time.time() - t0, 1), violations=rc,
              assumptions=['abstract matchers stand for every matcher that meets the node contract (each node is proved to meet it, so patterns of any depth follow by induction)',
                           'fewer than 2^31 characters in the subject; char is 8 bits and signed', 'counts are 32-bit machine integers and are treated as such',
                           'the standard library functions inlined from the headers are verified as compiled, memcpy/memset/memmove are modelled'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', p + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d obligations discharged, %d instances, %d patterns x subjects compared (bounded): %s, %.0fs' % (p, tier, ok, obls, len(insts), stats['compared'], 'VIOLATED' if rc else 'holds' if not undecided else 'holds as far as decided', time.time() - t0))
    return rc
