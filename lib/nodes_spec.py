"""Contracts of the match functions of the syntax-tree nodes, and the instances of the real templates they are checked on."""
import z3
from symex import Engine, Ptr, Q, State, Obj, I, B, i2b, enc, Unsupported, Limits, Obligation
from theory import Theory, Chain, Search, S, ite

ANY = 1000000007
MINS, MAXS, WID = 1000003, 2000029, 3000017     # stand for arbitrary MIN, MAX, match size in the real templates
UNB = 4294967295
EXPLICIT = 12      # concrete counts up to this one may be proved by unrolling

def M(c, lo=0, hi=ANY, g=0): return "vf::M<'%s',%du,%du,%du>" % (c, lo, hi, g)

PRELUDE = '''#include "abstract.hpp"
using namespace e_regex;
template<unsigned g> struct probe {
  static void* end(vf::R<g>& r) { return &r.actual_iterator_end; }
};
'''
def probes(ng):
    out = ['extern "C" unsigned long P_size_%d() { return sizeof(vf::R<%du>); }' % (ng, ng)]
    for nm, ex in [('end', 'r.actual_iterator_end'), ('start', 'r.actual_iterator_start'), ('acc', 'r.accepted'),
                   ('qb', 'r.query.begin_'), ('qe', 'r.query.end_')]:
        out.append('extern "C" void* P_%s_%d(vf::R<%du>& r) { return (void*)&%s; }' % (nm, ng, ng, ex))
    for i in range(ng):
        for nm, ex in [('gb%d' % i, 'begin_'), ('ge%d' % i, 'end_')]:
            out.append('extern "C" void* P_%s_%d(vf::R<%du>& r) { return (void*)&r.match_groups[%d].%s; }' % (nm, ng, ng, i, ex))
    return '\n'.join(out)

class Inst:
    def __init__(s, name, kind, cpp, ng=0, inj=(), A=None, C=(), lo=None, hi=None, idx=None, note='', cpp_inj=None, meta=None):
        s.name = name; s.kind = kind; s.cpp = cpp; s.ng = ng; s.inj = tuple(inj); s.A = A; s.C = tuple(C)
        s.lo = lo; s.hi = hi; s.idx = idx; s.note = note; s.meta = meta
    def code(s):
        inj = ', '.join(M(*x) for x in s.inj)
        return 'extern "C" void* H_%s(vf::R<%du>& r) { return &e_regex::nodes::%s::template match<%s>(r); }\n' % (s.name, s.ng, s.cpp, inj) + \
               'extern "C" unsigned MIN_%s() { return e_regex::nodes::%s::meta.minimum_match_size; }\n' % (s.name, s.cpp) + \
               'extern "C" unsigned MAX_%s() { return e_regex::nodes::%s::meta.maximum_match_size; }\n' % (s.name, s.cpp)

def instances():
    out = []
    a, ag, aw, a13 = ('a',), ('a', 0, ANY, 1), ('a', WID, WID), ('a', 2, 5)
    c, cg, d, e = ('c',), ('c', 0, ANY, 1), ('d',), ('e',)
    x, y = ('x',), ('y',)
    def t(*ms): return ', '.join(M(*m) for m in ms)
    # --- sequences and alternatives
    for nm, ng, ms in [('1', 1, (ag, c)), ('2', 2, (ag, cg, d)), ('3', 0, (a, c, d, e))]:
        for k, inj in [('', ()), ('i1', (x,)), ('i2', (x, y))]:
            out.append(Inst('simple%s%s' % (nm, k), 'simple', 'simple<%s>' % t(*ms), ng, inj, A=ms[0], C=ms[1:]))
    for k, inj in [('', ()), ('i1', (x,)), ('i2', (x, y))]:
        out.append(Inst('alt1' + k, 'alt', 'simple<void, %s>' % t(cg), 1, inj, C=(cg,)))
        out.append(Inst('alt2' + k, 'alt', 'simple<void, %s>' % t(cg, d), 2, inj, C=(cg, d)))
        out.append(Inst('alt3' + k, 'alt', 'simple<void, %s>' % t(cg, d, e), 1, inj, C=(cg, d, e)))
        out.append(Inst('wrap' + k, 'alt', 'simple<%s>' % t(cg), 1, inj, C=(cg,)))
        for nc, cs in [('0', ()), ('1', (cg,)), ('2', (cg, d))]:
            out.append(Inst('group%s%s' % (nc, k), 'group', 'group<%s>' % ', '.join([M(*ag), '1'] + [M(*m) for m in cs]), 3, inj, A=ag, C=cs, idx=1))
    # every index of a group, among many
    for ix in range(0, 10):
        out.append(Inst('group_ix%d' % ix, 'group', 'group<%s, %d, %s>' % (M(*a), ix, M(*c)), 10, (), A=a, C=(c,), idx=ix))
    out.append(Inst('alt4', 'alt', 'simple<void, %s>' % t(c, d, e, x), 0, (), C=(c, d, e, x)))
    out.append(Inst('negated', 'negated', 'negated_node<%s>' % t(a), 1, (), A=a))
    out.append(Inst('negated_i', 'negated', 'negated_node<%s>' % t(a), 0, (x,), A=a))
    # --- quantifiers: every MIN and MAX (symbolic), and MIN = 0 / no upper bound
    bounds = [('0u', 0, UNB), ('mu', MINS, UNB), ('0m', 0, MAXS), ('mm', MINS, MAXS)]
    for kind in ('greedy', 'lazy', 'possessive'):
        for bn, lo, hi in bounds:
            for nc, cs, inj in [('0', (), ()), ('0i', (), (x,)), ('0ii', (), (x, y)), ('1', (c,), ()), ('1i', (c,), (x,)), ('2', (cg, d), ()), ('1g', (cg,), ())]:
                for an, A, ng in [('v', a, 0), ('g', ag, 1), ('f', aw, 0), ('s', a13, 0)]:
                    if an in ('g', 's') and nc in ('0ii', '1i', '2', '1g') and not (an == 'g' and nc == '1g' and bn == '0u'): continue
                    if nc == '1g' and kind != 'possessive' and an != 'g': continue
                    if kind == 'possessive' and (nc in ('0ii', '2') or an == 'f'): continue   # several children of a possessive node do not compile, and no pattern builds one
                    if an == 's' and bn in ('0m', 'mu'): continue
                    g = max(ng, 1 if cs and len(cs[0]) > 3 else 0)
                    out.append(Inst('%s_%s_%s%s' % (kind, bn, an, nc), kind, '%s<%s>' % (kind, ', '.join([M(*A), '%du' % lo, '%du' % hi] + [M(*m) for m in cs])),
                                    g, inj, A=A, C=cs, lo=lo, hi=hi))
    for an, A, ng in [('v', a, 0), ('g', ag, 1), ('s', a13, 0)]:
        for nc, cs, inj in [('0', (), ()), ('0i', (), (x,)), ('1', (c,), ()), ('2', (cg, d), (x,))]:
            g = max(ng, 1 if cs and len(cs[0]) > 3 else 0)
            for rn, reps in [('n', MINS), ('0', 0)]:
                if rn == '0' and an != 'v': continue
                out.append(Inst('repeated_%s_%s%s' % (rn, an, nc), 'repeated', 'repeated<%s>' % ', '.join([M(*A), '%du' % reps] + [M(*m) for m in cs]), g, inj, A=A, C=cs, lo=reps, hi=reps))
    # --- concrete small counts with sized matchers: the announced match sizes are true bounds
    A25, C14, D02 = ('a', 2, 5), ('c', 1, 4), ('d', 0, 2)
    for kind in ('greedy', 'lazy', 'possessive'):
        kids = (C14, D02) if kind != 'possessive' else (C14,)
        for lo, hi in [(0, 1), (1, 1), (2, 3), (0, 2)]:
            out.append(Inst('size_%s_%d_%d' % (kind, lo, hi), kind, '%s<%s>' % (kind, ', '.join([M(*A25), '%du' % lo, '%du' % hi] + [M(*k) for k in kids])), 0, (), A=A25, C=kids, lo=lo, hi=hi, meta=True))
            out.append(Inst('size0_%s_%d_%d' % (kind, lo, hi), kind, '%s<%s>' % (kind, ', '.join([M(*A25), '%du' % lo, '%du' % hi])), 0, (), A=A25, C=(), lo=lo, hi=hi, meta=True))
    out.append(Inst('size_repeated', 'repeated', 'repeated<%s, 3u, %s, %s>' % (M(*A25), M(*C14), M(*D02)), 0, (), A=A25, C=(C14, D02), lo=3, hi=3, meta=True))
    out.append(Inst('size_simple', 'simple', 'simple<%s, %s, %s>' % (M(*A25), M(*C14), M(*D02)), 0, (), A=A25, C=(C14, D02), meta=True))
    out.append(Inst('size_alt', 'alt', 'simple<void, %s, %s>' % (M(*A25), M(*D02)), 0, (), C=(A25, D02), meta=True))
    out.append(Inst('size_group', 'group', 'group<%s, 0, %s, %s>' % (M(*A25), M(*C14), M(*D02)), 1, (), A=A25, C=(C14, D02), idx=0, meta=True))
    out.append(Inst('size_negated', 'negated', 'negated_node<%s>' % M('a', 1, 1), 0, (), A=('a', 1, 1), meta=True))
    return out

def layout(eng, ng):
    st = State(); st.mem['R'] = Obj(1 << 20); 
    def off(f):
        (s2, v), = eng.run_function(f, [Ptr('R', 0)], st.fork())
        return v.off
    (_, size), = eng.run_function('P_size_%d' % ng, [], State())
    return dict(end=off('P_end_%d' % ng), start=off('P_start_%d' % ng), acc=off('P_acc_%d' % ng), qb=off('P_qb_%d' % ng), qe=off('P_qe_%d' % ng),
                groups=[(off('P_gb%d_%d' % (i, ng)), off('P_ge%d_%d' % (i, ng))) for i in range(ng)], size=size)

def sym(v, sent): return sent.get(v, v)

def entry_state(eng, th, lay, ng):
    st = State()
    p, s0 = z3.Int('p'), z3.Int('start')
    g = [(z3.Int('g%d_b' % i), z3.Int('g%d_e' % i)) for i in range(ng)]
    o = Obj(lay['size']); st.mem['R'] = o; st.own.add('R')
    eng.put(o, lay['qb'], 8, Ptr(Q, 0)); eng.put(o, lay['qe'], 8, Ptr(Q, th.n))
    eng.put(o, lay['start'], 8, Ptr(Q, s0)); eng.put(o, lay['end'], 8, Ptr(Q, p)); eng.put(o, lay['acc'], 1, 1)
    for (kb, ke), (b, e) in zip(lay['groups'], g): eng.put(o, kb, 8, Ptr(Q, b)); eng.put(o, ke, 8, Ptr(Q, e))
    st.assume(z3.And(th.n >= 0, th.n < (1 << 31), s0 >= 0, s0 <= p, p <= th.n))
    for b, e in g: st.assume(z3.Or(z3.And(b == -1, e == -1), z3.And(b >= 0, b <= e, e <= p)))
    return st, S(p, g), s0

def witnesses(th, st, extra=()):
    """index terms that occur in the path: candidates for 'the number of repetitions taken'"""
    ts = {}
    for c in st.pc:
        for f, t in th.apps(c):
            if f in th.chain.fns and t is not None:
                t = z3.simplify(t); ts[t.get_id()] = t
    for o, ob in st.mem.items():
        for k, (sz, v) in ob.cells.items():
            if sz in (4, 8) and isinstance(v, z3.ExprRef): ts[v.get_id()] = z3.simplify(v)
    for t in [I(th.chain.lo), I(th.chain.hi), z3.IntVal(0)] + list(extra): ts[t.get_id()] = t
    for t in list(ts.values()):
        for u in (z3.simplify(t + 1), z3.simplify(t - 1)): ts[u.get_id()] = u
    return list(ts.values())

def check(module, inst, limit=120, hints=None):
    """-> the engine; obligations are in engine.obls. Hints name the loop invariants to try first; they only save time."""
    if hints is not None:
        try:
            e = check1(module, inst, limit, set(hints))
            if all(o.ok for o in e.obls.values()): return e
        except (Limits, Unsupported): pass
    return check1(module, inst, limit, None)

def check1(module, inst, limit, hints):
    sent = {}; th = Theory(); th.ng = inst.ng
    consts = []
    if inst.lo == MINS: sent[MINS] = z3.Int('MIN')
    if inst.hi == MAXS: sent[MAXS] = z3.Int('MAX')
    if inst.A and inst.A[1:2] == (WID,): sent[WID] = z3.Int('W')
    eng = Engine(module, th, sent, limit); eng.hints = hints
    lay = th.lay = layout(eng, inst.ng)
    st, S0, s0 = entry_state(eng, th, lay, inst.ng)
    if MINS in sent: st.assume(z3.And(sent[MINS] >= 1, sent[MINS] <= UNB)) 
    if MAXS in sent: st.assume(z3.And(sent[MAXS] >= 1, sent[MAXS] <= UNB))
    if MINS in sent and MAXS in sent: st.assume(sent[MINS] <= sent[MAXS])
    if WID in sent: st.assume(z3.And(sent[WID] >= 1, sent[WID] < (1 << 31)))
    if len(sent): th.globals_axioms = [c for c in st.pc if any(str(x) in ('MIN', 'MAX', 'W') for x in consts)]
    def abs_(m, inj=()):
        c, lo, hi, g = (tuple(m) + (0, ANY, 0)[len(m) - 1:])
        return th.abstract(eng, c, lo, hi, g, tuple(i[0] for i in inj))
    X = [abs_(i) for i in inst.inj]
    quant = inst.kind in ('greedy', 'lazy', 'possessive', 'repeated')
    C = [abs_(c) if quant else abs_(c, inst.inj) for c in inst.C]
    lo, hi = sym(inst.lo, sent), sym(inst.hi, sent)
    p = S0.end
    if quant:
        A = abs_(inst.A)
        cont = C if inst.C else (X if inst.kind in ('greedy', 'lazy') else [])
        th.chain = Chain(th, A, S0, cont, lo, hi)
        th.limits = [I(lo), I(hi), th.n]; explicit = []
        if isinstance(inst.lo, int) and inst.lo not in sent and inst.lo <= EXPLICIT and (inst.hi in sent or inst.hi == UNB or inst.hi <= EXPLICIT) and not inst.meta and inst.name.startswith('u_'):
            top = inst.hi if inst.hi <= EXPLICIT else inst.lo
            explicit = [z3.IntVal(k) for k in range(0, top + 2)]
            th.globals_axioms = list(th.globals_axioms) + th.chain.lemmas0() + [x for t in range(0, top + 2) for x in th.chain.lemmas1(z3.IntVal(t))]
        th.pre_tags = frozenset({'C04', 'C05'})
    else: th.limits = [th.n]
    rets = eng.run_function('H_' + inst.name, [Ptr('R', 0)], st)
    ch = th.chain
    seen = {True: False, False: False}
    for rs, rv in rets:
        sv = th.state(rs, 'R'); acc = th.accepted(rs, 'R'); r = th.read(rs, 'R')
        eng.oblige(rs, 'the subject and the start of the match are unchanged', {'C02', 'C05'}, z3.And(I(enc(r['qb'])) == 0, I(enc(r['qe'])) == th.n, I(enc(r['start'])) == s0))
        eng.oblige(rs, 'the result object itself is returned', {'C05'}, isinstance(rv, Ptr) and rv.obj == 'R' and rv.off == 0)
        eng.oblige(rs, 'on rejection the position is restored', {'C05', 'C02'}, z3.Implies(z3.Not(acc), I(sv.end) == I(p)))
        eng.oblige(rs, 'on rejection the capture groups are restored', {'C06', 'C05'}, z3.Implies(z3.Not(acc), sv.geq(S0)))
        def post(name, tags, f): eng.oblige(rs, name, tags, f)
        K = inst.kind
        if K in ('simple', 'group', 'alt', 'negated'):
            if K == 'alt': ok = th.dfs_ok(C, p); fin = th.dfs_step(C, S0)
            elif K == 'negated':
                A = abs_(inst.A); ok = z3.And(p < th.n, z3.Not(A.ok(p))); fin = S(p + 1, S0.g)
            elif K == 'simple':
                A = abs_(inst.A); s1 = A.step(S0); ok = z3.And(A.ok(p), th.dfs_ok(C, s1.end)); fin = th.dfs_step(C, s1)
            else:
                A = abs_(inst.A, inst.C); s1 = A.step(S0); g = list(s1.g); g[inst.idx] = (I(p), s1.end)
                s1 = S(s1.end, g); ok = z3.And(A.ok(p), th.dfs_ok(C, s1.end)); fin = th.dfs_step(C, s1)
            post('accepts only what the node describes', {'C02', 'C05'} | ({'C07'} if K == 'negated' else set()), z3.Implies(acc, ok))
            post('accepts everything the node describes', {'C05'} | ({'C07'} if K == 'negated' else set()), z3.Implies(ok, acc))
            post('stops where the first accepted alternative stops', {'C05', 'C02'} | ({'C07'} if K == 'negated' else set()), z3.Implies(acc, I(sv.end) == I(fin.end)))
            post('records exactly the captures of the accepted path', {'C06'}, z3.Implies(acc, sv.geq(fin)))
        else:
            W = witnesses(th, rs, explicit)
            def ex(f): return z3.Or([f(k) for k in W])
            rng = lambda k: z3.And(k >= I(lo), k <= I(hi))
            fin = lambda k: th.dfs_step(C, ch.at(k))
            cok = lambda k: th.dfs_ok(C, ch.E(k))
            empt = z3.BoolVal(True)
            sound = lambda k: z3.And(rng(k), ch.A(k), cok(k), I(sv.end) == I(fin(k).end))
            post('an accepted result is MIN..MAX accepted repetitions followed by the continuation', {'C02', 'C04'}, z3.Implies(acc, ex(sound)))
            post('the captures are those of the repetitions and the continuation that were kept', {'C06'}, z3.Implies(acc, ex(lambda k: z3.And(rng(k), ch.A(k), cok(k), sv.eq(fin(k))))))
            if K == 'greedy':
                look = (lambda k: z3.BoolVal(True)) if inst.C else (lambda k: z3.Or(k == I(lo), th.dfs_ok(X, ch.E(k))))
                post('greedy: the most repetitions after which the rest accepts', {'C04'}, z3.Implies(acc, ex(lambda k: z3.And(sound(k), look(k), ch.Tail(k)))))
                rej = ch.NoSol if inst.C else ex(lambda k: z3.And(k >= 0, k <= I(lo), z3.Not(ch.A(k))))
                post('greedy: rejects only if no count works', {'C04', 'C05'}, z3.Implies(z3.Not(acc), rej))
            elif K == 'lazy':
                post('lazy: the fewest repetitions after which the rest accepts', {'C04'}, z3.Implies(acc, ex(lambda k: z3.And(sound(k), ch.cok(k), ch.NB(k)))))
                post('lazy: rejects only if no count works', {'C04', 'C05'}, z3.Implies(z3.Not(acc), ch.NoSol))
            elif K == 'possessive':
                post('possessive: every possible repetition is taken', {'C04'}, z3.Implies(acc, ex(lambda k: z3.And(sound(k), ch.Full(k)))))
                post('possessive: rejects only if too few repetitions, or the rest rejects after all of them', {'C04', 'C05'},
                     z3.Implies(z3.Not(acc), z3.Or(ex(lambda k: z3.And(k >= 0, k <= I(lo), z3.Not(ch.A(k)))), ex(lambda k: z3.And(rng(k), ch.A(k), ch.Full(k), z3.Not(cok(k)))))))
            elif K == 'repeated':
                post('{n}: rejects only if fewer than n repetitions, or the rest rejects after n', {'C04', 'C05'},
                     z3.Implies(z3.Not(acc), z3.Or(ex(lambda k: z3.And(k >= 0, k <= I(lo), z3.Not(ch.A(k)))), z3.And(ch.A(I(lo)), z3.Not(cok(I(lo)))))))
        # clauses that make this node a legal matcher for the nodes around it
        caps = z3.And([ch.caplemma(t) for t in witnesses(th, rs)]) if ch and inst.ng else z3.BoolVal(True)
        post('captures written by the node lie inside what it consumed', {'C06'}, z3.Implies(z3.And(acc, caps), z3.And([z3.BoolVal(True)] + [
            z3.Or(z3.And(I(b) == I(b0), I(e) == I(e0)), z3.And(I(b) >= I(p), I(b) <= I(e), I(e) <= I(sv.end))) for (b, e), (b0, e0) in zip(sv.g, S0.g)])))
        post('the position moves forward and stays inside the subject', {'C01', 'C02'}, z3.Implies(acc, z3.And(I(sv.end) >= I(p), I(sv.end) <= th.n)))
        if inst.meta:
            (_, mn), = eng.run_function('MIN_' + inst.name, [], st.fork()); (_, mx), = eng.run_function('MAX_' + inst.name, [], st.fork())
            post('the announced minimum match size is a lower bound', {'C08', 'C04'}, z3.Implies(acc, I(sv.end) - I(p) >= mn))
            if mx != UNB: post('the announced maximum match size is an upper bound', {'C08', 'C04'}, z3.Implies(acc, I(sv.end) - I(p) <= mx))
        for b in (True, False):
            if not seen[b] and eng.feasible(rs, acc if b else z3.Not(acc)): seen[b] = True
    can_fail = not (quant and inst.lo == 0 and not inst.C and not (inst.kind == 'lazy' and inst.inj))
    eng.obls['the contract is not vacuous: some execution accepts'] = Obligation('the contract is not vacuous: some execution accepts', {'C04', 'C05'}, seen[True])
    if can_fail: eng.obls['the contract is not vacuous: some execution rejects'] = Obligation('the contract is not vacuous: some execution rejects', {'C04', 'C05'}, seen[False])
    return eng

def tu(insts):
    ngs = sorted({i.ng for i in insts})
    return PRELUDE + '\n'.join(probes(g) for g in ngs) + '\n' + ''.join(i.code() for i in insts)
