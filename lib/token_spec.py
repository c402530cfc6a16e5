"""Contracts of tokenization::iterator: ++, the constructor, begin, end, comparisons and accessors.
The matching of one definition is known by its contract only (C01-C08 decide it): matching the rest of the input either finds
nothing, or a stretch start <= end inside it. A definition matches *here* if that stretch starts at the current position."""
import re, z3
from symex import Engine, Ptr, Q, State, Obj, I, B, i2b, enc, UNDEF, Unsupported, Limits, Obligation, demangle, NULLOFF
from theory import Theory
GROUP = 4
HEAD = '''#include <algorithm>
#include <array>
#include <concepts>
#include <cstddef>
#include <iostream>
#include <limits>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <optional>
#include <new>
#include <iterator>
#define private public
#include "e_regex.hpp"
#include "tokenization/tokenizer.hpp"
#undef private
using namespace e_regex;
enum class T { A = 5, B = 9, C = 2, D = 7 };
using MR = decltype(regex<"^T1">::match(std::declval<literal_string_view<>>()));
'''
for_result = [('qb', 'data.query.begin_'), ('qe', 'data.query.end_'), ('start', 'data.actual_iterator_start'), ('end', 'data.actual_iterator_end'), ('acc', 'data.accepted')]
for_iter = [('cb', 'current.begin_'), ('ce', 'current.end_'), ('ob', 'original_input.begin_'), ('oe', 'original_input.end_'), ('vb', 'last_match.value.begin_'), ('ve', 'last_match.value.end_'), ('ty', 'last_match.type')]
TYPES = {'1': ('A', 5), '2': ('B', 9), '3': ('C', 2), '4': ('D', 7)}
SETS = {'t1s1': 'T1 S1', 't2s1': 'T1 T2 S1', 't2s2': 'S1 T1 S2 T2', 't3s1': 'T1 S1 T2 T3', 't1s2': 'S1 S2 T1', 't1s3': 'S1 S2 T1 S3'}

def defs(s): return ', '.join('token{T::%s, "%s"}' % (TYPES[d[1]][0], d) if d[0] == 'T' else 'separator{"%s"}' % d for d in SETS[s].split())

class Inst:
    def __init__(s, name, kind, st):
        s.name = name; s.kind = kind; s.set = st; s.ng = 0
    def code(s):
        b = {'incr': 'extern "C" void* H_NAME(TK* t) { return &++*t; }',
             'ctor': 'extern "C" void H_NAME(TK* t, literal_string_view<>* q) { new (t) TK(*q); }',
             'match': 'extern "C" void H_NAME(TK* t, literal_string_view<>* q) { new (t) TK(TZ {}(*q)); }',
             'begin': 'extern "C" void H_NAME(TK* t, TK* o) { new (t) TK(o->begin()); }',
             'end': 'extern "C" void H_NAME(TK* t, TK* o) { new (t) TK(o->end()); }',
             'copy': 'extern "C" void H_NAME(TK* t, TK* o) { new (t) TK(*o); }',
             'eq': 'extern "C" bool H_NAME(TK* t, TK* o) { return *t == *o; }',
             'ne': 'extern "C" bool H_NAME(TK* t, TK* o) { return *t != *o; }',
             'bool': 'extern "C" bool H_NAME(TK* t) { return static_cast<bool>(*t); }',
             'deref': 'extern "C" void H_NAME(TK* t, const char** b, const char** e, int* ty) { auto m = **t; *b = m.value.begin(); *e = m.value.end(); *ty = static_cast<int>(m.type); }',
             'arrow': 'extern "C" void H_NAME(TK* t, const char** b, const char** e, int* ty) { *b = (*t)->value.begin(); *e = (*t)->value.end(); *ty = static_cast<int>((*t)->type); }'}[s.kind]
        return b.replace('NAME', s.name).replace('TK', 'TK_' + s.set).replace('TZ', 'TZ_' + s.set) + '\n'

def instances():
    out = []
    for s in SETS:
        out.append(Inst('tok_incr_' + s, 'incr', s)); out.append(Inst('tok_ctor_' + s, 'ctor', s))
    for k in ('match', 'begin', 'end', 'copy', 'eq', 'ne', 'bool', 'deref', 'arrow'): out.append(Inst('tok_%s_t2s1' % k, k, 't2s1'))
    return out

def tu(insts):
    o = HEAD
    o += 'extern "C" unsigned long P_rsize() { return sizeof(MR); }\n'
    for n, e in for_result: o += 'extern "C" void* P_r_%s(MR& r) { return (void*)&r.%s; }\n' % (n, e)
    for s in sorted({i.set for i in insts}):
        o += 'using TZ_%s = tokenization::tokenizer<%s>;\nusing TK_%s = decltype(TZ_%s {}(std::declval<literal_string_view<>>()));\n' % (s, defs(s), s, s)
        o += 'extern "C" unsigned long P_isize_%s() { return sizeof(TK_%s); }\n' % (s, s)
        for n, e in for_iter: o += 'extern "C" void* P_i_%s_%s(TK_%s& r) { return (void*)&r.%s; }\n' % (n, s, s, e)
    return o + ''.join(i.code() for i in insts)

def check(module, inst, limit=120, hints=None):
    th = Theory(); th.ng = 0; n = th.n; th.limits = [n]
    eng = Engine(module, th, {}, limit)
    st0 = State(); st0.mem['R'] = Obj(1 << 20)
    def off(f): return eng.run_function(f, [Ptr('R', 0)], st0.fork())[0][1].off
    RL = {k: off('P_r_' + k) for k, _ in for_result}; rsize = eng.run_function('P_rsize', [], State())[0][1]
    IL = {k: off('P_i_%s_%s' % (k, inst.set)) for k, _ in for_iter}; isize = eng.run_function('P_isize_' + inst.set, [], State())[0][1]
    ds = SETS[inst.set].split()
    F = {}
    def fn(d):
        if d not in F: F[d] = (z3.Function('found_' + d, z3.IntSort(), z3.BoolSort()), z3.Function('from_' + d, z3.IntSort(), z3.IntSort()), z3.Function('to_' + d, z3.IntSort(), z3.IntSort()))
        return F[d]
    def here(d, b):
        """length of the match of definition d at position b; 0 if it does not match here"""
        ok, s, e = fn(d); return z3.If(z3.And(ok(I(b)), s(I(b)) == I(b)), e(I(b)) - I(b), z3.IntVal(0))
    def find(eng, st, av, where, d):
        """contract of regex<"^" + definition>::operator()"""
        res = av[0]; vb, ve = av[-2], av[-1]
        b, e = I(enc(vb)), I(enc(ve))
        eng.oblige(st, 'the rest of the input is what is searched @' + where, {'C11', 'C01'}, z3.Or(z3.And(b >= 0, b <= n, e == n), z3.And(b == NULLOFF, e == NULLOFF)))
        ok, s, t = fn(d)
        ax = z3.Implies(ok(b), z3.And(s(b) >= b, s(b) <= t(b), t(b) <= e))
        st.assume(ax)
        outs = []
        for acc in (True, False):
            x = st.fork(); x.assume(ok(b) if acc else z3.Not(ok(b)))
            if not eng.feasible(x): continue
            o = x.w(res.obj)
            fs, ft = (s(b), t(b)) if acc else (z3.FreshInt('s'), z3.FreshInt('t'))
            for k, v in (('qb', Ptr(Q, b)), ('qe', Ptr(Q, e)), ('start', Ptr(Q, fs)), ('end', Ptr(Q, ft))): eng.put(o, res.off + RL[k], 8, v)
            eng.put(o, res.off + RL['acc'], 1, int(acc)); outs.append((x, None))
        return outs
    def texteq(eng, st, av, where):
        """contract of literal_string_view::operator== (decided by lsv_eq)"""
        o = av[0]; c = st.mem[o.obj].cells
        a, b = I(enc(c[o.off][1])), I(enc(c[o.off + 8][1])); x, y = I(enc(av[-2])), I(enc(av[-1]))
        r = z3.FreshBool('sametext')
        st.assume(z3.And(z3.Implies(z3.And(a == x, b == y), r), z3.Implies(r, b - a == y - x), z3.Implies(z3.And(b == a, x == y), r)))
        return [(st, r)]
    def stub(eng, name):
        m = re.match(r'_ZNK?7e_regex5regexIX.*?E(?:clE|5matchE)NS_19literal_string_view', name)
        if m:
            cs = re.findall(r'Lc(\d+)E', name); d = ''.join(chr(int(c)) for c in cs)
            # the forms that mean: this definition, from here
            w = re.fullmatch(r'\^?(?:\(\?:(.*)\)|(.*))', d); d2 = (w.group(1) or w.group(2)) if w else ''
            if d2 not in ds: raise Unsupported('a pattern that is no definition is matched: ' + d)
            return lambda eng, st, av, where: find(eng, st, av, where, d2)
        if re.match(r'_ZNK?7e_regex19literal_string_viewIcEeqE', name): return texteq
        return None
    th.extra_stub = stub
    st = State(); st.assume(z3.And(n >= 0, n < (1 << 31)))
    def obj(name, size=64): st.mem[name] = Obj(size); st.own.add(name); return st.mem[name]
    def iterator(name, pre):
        o = obj(name, isize); v = {k: z3.Int(pre + k) for k, _ in for_iter}
        for k in ('cb', 'ce', 'ob', 'oe', 'vb', 've'): eng.put(o, IL[k], 8, Ptr(Q, v[k]))
        eng.put(o, IL['ty'], 4, v['ty']); 
        if 'valid' in IL: eng.put(o, IL['valid'], 1, 1)
        null = lambda a, b: z3.And(v[a] == NULLOFF, v[b] == NULLOFF)
        # class invariant: a live iterator stands right behind its token; a finished one is empty
        st.assume(z3.And(v['ty'] >= 0, v['ty'] < (1 << 31), z3.Or(z3.And(v['ob'] == 0, v['oe'] == n), null('ob', 'oe')),
                         z3.Or(z3.And(null('cb', 'ce'), null('vb', 've')),
                               z3.And(v['ob'] == 0, v['cb'] >= 0, v['cb'] <= n, v['ce'] == n, v['vb'] >= 0, v['vb'] < v['ve'], v['ve'] == v['cb']))))
        return v
    def rd(rs, o, k):
        c = rs.mem[o].cells.get(IL[k])
        if c is None or c[1] is UNDEF: raise Unsupported('iterator field %s is not set' % k)
        return I(enc(c[1])) if isinstance(c[1], Ptr) else I(c[1]) if k == 'ty' else z3.If(I(c[1]) == 0, z3.IntVal(NULLOFF), z3.IntVal(-99)) if not isinstance(c[1], Ptr) else None
    seps = [d for d in ds if d[0] == 'S']; toks = [d for d in ds if d[0] == 'T']
    def maxof(xs):
        m = xs[0]
        for x in xs[1:]: m = z3.If(x > m, x, m)
        return m
    seen = {}
    def cover(rs, key, c):
        if not seen.get(key): seen[key] = eng.feasible(rs, c)
    def advanced(rs, o, cb, ob, oe, ended=None):
        """o is the iterator after one step from position cb"""
        r = {k: rd(rs, o, k) for k, _ in for_iter}
        smax = maxof([here(d, cb) for d in seps]); c1 = cb + smax
        tmax = maxof([here(d, c1) for d in toks])
        going = z3.And(z3.Or(smax > 0, cb == ob), tmax > 0)
        if ended is not None: going = z3.And(z3.Not(ended), going)
        ty = z3.IntVal(-1)
        for d in reversed(toks): ty = z3.If(here(d, c1) == tmax, z3.IntVal(TYPES[d[1]][1]), ty)
        T = {'C11'}
        live = r['ve'] > r['vb']
        eng.oblige(rs, 'a token is produced exactly if the input goes on, a separator matched (or none was needed) and a definition matches', T, live == going)
        eng.oblige(rs, 'the token starts right behind the longest separator and is the longest text any definition matches there', T, z3.Implies(going, z3.And(r['vb'] == c1, r['ve'] == c1 + tmax)))
        eng.oblige(rs, 'the type is that of the first definition among the longest', T, z3.Implies(going, r['ty'] == ty))
        eng.oblige(rs, 'the iterator continues right behind the token', T, z3.Implies(going, z3.And(r['cb'] == c1 + tmax, r['ce'] == n)))
        eng.oblige(rs, 'a finished iterator is empty', T, z3.Implies(z3.Not(going), z3.And(r['cb'] == r['ce'], r['cb'] == NULLOFF, r['vb'] == r['ve'], r['vb'] == NULLOFF)))
        eng.oblige(rs, 'every step advances', {'C11', 'C14'}, z3.Implies(going, z3.And(r['cb'] > cb, r['cb'] <= n)))
        eng.oblige(rs, 'the token lies inside the input', {'C11', 'C01'}, z3.Implies(live, z3.And(r['vb'] >= cb, r['ve'] <= n)))
        eng.oblige(rs, 'the whole input is kept for begin()', T, z3.And(r['ob'] == ob, r['oe'] == oe))
        cover(rs, 'a token', going); cover(rs, 'the end', z3.Not(going))
    K = inst.kind; H = 'H_' + inst.name
    bl = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v if z3.is_expr(v) and z3.is_bool(v) else B(i2b(v))
    if K == 'incr':
        v = iterator('R', '')
        for rs, rv in eng.run_function(H, [Ptr('R', 0)], st):
            eng.oblige(rs, '++ returns the iterator', {'C11'}, isinstance(rv, Ptr) and rv.obj == 'R' and rv.off == 0)
            # matching the null view finds nothing but an empty text
            for d in ds: rs.assume(here(d, NULLOFF) == 0)
            advanced(rs, 'R', v['cb'], v['ob'], v['oe'], v['cb'] == NULLOFF)
    elif K in ('ctor', 'match', 'begin'):
        if K == 'begin': v = iterator('O', ''); qb, qe = v['ob'], v['oe']
        else:
            qb, qe = z3.Ints('qb qe'); st.assume(z3.Or(z3.And(qb == 0, qe == n), z3.And(qb == NULLOFF, qe == NULLOFF)))
            o = obj('V', 16); eng.put(o, 0, 8, Ptr(Q, qb)); eng.put(o, 8, 8, Ptr(Q, qe))
        before = {k: dict(ob.cells) for k, ob in st.mem.items()}
        obj('R', isize)
        for rs, rv in eng.run_function(H, [Ptr('R', 0), Ptr('O' if K == 'begin' else 'V', 0)], st):
            nonempty = z3.And(qb == 0, n > 0)
            if eng.feasible(rs, nonempty):
                r2 = rs.fork(); r2.assume(nonempty); advanced(r2, 'R', z3.IntVal(0), z3.IntVal(0), n)
            if eng.feasible(rs, z3.Not(nonempty)):
                r2 = rs.fork(); r2.assume(z3.Not(nonempty)); r = {k: rd(r2, 'R', k) for k, _ in for_iter if k != 'ty'}
                eng.oblige(r2, 'the empty input has no token', {'C11'}, r['vb'] == r['ve'])
                eng.oblige(r2, 'on the empty input the position is at its end', {'C11'}, r['cb'] == r['ce'])
            if K == 'begin': eng.oblige(rs, 'the iterator it was called on is unchanged', {'C11'}, all(rs.mem['O'].cells[k][1] is x[1] or (isinstance(x[1], Ptr) and I(x[1].off).eq(I(rs.mem['O'].cells[k][1].off))) for k, x in before['O'].items()))
    elif K in ('end', 'copy'):
        v = iterator('O', ''); obj('R', isize)
        for rs, rv in eng.run_function(H, [Ptr('R', 0), Ptr('O', 0)], st):
            r = {k: rd(rs, 'R', k) for k, _ in for_iter if not (K == 'end' and k == 'ty')}
            if K == 'end': eng.oblige(rs, 'end() is a finished iterator', {'C11'}, z3.And(r['cb'] == r['ce'], r['vb'] == r['ve']))
            else: eng.oblige(rs, 'a copy is the same iterator', {'C11'}, z3.And([r[k] == v[k] for k in r]))
    elif K in ('eq', 'ne'):
        v = iterator('R', ''); w = iterator('O', 'o_')
        fin = lambda x: z3.And(x['cb'] == NULLOFF)
        for rs, rv in eng.run_function(H, [Ptr('R', 0), Ptr('O', 0)], st):
            e = bl(rv) if K == 'eq' else z3.Not(bl(rv))
            eng.oblige(rs, 'two finished iterators are equal', {'C11'}, z3.Implies(z3.And(fin(v), fin(w)), e))
            eng.oblige(rs, 'a finished iterator differs from one that has a token', {'C11'}, z3.Implies(fin(v) != fin(w), z3.Not(e)))
            eng.oblige(rs, 'iterators with the same position and token are equal', {'C11'}, z3.Implies(z3.And([v[k] == w[k] for k in ('cb', 'ce', 'vb', 've')]), e))
            eng.oblige(rs, 'iterators with remaining texts or tokens of different length differ', {'C11'}, z3.Implies(e, z3.And(v['ce'] - v['cb'] == w['ce'] - w['cb'], v['ve'] - v['vb'] == w['ve'] - w['vb'])))
            cover(rs, 'equal', e); cover(rs, 'different', z3.Not(e))
    elif K == 'bool':
        v = iterator('R', '')
        for rs, rv in eng.run_function(H, [Ptr('R', 0)], st):
            eng.oblige(rs, 'the conversion to bool tells whether there is a token', {'C11'}, bl(rv) == (v['ve'] > v['vb'])); cover(rs, 'true', bl(rv)); cover(rs, 'false', z3.Not(bl(rv)))
    else:
        v = iterator('R', '')
        for x in 'BEY': obj(x, 8)
        for rs, rv in eng.run_function(H, [Ptr('R', 0), Ptr('B', 0), Ptr('E', 0), Ptr('Y', 0)], st):
            g = lambda o: rs.mem[o].cells[0][1]
            eng.oblige(rs, 'the token is what the last step produced', {'C11'}, z3.And(I(enc(g('B'))) == v['vb'], I(enc(g('E'))) == v['ve'], I(g('Y')) == v['ty']))
    for k, x in seen.items(): eng.obls['not vacuous: ' + k] = Obligation('the contract is not vacuous: ' + k, {'C11'}, x)
    return eng
