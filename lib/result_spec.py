"""Contracts of match_result (search, iteration, views, groups), regex::match and literal_string_view."""
import z3
from symex import Engine, Ptr, Q, State, Obj, I, B, enc, UNDEF, Unsupported, Limits, Obligation, is_sym
from theory import Theory, S, Search, Prefix
from nodes_spec import M
GROUP = 24
HEAD = '''#include <algorithm>
#include <array>
#include <concepts>
#include <cstddef>
#include <limits>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <optional>
#include <new>
#include <iterator>
#define private public
#include "abstract.hpp"
#undef private
using namespace e_regex;
'''
A0, A1, A2 = ('a',), ('a', 0, 1000000007, 1), ('a', 0, 1000000007, 2)
GS = (0, 1, 2, 5, 12)
MT = {g: M('a', 0, 1000000007, g) for g in GS}
def probes(g):
    T = 'match_result<%s>' % MT[g]
    out = ['using MR%d = %s;' % (g, T), 'extern "C" unsigned long P_size_%d() { return sizeof(MR%d); }' % (g, g)]
    for nm, ex in [('end', 'actual_iterator_end'), ('start', 'actual_iterator_start'), ('acc', 'accepted'), ('qb', 'query.begin_'), ('qe', 'query.end_')]:
        out.append('extern "C" void* P_%s_%d(MR%d& r) { return (void*)&r.data.%s; }' % (nm, g, g, ex))
    for i in range(g):
        for nm, ex in [('gb%d' % i, 'begin_'), ('ge%d' % i, 'end_')]:
            out.append('extern "C" void* P_%s_%d(MR%d& r) { return (void*)&r.data.match_groups[%d].%s; }' % (nm, g, g, i, ex))
    return '\n'.join(out)

class Inst:
    def __init__(s, name, kind, g, body, **k):
        s.name = name; s.kind = kind; s.ng = g; s.body = body; s.__dict__.update(k)
        s.props = {'C01', 'C03', 'C06', 'C12', 'C14', 'C02', 'C05'}
    def code(s): return s.body.replace('NAME', s.name).replace('MR', 'MR%d' % s.ng) + '\n'

def instances():
    out = []
    for g in GS:
        out.append(Inst('ctor_g%d' % g, 'ctor', g, 'extern "C" void H_NAME(MR* r, literal_string_view<>* q) { new (r) MR(*q); }'))
        if g <= 5: out.append(Inst('next_g%d' % g, 'next', g, 'extern "C" bool H_NAME(MR* r) { return r->next(); }'))
        if g <= 5: out.append(Inst('incr_g%d' % g, 'incr', g, 'extern "C" void* H_NAME(MR* r) { return &++*r; }'))
        if g <= 5: out.append(Inst('begin_g%d' % g, 'begin', g, 'extern "C" void H_NAME(MR* r, MR* o) { new (r) MR(o->begin()); }'))
        out.append(Inst('end_g%d' % g, 'end', g, 'extern "C" void H_NAME(MR* r, MR* o) { new (r) MR(o->end()); }'))
        out.append(Inst('accepted_g%d' % g, 'accepted', g, 'extern "C" bool H_NAME(MR* r) { return r->is_accepted(); }\nextern "C" bool H2_NAME(MR* r) { return static_cast<bool>(*r); }'))
        out.append(Inst('size_g%d' % g, 'count', g, 'extern "C" unsigned long H_NAME(MR* r) { return r->size(); }\nextern "C" unsigned long H2_NAME(MR* r) { return MR::groups(); }\nextern "C" unsigned long H3_NAME(MR* r) { return std::tuple_size<MR>::value - 1; }'))
        V = 'extern "C" void H_NAME(MR* r, const char** b, unsigned long* n) { std::string_view v = %s; *b = v.data(); *n = v.size(); }'
        VR = 'extern "C" void H_NAME(MR* r, const char** b, unsigned long* n, unsigned k) { std::string_view v = %s; *b = v.data(); *n = v.size(); }'
        for nm, ex in [('view', 'r->to_view()'), ('deref', '**r'), ('get0', 'r->get<0>()'), ('group0', 'r->get_group(0)'), ('index0', '(*r)[0]'), ('stdget0', 'std::get<0u>(*r)'), ('conv', 'std::string_view(static_cast<literal_string_view<char>>(*r))')]:
            out.append(Inst('%s_g%d' % (nm, g), 'view', g, V % ex, idx=0))
        for i in range(1, g + 1):
            for nm, ex in [('get', 'r->get<%d>()'), ('group', 'r->get_group(%d)'), ('index', '(*r)[%d]'), ('stdget', 'std::get<%du>(*r)')]:
                out.append(Inst('%s%d_g%d' % (nm, i, g), 'view', g, V % (ex % i), idx=i))
        if g:
            for nm, ex in [('group', 'r->get_group(k)'), ('index', '(*r)[k]')]:
                for i in range(g + 1): out.append(Inst('%sk%d_g%d' % (nm, i, g), 'view', g, VR % ex, idx=i, runtime=True))
    out.append(Inst('lsv_eq', 'lsv_eq', 0, 'extern "C" bool H_NAME(literal_string_view<>* a, literal_string_view<>* b) { return *a == *b; }'))
    # the same for given lengths: no loop invariant is needed, so a failure is a counterexample
    for la in range(0, 5):
        for lb in range(0, 5):
            if abs(la - lb) <= 1: out.append(Inst('lsv_eq_%d_%d' % (la, lb), 'lsv_eq', 0, 'extern "C" bool H_NAME(literal_string_view<>* a, literal_string_view<>* b) { return *a == *b; }', la=la, lb=lb))
    out.append(Inst('lsv_size', 'lsv_size', 0, 'extern "C" long H_NAME(literal_string_view<>* a) { return a->size(); }'))
    out.append(Inst('lsv_empty', 'lsv_empty', 0, 'extern "C" bool H_NAME(literal_string_view<>* a) { return a->empty(); }'))
    out.append(Inst('lsv_sv', 'lsv_sv', 0, 'extern "C" void H_NAME(literal_string_view<>* a, const char** b, unsigned long* n) { std::string_view v = *a; *b = v.data(); *n = v.size(); }'))
    out.append(Inst('lsv_ctor_sv', 'lsv_ctor', 0, 'extern "C" void H_NAME(literal_string_view<>* r, const char* b, unsigned long n) { new (r) literal_string_view<>(std::string_view(b, n)); }'))
    out.append(Inst('lsv_ctor_it', 'lsv_ctor', 0, 'extern "C" void H_NAME(literal_string_view<>* r, const char* b, unsigned long n) { new (r) literal_string_view<>(b, b + n); }'))
    out.append(Inst('lsv_ctor_arr', 'lsv_arr', 0, 'extern "C" void H_NAME(literal_string_view<>* r, const char (*b)[8]) { new (r) literal_string_view<>(*b); }'))
    return out

def tu(insts): return HEAD + '\n'.join(probes(g) for g in GS) + '\n' + ''.join(i.code() for i in insts)

def layout(eng, ng):
    st = State(); st.mem['R'] = Obj(1 << 20)
    def off(f):
        (s2, v), = eng.run_function(f, [Ptr('R', 0)], st.fork()); return v.off
    (_, size), = eng.run_function('P_size_%d' % ng, [], State())
    return dict(end=off('P_end_%d' % ng), start=off('P_start_%d' % ng), acc=off('P_acc_%d' % ng), qb=off('P_qb_%d' % ng), qe=off('P_qe_%d' % ng),
                groups=[(off('P_gb%d_%d' % (i, ng)), off('P_ge%d_%d' % (i, ng))) for i in range(ng)], size=size)

def check(module, inst, limit=120, hints=None):
    th = Theory(); th.ng = inst.ng; th.pre_tags = frozenset({'C03', 'C06'})
    eng = Engine(module, th, {}, limit)
    lay = th.lay = layout(eng, inst.ng)
    n = th.n; th.limits = [n]
    K = inst.kind; g = inst.ng
    st = State(); st.assume(z3.And(n >= 0, n < (1 << 31)))
    m = th.abstract(eng, 'a', 0, 1000000007, g, ())
    def obj(name, size=64): st.mem[name] = Obj(size); st.own.add(name); return name
    def view(name, b, e):
        o = st.mem[obj(name, 16)]; eng.put(o, 0, 8, Ptr(Q, b)); eng.put(o, 8, 8, Ptr(Q, e)); return name
    def result_obj(name, acc):
        o = st.mem[obj(name, lay['size'])]
        s0, e0 = z3.Int('start'), z3.Int('end')
        eng.put(o, lay['qb'], 8, Ptr(Q, 0)); eng.put(o, lay['qe'], 8, Ptr(Q, n)); eng.put(o, lay['start'], 8, Ptr(Q, s0)); eng.put(o, lay['end'], 8, Ptr(Q, e0))
        eng.put(o, lay['acc'], 1, acc)
        gs = [(z3.Int('g%d_b' % i), z3.Int('g%d_e' % i)) for i in range(g)]
        st.assume(z3.And(s0 >= 0, s0 <= e0, e0 <= n))
        for (kb, ke), (b, e) in zip(lay['groups'], gs):
            eng.put(o, kb, 8, Ptr(Q, b)); eng.put(o, ke, 8, Ptr(Q, e))
            st.assume(z3.Or(z3.And(b == -1, e == -1), z3.And(b >= s0, b <= e, e <= e0)))
        return s0, e0, gs
    def oblige(rs, name, tags, f): eng.oblige(rs, name, set(tags) | ({'C12'} if K in ('begin', 'incr') else set()), f)
    empty = [(z3.IntVal(-1), z3.IntVal(-1))] * g
    def found(rs, o, frm, acc):
        """o holds the first match that starts at frm or later, or no match at all"""
        r = th.read(rs, o); sv = th.state(rs, o); a = th.accepted(rs, o); s1 = th.ptr(r['start'])
        oblige(rs, 'the subject is unchanged', {'C03', 'C12'}, z3.And(I(enc(r['qb'])) == 0, I(enc(r['qe'])) == n))
        oblige(rs, 'a reported match starts at an accepting position, not before the search start', {'C03', 'C02'}, z3.Implies(a, z3.And(s1 >= frm, s1 <= n, m.ok(s1))))
        oblige(rs, 'no earlier position accepts (leftmost match)', {'C03'}, z3.Implies(a, th.search.NB(s1)))
        oblige(rs, 'if nothing is reported, no position accepts, the end included', {'C03', 'C02'}, z3.Implies(z3.Not(a), th.search.NB(n + 1)))
        fin = m.step(S(s1, empty))
        oblige(rs, 'the reported match ends where the matcher ended', {'C02', 'C03'}, z3.Implies(a, sv.end == fin.end))
        oblige(rs, 'the capture groups are those of the reported attempt alone', {'C06'}, z3.Implies(a, sv.geq(fin)))
        oblige(rs, 'without a match no capture group is set', {'C06'}, z3.Implies(z3.Not(a), sv.geq(S(sv.end, empty))))
        oblige(rs, 'start and end of the match lie inside the subject', {'C01', 'C02'}, z3.And(s1 >= 0, s1 <= I(sv.end), I(sv.end) <= n))
        oblige(rs, 'captures lie inside the match or are unset', {'C06', 'C01'}, z3.Implies(a, z3.And([z3.BoolVal(True)] + [
            z3.Or(z3.And(I(b) == -1, I(e) == -1), z3.And(I(b) >= s1, I(b) <= I(e), I(e) <= I(sv.end))) for b, e in sv.g])))
        return r, sv, a, s1
    seen = {}
    def cover(rs, key, c):
        if not seen.get(key): seen[key] = eng.feasible(rs, c)
    if K == 'ctor':
        th.search = Search(th, m, z3.IntVal(0)); obj('R', lay['size']); view('V', 0, n)
        for rs, rv in eng.run_function('H_' + inst.name, [Ptr('R', 0), Ptr('V', 0)], st):
            _, _, a, _ = found(rs, 'R', 0, None); cover(rs, 'match', a); cover(rs, 'no match', z3.Not(a))
    elif K in ('next', 'incr'):
        accv = z3.Bool('acc0'); s0, e0, gs = result_obj('R', z3.If(accv, z3.IntVal(1), z3.IntVal(0)))
        frm = z3.If(e0 == s0, e0 + 1, e0); th.search = Search(th, m, frm)
        for rs, rv in eng.run_function('H_' + inst.name, [Ptr('R', 0)], st):
            r = th.read(rs, 'R'); sv = th.state(rs, 'R'); a = th.accepted(rs, 'R')
            if K == 'next': oblige(rs, 'next() returns whether there is another match', {'C03', 'C12'}, (B(rv) if not isinstance(rv, bool) else z3.BoolVal(rv)) == a)
            else: oblige(rs, '++ returns the result itself', {'C12'}, isinstance(rv, Ptr) and rv.obj == 'R' and rv.off == 0)
            oblige(rs, 'after the last match there is never another one', {'C03', 'C14'}, z3.Implies(z3.Not(accv), z3.Not(a)))
            oblige(rs, 'matches do not overlap and each starts strictly later', {'C03', 'C14'}, z3.Implies(a, z3.And(th.ptr(r['start']) >= e0, th.ptr(r['start']) > s0)))
            # the search clauses, under the precondition that there was a match
            if eng.feasible(rs, accv):
                r2 = rs.fork(); r2.assume(accv)
                found(r2, 'R', frm, None) if not eng.valid(r2, z3.And(s0 == e0, e0 == n)) else (
                    oblige(r2, 'an empty match at the end is the last one', {'C03', 'C14'}, z3.Not(a)), oblige(r2, 'without a match no capture group is set', {'C06'}, sv.geq(S(sv.end, empty))))
                cover(r2, 'match', a); cover(r2, 'no match', z3.Not(a))
    elif K in ('begin', 'end'):
        s0, e0, gs = result_obj('O', z3.If(z3.Bool('acc0'), z3.IntVal(1), z3.IntVal(0))); obj('R', lay['size'])
        before = dict(st.mem['O'].cells)
        th.search = Search(th, m, z3.IntVal(0))
        for rs, rv in eng.run_function('H_' + inst.name, [Ptr('R', 0), Ptr('O', 0)], st):
            o = rs.mem['O'].cells
            oblige(rs, 'the result it was called on is unchanged', {'C12'}, all(k in o and (o[k][1] is v[1] or (is_sym(v[1]) and v[1].eq(o[k][1])) or (isinstance(v[1], Ptr) and v[1].obj == o[k][1].obj and z3.simplify(I(v[1].off)).eq(z3.simplify(I(o[k][1].off)))) or v[1] == o[k][1]) for k, v in before.items()))
            if K == 'begin': found(rs, 'R', 0, None)
            else:
                r = th.read(rs, 'R'); a = th.accepted(rs, 'R')
                oblige(rs, 'end() is not accepted', {'C12'}, z3.Not(a))
                oblige(rs, 'end() stays on the same subject and inside it', {'C01', 'C12'}, z3.And(I(enc(r['qb'])) == 0, I(enc(r['qe'])) == n, th.ptr(r['start']) >= 0, th.ptr(r['start']) <= th.ptr(r['end']), th.ptr(r['end']) <= n))
                oblige(rs, 'end() shows no captured text', {'C12', 'C06'}, th.state(rs, 'R').geq(S(0, empty)))
    elif K == 'accepted':
        accv = z3.Bool('acc0'); result_obj('R', z3.If(accv, z3.IntVal(1), z3.IntVal(0)))
        for h in ('H_', 'H2_'):
            for rs, rv in eng.run_function(h + inst.name, [Ptr('R', 0)], st.fork()):
                oblige(rs, 'is_accepted() and the conversion to bool report acceptance', {'C12'}, B(rv) == accv if not isinstance(rv, bool) else z3.BoolVal(rv) == accv)
    elif K == 'count':
        result_obj('R', 1)
        for h in ('H_', 'H2_', 'H3_'):
            for rs, rv in eng.run_function(h + inst.name, [Ptr('R', 0)], st.fork()):
                oblige(rs, 'size(), groups() and tuple_size agree on the number of groups', {'C12', 'C06'}, rv == g)
    elif K == 'view':
        accv = z3.Bool('acc0'); s0, e0, gs = result_obj('R', z3.If(accv, z3.IntVal(1), z3.IntVal(0)))
        for (b, e) in gs: st.assume(z3.Implies(z3.Not(accv), z3.And(b == -1, e == -1)))
        obj('B', 8); obj('N', 8)
        args = [Ptr('R', 0), Ptr('B', 0), Ptr('N', 0)] + ([inst.idx] if getattr(inst, 'runtime', False) else [])
        for rs, rv in eng.run_function('H_' + inst.name, args, st):
            b, ln = rs.mem['B'].cells[0][1], rs.mem['N'].cells[0][1]
            pb = I(enc(b))
            if inst.idx == 0:
                oblige(rs, 'group 0 is the matched text', {'C12', 'C06'}, z3.Implies(accv, z3.And(pb == s0, I(ln) == e0 - s0)))
                oblige(rs, 'without a match the view is empty', {'C12'}, z3.Implies(z3.Not(accv), I(ln) == 0))
            else:
                gb, ge = gs[inst.idx - 1]
                oblige(rs, 'group k is the text of the k-th capture', {'C12', 'C06'}, z3.Implies(z3.And(accv, gb >= 0), z3.And(pb == gb, I(ln) == ge - gb)))
                oblige(rs, 'an unset group is empty', {'C12', 'C06'}, z3.Implies(gb < 0, I(ln) == 0))
            oblige(rs, 'the view lies inside the subject', {'C01', 'C12'}, z3.Or(I(ln) == 0, z3.And(pb >= 0, pb + I(ln) <= n)))
    elif K.startswith('lsv'):
        a0, a1, b0, b1 = z3.Ints('a0 a1 b0 b1')
        st.assume(z3.And(a0 >= 0, a0 <= a1, a1 <= n, b0 >= 0, b0 <= b1, b1 <= n))
        if K == 'lsv_eq':
            la, lb = getattr(inst, 'la', None), getattr(inst, 'lb', None)
            if la is not None:
                st.assume(z3.And(a1 == a0 + la, b1 == b0 + lb)); a1, b1 = a0 + la, b0 + lb
            view('A', a0, a1); view('B', b0, b1); th.search = Prefix(th, a0, b0, a1 - a0); th.limits = [n, a1 - a0]
            for rs, rv in eng.run_function('H_' + inst.name, [Ptr('A', 0), Ptr('B', 0)], st):
                rv = B(rv) if not isinstance(rv, bool) else z3.BoolVal(rv)
                agree = th.search.NB(a1 - a0) if la is None else z3.And([z3.BoolVal(True)] + [th.Qf(a0 + i) == th.Qf(b0 + i) for i in range(min(la, lb))])
                same = z3.And(a0 == b0, a1 == b1)
                # identical ranges have identical characters
                oblige(rs, '== is true only for texts of the same length and the same characters', {'C12', 'C11'}, z3.Implies(rv, z3.Or(same, z3.And(a1 - a0 == b1 - b0, agree))))
                oblige(rs, '== is true for equal texts', {'C12', 'C11'}, z3.Implies(z3.And(a1 - a0 == b1 - b0, agree), rv))
                if la == lb: cover(rs, 'equal', rv)
                if la is None or la or lb: cover(rs, 'different', z3.Not(rv))
        elif K in ('lsv_size', 'lsv_empty'):
            view('A', a0, a1)
            for rs, rv in eng.run_function('H_' + inst.name, [Ptr('A', 0)], st):
                if K == 'lsv_size': oblige(rs, 'size() is the number of characters', {'C12'}, I(rv) == a1 - a0)
                else: oblige(rs, 'empty() means no characters', {'C12'}, (B(rv) if not isinstance(rv, bool) else z3.BoolVal(rv)) == (a1 == a0))
        elif K == 'lsv_sv':
            view('A', a0, a1); obj('B', 8); obj('N', 8)
            for rs, rv in eng.run_function('H_' + inst.name, [Ptr('A', 0), Ptr('B', 0), Ptr('N', 0)], st):
                oblige(rs, 'conversion to string_view keeps the text', {'C12'}, z3.And(I(enc(rs.mem['B'].cells[0][1])) == a0, I(rs.mem['N'].cells[0][1]) == a1 - a0))
        else:
            obj('R', 16)
            if K == 'lsv_arr': st.assume(a0 + 8 <= n)
            args = [Ptr('R', 0), Ptr(Q, a0)] + ([] if K == 'lsv_arr' else [z3.simplify(a1 - a0)])
            for rs, rv in eng.run_function('H_' + inst.name, args, st):
                e = a1 if K == 'lsv_ctor' else a0 + 7
                oblige(rs, 'construction keeps exactly the given text (without the terminating NUL of an array)', {'C12', 'C01'}, z3.And(I(enc(rs.mem['R'].cells[0][1])) == a0, I(enc(rs.mem['R'].cells[8][1])) == e))
    for k, v in seen.items():
        eng.obls['not vacuous: ' + k] = Obligation('the contract is not vacuous: ' + k, {'C03', 'C12'}, v)
    return eng
