"""Contracts of the terminals (literals, ranges, character classes, anchors)."""
import z3
from symex import Engine, Ptr, Q, State, Obj, I, B, enc, Unsupported, Limits, Obligation
from theory import Theory, S
from nodes_spec import PRELUDE, probes, layout, entry_state
GROUP = 20
P = {'C02', 'C07'}

def ps(s): return 'pack_string<' + ', '.join("(char)%d" % (c if c < 128 else c - 256) for c in s) + '>'

class Inst:
    def __init__(s, name, cpp, kind, **k):
        s.name = name; s.cpp = cpp; s.kind = kind; s.ng = 1; s.__dict__.update(k)
    def code(s):
        return 'using T_%s = %s;\n' % (s.name, s.cpp) + \
            'extern "C" void* H_%s(vf::R<1u>& r) { return &T_%s::template match<>(r); }\n' % (s.name, s.name) + \
            'extern "C" unsigned MIN_%s() { return T_%s::meta.minimum_match_size; }\nextern "C" unsigned MAX_%s() { return T_%s::meta.maximum_match_size; }\n' % ((s.name,) * 4) + \
            'constexpr auto ADMV_%s = admbits<typename decltype(T_%s::meta)::admission_set>::make();\nextern "C" unsigned char ADM_%s(unsigned char c) { return ADMV_%s.v[c]; }\n' % ((s.name,) * 4)

ADM = '''
struct admtable { unsigned char v[256]; };
template<typename T> struct admbits;
template<char... v> struct admbits<e_regex::admitted_set<char, v...>> { static constexpr admtable make() { admtable t{}; ((t.v[(unsigned char)v] = 1), ...); return t; } };
'''
# sentinels: characters that stand for arbitrary ones
RLO, RHI = 17, 110
def lit(n): return [33 + k for k in range(n)]

def instances():
    out = []
    T = lambda s: 'e_regex::terminals::terminal<%s>' % ps(s)
    for n in (1, 2, 3, 4, 5, 7, 8, 12, 16, 40):
        out.append(Inst('literal_%d' % n, T(lit(n)), 'exact', chars=lit(n), sym=True, allof=None))
    # whole-range sweep of one-character literals is cheap; and two awkward strings
    for nm, s in [('nul', [0]), ('high', [255]), ('neg', [128, 127]), ('rep', list(b'aaab')), ('utf8', list('é€'.encode()))]:
        out.append(Inst('literal_c_' + nm, T(s), 'exact', chars=s, sym=False))
    out.append(Inst('escaped', T([92, 33]), 'exact', chars=[33], sym=True))
    for c in b'.*+?()[]{}|^$\\/-"':
        out.append(Inst('escaped_%d' % c, T([92, c]), 'exact', chars=[c], sym=False))
    for nm, c in [('t', 9), ('n', 10), ('r', 13), ('f', 12), ('a', 7), ('e', 27)]:
        out.append(Inst('control_' + nm, T([92, ord(nm)]), 'exact', chars=[c], sym=False))
    R = lambda a, b: 'e_regex::terminals::range_terminal<%s, %s>' % (ps([a]), ps([b]))
    out.append(Inst('range', R(RLO, RHI), 'range', sym=True))
    for a, b in [(97, 122), (48, 57), (65, 65), (128, 127), (0, 127), (128, 255), (127, 127), (1, 255 - 256 + 256) if False else (32, 126)]:
        out.append(Inst('range_%d_%d' % (a, b), R(a, b), 'range', sym=False, lo=a if a < 128 else a - 256, hi=b if b < 128 else b - 256))
    digit = lambda c: z3.And(c >= 48, c <= 57)
    word = lambda c: z3.Or(digit(c), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), c == 95)
    space = lambda c: z3.Or([c == k for k in (9, 10, 12, 13, 32)])
    for nm, f in [('d', digit), ('w', word), ('s', space), ('N', lambda c: c != 10)]:
        if nm != 'N': out.append(Inst('class_' + nm, T([92, ord(nm)]), 'class', pred=f))
    for nm, f in [('D', digit), ('W', word), ('S', space), ('N', lambda c: c == 10)]:
        out.append(Inst('class_not_' + nm, T([92, ord(nm)]), 'class', pred=lambda c, f=f: z3.Not(f(c))))
    out.append(Inst('class_any', T([46]), 'class', pred=lambda c: c != 10))
    for nm, f, t in [('neg_range', lambda c: z3.Not(z3.And(c >= 97, c <= 102)), 'e_regex::terminals::negated_terminal<%s, e_regex::admitted_set_range_t<char, \'a\', \'f\'>>' % R(97, 102))]:
        out.append(Inst('class_' + nm, t, 'class', pred=f))
    out.append(Inst('anchor_start', 'e_regex::terminals::anchors::start', 'start'))
    out.append(Inst('anchor_end', 'e_regex::terminals::anchors::end', 'end'))
    for i in out: i.props = {'C01', 'C02', 'C05', 'C06', 'C07', 'C08', 'C09', 'C14'}
    return out

def tu(insts): return PRELUDE + ADM + probes(1) + '\n' + ''.join(i.code() for i in insts)

def check(module, inst, limit=120, hints=None):
    th = Theory(); th.ng = 1
    eng = Engine(module, th, {}, limit)
    lay = th.lay = layout(eng, 1)
    st, S0, s0 = entry_state(eng, th, lay, 1)
    p = S0.end; n = th.n; c = th.Qf(p); th.limits = [n]
    sc = lambda x: z3.If(x >= 128, x - 256, x)      # char is signed here
    cs = None
    if inst.kind == 'exact':
        cs = inst.chars
        if inst.sym:
            eng.byte_sent = {}; syms = []
            for k, code in enumerate(inst.chars):
                v = z3.Int('ch%d' % k); st.assume(z3.And(v >= 0, v <= 255)); eng.byte_sent[code] = v; syms.append(v)
            cs = syms
        L = len(cs)
        ok = z3.And([p + L <= n] + [th.Qf(p + k) == I(cs[k]) for k in range(L)]); fin = p + L; mn = mx = L
    elif inst.kind == 'range':
        if inst.sym:
            lo, hi = z3.Int('LO'), z3.Int('HI'); st.assume(z3.And(lo >= -128, lo <= hi, hi <= 127))
            eng.char_sent = {RLO: lo, RHI: hi}
        else: lo, hi = z3.IntVal(inst.lo), z3.IntVal(inst.hi)
        ok = z3.And(p < n, sc(c) >= lo, sc(c) <= hi); fin = p + 1; mn = mx = 1
    elif inst.kind == 'class': ok = z3.And(p < n, inst.pred(c)); fin = p + 1; mn = mx = 1
    elif inst.kind == 'start': ok = z3.Or(p == 0, th.Qf(p - 1) == 10); fin = p; mn = mx = 0
    elif inst.kind == 'end': ok = z3.Or(p == n, th.Qf(p) == 10); fin = z3.If(p < n, p + 1, p); mn, mx = 0, 1
    th.globals_axioms = [z3.And(th.Qf(t) >= 0, th.Qf(t) <= 255) for t in [p, p - 1] + [p + k for k in range(len(cs or []))]]
    rets = eng.run_function('H_' + inst.name, [Ptr('R', 0)], st)
    seen = {True: False, False: False}
    sized = not (inst.kind in ('exact', 'range') and inst.sym)
    adm = None
    if sized:
        adm = []
        for k in range(256):
            (_, v), = eng.run_function('ADM_' + inst.name, [k], State()); adm.append(v)
    for rs, rv in rets:
        sv = th.state(rs, 'R'); acc = th.accepted(rs, 'R'); r = th.read(rs, 'R')
        def post(name, tags, f): eng.oblige(rs, name, tags, f)
        post('the subject and the start of the match are unchanged', {'C02', 'C05'}, z3.And(I(enc(r['qb'])) == 0, I(enc(r['qe'])) == n, I(enc(r['start'])) == s0))
        post('the result object itself is returned', {'C05'}, isinstance(rv, Ptr) and rv.obj == 'R' and rv.off == 0)
        post('accepts only the text the terminal describes', {'C02', 'C07'}, z3.Implies(acc, ok))
        post('accepts every text the terminal describes', {'C07', 'C05'}, z3.Implies(ok, acc))
        post('consumes exactly the described text', {'C07', 'C02'}, z3.Implies(acc, I(sv.end) == fin))
        post('on rejection nothing is consumed', {'C07', 'C05'}, z3.Implies(z3.Not(acc), I(sv.end) == I(p)))
        post('the capture groups are never touched', {'C06', 'C05'}, sv.geq(S0))
        post('the position moves forward and stays inside the subject', {'C01', 'C02'}, z3.And(I(sv.end) >= I(p), I(sv.end) <= n))
        (_, a), = eng.run_function('MIN_' + inst.name, [], State()); (_, b), = eng.run_function('MAX_' + inst.name, [], State())
        post('the announced minimum match size is a lower bound', {'C08'}, z3.Implies(acc, I(sv.end) - I(p) >= a))
        post('the announced maximum match size is an upper bound', {'C08', 'C04'}, z3.Implies(acc, I(sv.end) - I(p) <= b))
        if adm is not None:
            notin = [k for k in range(256) if not adm[k]]
            post('where it accepts, the next character (if any) is in the announced admission set', {'C08', 'C09'},
                 z3.Implies(z3.And(acc, I(p) < n), z3.And([z3.BoolVal(True)] + [c != k for k in notin])))
        for t in (True, False):
            if not seen[t] and eng.feasible(rs, acc if t else z3.Not(acc)): seen[t] = True
    eng.obls['not vacuous: accepts'] = Obligation('the contract is not vacuous: some execution accepts', {'C07'}, seen[True])
    eng.obls['not vacuous: rejects'] = Obligation('the contract is not vacuous: some execution rejects', {'C07'}, seen[False])
    return eng
