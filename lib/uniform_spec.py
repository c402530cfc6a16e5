"""The counts of a quantifier and the index of a group are template parameters. nodes_spec proves the contracts with these
parameters symbolic, on the code generated for one stand-in value. This module extends the proof to concrete values: the code
generated for them has to be the proved code, instruction by instruction, with the value in place of the stand-in.
Where it is not (the code treats a value specially), the instance is verified on its own, with the same contract."""
import re
import nodes_spec as N
from nodes_spec import Inst, M, MINS, MAXS, UNB, ANY, WID
GROUP = 70
a, c, x = ('a',), ('c',), ('x',)
aw = ('a', WID, WID)

def pairs():
    out = [(lo, hi) for lo in range(0, 8) for hi in range(max(lo, 1), 8)]
    out += [(lo, UNB) for lo in list(range(0, 13)) + [16, 17, 31, 64, 99, 100, 255, 256, 1000, 65536]]
    out += [(0, 16), (0, 100), (1, 255), (1, 256), (5, 1000), (9, 10), (10, 12), (16, 17), (31, 33), (64, 65), (100, 1000), (2, 65536)]
    return out

def rep(kind, lo, hi, v): return '%s_%s%s_%s' % (kind, '0' if lo == 0 else 'm', 'u' if hi == UNB else 'm', v)

def instances():
    out = []
    def add(name, kind, cpp, g, inj, **k):
        rp = k.pop('rep'); sb = k.pop('subst')
        i = Inst('u_' + name, kind, cpp, g, inj, **k); i.weight = 5; i.rep = rp; i.subst = sb; out.append(i)
    for kind, vs in [('greedy', ('v1', 'f0i')), ('lazy', ('v1', 'v0i')), ('possessive', ('v1', 'v0'))]:
        for v in vs:
            A = aw if v[0] == 'f' else a
            cs = (c,) if '1' in v else (); inj = (x,) if 'i' in v else ()
            for lo, hi in pairs():
                add('%s_%s_%d_%s' % (kind, v, lo, 'u' if hi == UNB else hi), kind, '%s<%s>' % (kind, ', '.join([M(*A), '%du' % lo, '%du' % hi] + [M(*m) for m in cs])), 0, inj,
                    A=A, C=cs, lo=lo, hi=hi, rep=rep(kind, lo, hi, v), subst=[(lo, MINS)] * (lo != 0) + [(hi, MAXS)] * (hi != UNB))
    for v, cs in [('v1', (c,)), ('v0', ())]:
        for n in list(range(0, 41)) + [63, 64, 65, 99, 100, 127, 128, 255, 256, 1000, 65535, 65536]:
            add('repeated_%s_%d' % (v, n), 'repeated', 'repeated<%s>' % ', '.join([M(*a), '%du' % n] + [M(*m) for m in cs]), 0, (), A=a, C=cs, lo=n, hi=n,
                rep='repeated_%s_%s' % ('0' if n == 0 else 'n', v), subst=[(n, MINS)] * (n != 0))
    return out

_text = {}
def functions(path):
    if path in _text: return _text[path]
    fns = {}; cur = None
    for l in open(path):
        if l.startswith('define '):
            nm = re.search(r'@("[^"]*"|[\w.$]+)\(', l)[1]; cur = fns[nm] = [re.sub(r'#\d+|comdat.*$', '', l.rstrip('{\n '))]
        elif l.startswith('}'): cur = None
        elif cur is not None:
            l = re.sub(r', !\S+ !?\S*|#\d+|;.*$', '', l.rstrip('\n')).strip()
            if l: cur.append(l)
    _text[path] = fns
    return fns

def reach(fns, root):
    seen = []; work = [root]
    while work:
        f = work.pop()
        if f in seen or f not in fns: continue
        seen.append(f)
        for l in fns[f][1:]:
            for nm in re.findall(r'@("[^"]*"|[\w.$]+)\(', l):
                if nm in fns and nm not in seen: work.append(nm)
    return seen

TOK = re.compile(r'@"[^"]*"|[@%][\w.$]+|-?\d+|[A-Za-z_.]\w*|\S')
def same_code(fns, root, root_rep, subst):
    """is everything reachable from root the code reachable from root_rep, with the values in place of the stand-ins?"""
    vals = {}
    for v, s in subst: vals.setdefault(str(s), str(v if v < (1 << 31) else v - (1 << 32)))
    work = [(root, root_rep)]; done = set()
    while work:
        f, g = work.pop()
        if (f, g) in done: continue
        done.add((f, g))
        A, Bv = fns.get(f), fns.get(g)
        if (A is None) != (Bv is None): return False, '%s against %s' % (f, g)
        if A is None:
            if f != g: return False, 'calls %s instead of %s' % (f, g)
            continue
        if len(A) != len(Bv): return False, '%s: %d instructions, proved: %d' % (f, len(A), len(Bv))
        for la, lb in zip(A, Bv):
            ta, tb = TOK.findall(la), TOK.findall(lb)
            if len(ta) != len(tb): return False, '%s: "%s", proved: "%s"' % (f, la, lb)
            for p, q in zip(ta, tb):
                if p == q:
                    if q in vals: return False, '%s: "%s"' % (f, la)
                    continue
                if p[0] == '@' and q[0] == '@':
                    if p[1:] in fns or q[1:] in fns: work.append((p[1:], q[1:])); continue
                    return False, '%s: "%s", proved: "%s"' % (f, la, lb)
                if p[0] == '%' and q[0] == '%' and ('class.' in p or 'struct.' in p) and p.split('.')[:2] == q.split('.')[:2]: continue
                if q in vals and vals[q] == p: continue
                return False, '%s: "%s", proved: "%s"' % (f, la, lb)
    return True, ''

class Quick:
    """same shape as symex.Engine, for an instance decided by comparison"""
    def __init__(s): s.obls = {}; s.covered = set(); s.queries = 0; s.solver_s = 0.0; s.stub_calls = {}; s.loops_cut = []; s.inv_report = []

def check_text(path, load, inst, limit=120, hints=None):
    from symex import Obligation
    fns = functions(path)
    ok, why = same_code(fns, 'H_' + inst.name, 'H_' + inst.rep, inst.subst)
    if ok:
        e = Quick(); nm = 'the code for these counts is the code proved for all counts'
        e.obls[nm] = Obligation(nm, {'C02', 'C04', 'C05'}, True); e.covered = set(reach(fns, 'H_' + inst.name))
        return e
    e = N.check(load(), inst, limit, hints)
    big = max(inst.lo, 0 if inst.hi == UNB else inst.hi) > N.EXPLICIT
    for o in e.obls.values():
        if not o.ok and big: o.cut = True    # not decided by this proof attempt
    e.obls['verified on its own: ' + why] = Obligation('verified on its own, the code differs from the one for other counts', {'C04'}, True, why)
    return e

def tu(insts):
    reps = {i.name: i for i in N.instances()}
    need = [reps[r] for r in dict.fromkeys(i.rep for i in insts)]
    return N.tu(need + list(insts))
