"""Lemmas. Two parts, neither looks at /repo:
 - every fact that theory.py hands to z3 about chains of repetitions, about searching and about comparing prefixes is proved from
   the definitions of the symbols it uses (by induction where needed); the formulas are those of theory.py, not copies;
 - lemmas/*.lean: what follows for whole patterns from the contracts of the functions (see there)."""
import os, sys, subprocess, time, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import z3
from theory import Theory, S, Chain, Search, Prefix
BACKEND = 'z3 and Lean 4 (lemmas over the contracts)'
TOP = os.path.dirname(HERE)

def prove(name, hyps, goal, out, timeout=20000):
    s = z3.Solver(); s.set('timeout', timeout)
    s.add(*hyps); s.add(z3.Not(goal)); r = s.check()
    out.append((name, r == z3.unsat, False, '' if r == z3.unsat else 'z3: %s' % r, ()))

def chain(out):
    for writes in (False, True):
        for smin, smax, nc in [(0, None, 1), (1, 1, 2), (0, 3, 0), (2, 5, 1)]:
            th = Theory(); th.ng = 1 if writes else 0
            n, p = th.n, z3.Int('p'); g = [(z3.Int('g_b'), z3.Int('g_e'))] if writes else []
            m = th.matcher('A', smin, smax, writes); C = [th.matcher('C%d' % i, 0, None, False) for i in range(nc)]
            lo, hi = z3.Int('MIN'), z3.Int('MAX'); c = Chain(th, m, S(p, g), C, lo, hi)
            base = [n >= 0, p >= 0, p <= n, lo >= 0, lo <= hi] + [z3.Or(z3.And(b == -1, e == -1), z3.And(b >= 0, b <= e, e <= p)) for b, e in g]
            t, k, u, e, d = z3.Ints('t k u e d'); fa = z3.ForAll
            ax = fa([e], m.axiom(e, n))
            d0 = [c.at(z3.IntVal(0)).eq(c.s0), c.A(z3.IntVal(0))]
            dstep = fa([k], z3.Implies(k >= 0, z3.And(c.at(k + 1).eq(m.step(c.at(k))), c.A(k + 1) == z3.And(c.A(k), m.ok(c.E(k))))))
            one = lambda x: z3.Implies(x >= 0, z3.And(c.at(x + 1).eq(m.step(c.at(x))), c.A(x + 1) == z3.And(c.A(x), m.ok(c.E(x)))))
            tag = ' (matcher of %s..%s%s, %d continuations)' % (smin, smax, ', writes captures' if writes else '', nc)
            def pr(nm, hyps, goal): prove('chain of repetitions: ' + nm + tag, base + hyps, goal, out)
            # inside the subject, never backwards, between smin*t and smax*t characters
            def dom(x): return z3.And([c.E(x) >= p, c.E(x) <= n] + [c.E(x) >= p + smin * x] + ([c.E(x) <= p + smax * x] if smax is not None else []))
            D = lambda x: z3.Implies(z3.And(x >= 0, c.A(x)), dom(x))
            pr('bounds, base', d0, D(z3.IntVal(0))); pr('bounds, step', [one(t), D(t), m.axiom(c.E(t), n), t >= 0], D(t + 1)); dall = fa([k], D(k))
            # earlier repetitions accept too
            Mo = lambda a, b: z3.Implies(z3.And(a >= 0, a <= b, c.A(b)), z3.And(c.A(a), c.E(a) <= c.E(b)))
            pr('order, base', [u >= 0], Mo(u, u)); pr('order, step', [one(t), D(t), m.axiom(c.E(t), n), u >= 0, u <= t, Mo(u, t)], Mo(u, t + 1)); mall = fa([u, k], Mo(u, k))
            # after an empty repetition nothing changes
            emp = z3.And(t >= 0, c.A(t + 1), c.E(t + 1) == c.E(t))
            Sa = lambda x: z3.Implies(emp, z3.And(c.A(x), c.at(x).eq(c.at(t + 1))))
            pr('empty repetitions, base', [one(t)], Sa(t + 1))
            pr('empty repetitions, step', [one(t), one(k), k >= t + 1, Sa(k)], Sa(k + 1)); sall = fa([k], z3.Implies(k >= t + 1, Sa(k)))
            # definitions
            same = lambda a, b: c.at(a).eq(c.at(b))
            defs = [fa([u], c.Tail(u) == fa([k], z3.Implies(z3.And(k > u, k <= hi), z3.Or(z3.Not(c.A(k)), z3.Not(c.cok(k)), same(k, u))))),
                    fa([u], c.Full(u) == fa([k], z3.Implies(z3.And(k > u, k <= hi), z3.Or(z3.Not(c.A(k)), same(k, u))))),
                    fa([u], c.NB(u) == fa([k], z3.Implies(z3.And(k >= lo, k < u), z3.Not(c.cok(k))))),
                    c.NoSol == fa([k], z3.Implies(z3.And(k >= lo, k <= hi), z3.Not(z3.And(c.A(k), c.cok(k)))))]
            for i, f in enumerate(c.lemmas0()): pr('fact 0.%d' % i, d0, f)
            for i, f in enumerate(c.lemmas1(t)): pr('fact 1.%d' % i, d0 + [one(t), dall, mall, sall] + defs, f)
            for i, f in enumerate(c.lemmas2(t, u)): pr('fact 2.%d' % i, [mall], f)
            if writes:
                pr('captures, base', d0, c.caplemma(z3.IntVal(0))); pr('captures, step', [one(t), D(t), t >= 0, m.axiom(c.E(t), n), c.caplemma(t)], c.caplemma(t + 1))

def search(out):
    th = Theory(); m = th.matcher('A', 0, None, False); frm = z3.Int('from'); s = Search(th, m, frm); t, k = z3.Ints('t k')
    d = z3.ForAll([t], s.NB(t) == z3.ForAll([k], z3.Implies(z3.And(k >= frm, k < t), z3.Not(m.ok(k)))))
    for i, f in enumerate(s.lemmas1(t)): prove('search: fact %d' % i, [d], f, out)
    th = Theory(); a, b, L = z3.Ints('a b len'); s = Prefix(th, a, b, L)
    d = z3.ForAll([t], s.NB(t) == z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < t), th.Qf(a + k) == th.Qf(b + k))))
    for i, f in enumerate(s.lemmas1(t)): prove('comparison of texts: fact %d' % i, [d, L >= 0], f, out)

def sane(out):
    """the facts handed to z3 have a model: nothing is proved from a contradiction"""
    for writes in (False, True):
        th = Theory(); th.ng = 1 if writes else 0; p = z3.Int('p')
        m = th.matcher('A', 0, None, writes); c = Chain(th, m, S(p, [(z3.IntVal(-1), z3.IntVal(-1))] if writes else []), [th.matcher('C', 0, None, False)], z3.IntVal(2), z3.IntVal(5))
        s = z3.Solver(); s.set('timeout', 20000); s.add(th.n == 3, p == 0)
        for i in range(4):
            s.add(m.axiom(z3.IntVal(i), th.n)); s.add(*c.lemmas1(z3.IntVal(i)))
            for j in range(4): s.add(*c.lemmas2(z3.IntVal(i), z3.IntVal(j)))
        s.add(*c.lemmas0()); s.add(c.A(z3.IntVal(2)))
        r = s.check(); out.append(('chain of repetitions: the facts have a model%s' % (' (captures)' if writes else ''), r == z3.sat, False, str(r), ()))

LEAN = os.path.join(TOP, 'lemmas', 'Regex.lean')
GROUPS = [(('it_', 'earlier_', 'greedy_', 'lazy_', 'same_'), {'C04', 'C08'}), (('adm_', 'rep_'), {'C08', 'C09'}), (('len_',), {'C08'}), (('run_',), {'C03', 'C14'}),
          (('mem_', 'sorted_', 'not_mem_'), {'C07', 'C09'}), (('value_',), {'C04', 'C10'})]
STD = {'propext', 'Quot.sound', 'Classical.choice'}
def lean(p, out):
    """Lean checks every theorem of the file; what each one rests on is printed by Lean itself"""
    import re
    src = open(LEAN).read(); names = re.findall(r'^theorem (\S+)', src, re.M)
    mine = [n for n in names if any(n.startswith(g) and p in u for gs, u in GROUPS for g in gs)]
    if not mine: return
    d = tempfile.mkdtemp(prefix='lean')
    try:
        f = os.path.join(d, 'Regex.lean'); open(f, 'w').write(src + '\nopen ERegex\n' + ''.join('#print axioms ERegex.%s\n' % n for n in names))
        try: r = subprocess.run(['lean', f], capture_output=True, text=True, timeout=240, cwd=d); txt = r.stdout + r.stderr; rc = r.returncode
        except Exception as e: txt, rc = str(e), -1
    finally: shutil.rmtree(d, ignore_errors=True)
    base = {}
    for m in re.finditer(r"'ERegex\.(\S+)' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", txt):
        base[m.group(1)] = {x.strip() for x in (m.group(3) or '').split(',')} - {''}
    for n in mine:
        ok = rc == 0 and n in base and base[n] <= STD
        out.append(('Lean: ' + n, ok, False, '' if ok else 'lean: %s %s' % (base.get(n), txt[-300:]), ()))

CHAIN = ('C01', 'C02', 'C04', 'C05', 'C06', 'C08', 'C14'); SEARCH = ('C01', 'C02', 'C03', 'C05', 'C06', 'C08', 'C11', 'C12', 'C14')
def run(p, tier):
    out = []
    if p in SEARCH: search(out)
    if p in CHAIN: chain(out); sane(out)
    lean(p, out)
    return out

if __name__ == '__main__':
    t = time.time(); o = run(sys.argv[1] if len(sys.argv) > 1 else 'C04', 'quick')
    for x in o:
        if not x[1]: print(x[0], x[3])
    print(len(o), sum(x[1] for x in o), '%.1fs' % (time.time() - t))
