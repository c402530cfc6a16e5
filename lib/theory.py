"""Specification vocabulary: abstract matchers, chains of repetitions, and the lemmas instantiated for z3.

A matcher X (with the lookahead list L it is called with) is known by its contract only:
    ok_X(e)        it accepts at position e
    end_X(e)       where it stops when it accepts:  e + smin <= end_X(e) <= min(n, e + smax)
    set_X_i(e)     it writes capture group i; then gb_X_i(e) <= ge_X_i(e) lie in [e, end_X(e)]
When it rejects, nothing changes except accepted := false.
A chain is the sequence of states produced by repeating a matcher from the entry state."""
import re, z3
from symex import Ptr, Q, I, B, b2i, i2b, enc, is_sym, is_boolish, UNDEF, demangle, PathEnd, NULLOFF
from ir import Unsupported

INT, BOOL = z3.IntSort(), z3.BoolSort()

class S:
    """abstract state: position and capture groups"""
    def __init__(s, end, groups): s.end = end; s.g = tuple(groups)
    def eq(s, o):
        return z3.And([I(s.end) == I(o.end)] + [z3.And(I(a[0]) == I(b[0]), I(a[1]) == I(b[1])) for a, b in zip(s.g, o.g)])
    def geq(s, o):
        return z3.And([z3.BoolVal(True)] + [z3.And(I(a[0]) == I(b[0]), I(a[1]) == I(b[1])) for a, b in zip(s.g, o.g)])

def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    return S(z3.If(c, I(a.end), I(b.end)), [(z3.If(c, I(x[0]), I(y[0])), z3.If(c, I(x[1]), I(y[1]))) for x, y in zip(a.g, b.g)])

class Matcher:
    def __init__(s, th, key, smin, smax, writes, ngroups):
        s.key = key; s.smin = smin; s.smax = smax; s.writes = writes; s.ng = ngroups
        s.okf = z3.Function('ok_' + key, INT, BOOL); s.endf = z3.Function('end_' + key, INT, INT)
        s.setf = [z3.Function('set_%s_%d' % (key, i), INT, BOOL) for i in range(ngroups)] if writes else []
        s.gbf = [z3.Function('gb_%s_%d' % (key, i), INT, INT) for i in range(ngroups)] if writes else []
        s.gef = [z3.Function('ge_%s_%d' % (key, i), INT, INT) for i in range(ngroups)] if writes else []
    def ok(s, e): return s.okf(I(e))
    def axiom(m, t, n):
        e = m.endf(t); body = [e >= t + I(m.smin), e <= n]
        if m.smax is not None: body.append(e <= t + I(m.smax))
        for i in range(len(m.setf)):
            body.append(z3.Implies(m.setf[i](t), z3.And(t <= m.gbf[i](t), m.gbf[i](t) <= m.gef[i](t), m.gef[i](t) <= e)))
        return z3.Implies(z3.And(m.okf(t), t >= 0, t <= n), z3.And(body))
    def step(s, st):
        e = I(st.end); g = st.g
        if s.writes:
            g = [(z3.If(s.setf[i](e), s.gbf[i](e), I(b)), z3.If(s.setf[i](e), s.gef[i](e), I(x))) for i, (b, x) in enumerate(st.g)]
        return S(s.endf(e), g)

class Chain:
    """states of repeating matcher m from s0, with the continuation (list of matchers) tried after each repetition"""
    def __init__(s, th, m, s0, cont, lo, hi):
        s.th = th; s.m = m; s.s0 = s0; s.cont = cont; s.lo = lo; s.hi = hi
        s.E = z3.Function('E', INT, INT); s.A = z3.Function('AllOK', INT, BOOL)
        s.Gb = [z3.Function('Gb_%d' % i, INT, INT) for i in range(len(s0.g))]
        s.Ge = [z3.Function('Ge_%d' % i, INT, INT) for i in range(len(s0.g))]
        s.Tail = z3.Function('Tail', INT, BOOL); s.NB = z3.Function('NB', INT, BOOL); s.NoSol = z3.Bool('NoSol')
        s.pt = {}; s.Full = z3.Function('Full', INT, BOOL)   # no repetition is left after t, or all further ones are empty
        s.fns = {f.name() for f in [s.E, s.A, s.Tail, s.NB, s.Full] + s.Gb + s.Ge}
    def at(s, t):
        if not s.m.writes: return S(s.E(t), s.s0.g)   # the matcher owns no capture group
        return S(s.E(t), [(b(t), e(t)) for b, e in zip(s.Gb, s.Ge)])
    def cok(s, t): return s.th.dfs_ok(s.cont, s.E(t))
    def const_terms(s): return [z3.IntVal(0), z3.simplify(I(s.lo)), z3.simplify(I(s.hi))]
    def lemmas0(s): return [s.at(z3.IntVal(0)).eq(s.s0), s.A(z3.IntVal(0))]
    def lemmas1(s, t):
        """facts about index t (each is a consequence of the definitions; see lemmas.py)"""
        out = []
        lo, hi = I(s.lo), I(s.hi)
        u = z3.simplify(t + 1)
        out.append(z3.Implies(t >= 0, z3.And(s.at(u).eq(s.m.step(s.at(t))), s.A(u) == z3.And(s.A(t), s.m.ok(s.E(t))))))
        dom = [s.E(t) >= I(s.s0.end), s.E(t) <= s.th.n]
        if isinstance(s.m.smin, int) and s.m.smin: dom.append(s.E(t) >= I(s.s0.end) + s.m.smin * t)
        if isinstance(s.m.smax, int): dom.append(s.E(t) <= I(s.s0.end) + s.m.smax * t)
        out.append(z3.Implies(z3.And(t >= 0, s.A(t)), z3.And(dom)))
        C = s.cok(t)
        # Tail(t): for every k in (t, hi]: not AllOK(k), or not Cok(k), or S(k) == S(t)
        out.append(z3.Implies(t == hi, z3.And(s.Tail(t), s.Full(t))))
        out.append(z3.Implies(z3.And(t >= 0, z3.Not(s.A(u))), z3.And(s.Tail(t), s.Full(t))))
        out.append(z3.Implies(z3.And(t >= 0, s.A(u), s.E(u) == s.E(t)), z3.And(s.Tail(u), s.Full(u))))
        out.append(z3.Implies(z3.And(s.Tail(u), t >= 0, z3.Or(z3.Not(s.cok(u)), z3.Not(s.A(u)))), s.Tail(t)))
        out.append(z3.Implies(z3.And(s.Tail(t), t == lo, z3.Not(z3.And(s.A(t), C))), s.NoSol))
        # NB(t): for every k in [lo, t): not Cok(k)
        out.append(z3.Implies(t <= lo, s.NB(t)))
        out.append(z3.Implies(z3.And(s.NB(t), t >= lo, z3.Not(C)), s.NB(u)))
        out.append(z3.Implies(z3.And(s.NB(u), t == hi), s.NoSol))
        out.append(z3.Implies(z3.And(s.NB(u), t >= lo, z3.Not(s.A(u))), s.NoSol))
        out.append(z3.Implies(z3.And(t >= 0, t <= lo, z3.Not(s.A(t))), s.NoSol))
        out.append(z3.Implies(z3.And(s.NB(u), t >= lo, s.A(u), s.E(u) == s.E(t)), s.NoSol))
        # once a repetition is empty all later ones are empty, with the same state
        sat = [z3.Implies(v >= u, z3.And(s.A(v), s.at(v).eq(s.at(u)), s.Full(v))) for v in s.const_terms()[1:]]
        out.append(z3.Implies(z3.And(t >= 0, s.A(u), s.E(u) == s.E(t)), z3.And(sat)))
        return out
    def caplemma(s, t):
        """every capture is the one on entry, or lies inside what the first t repetitions consumed"""
        if not s.m.writes: return z3.BoolVal(True)
        return z3.Implies(z3.And(t >= 0, s.A(t)), z3.And([z3.BoolVal(True)] + [
            z3.Or(z3.And(bf(t) == I(b0), ef(t) == I(e0)), z3.And(bf(t) >= I(s.s0.end), bf(t) <= ef(t), ef(t) <= s.E(t)))
            for (b0, e0), bf, ef in zip(s.s0.g, s.Gb, s.Ge)]))
    def lemmas2(s, t, u):
        def parts(x):
            k = x.get_id()
            if k not in s.pt: s.pt[k] = (x, x >= 0, s.A(x), s.E(x))
            return s.pt[k]
        _, t0, At, Et = parts(t); _, u0, Au, Eu = parts(u)
        return [z3.Or(z3.Not(z3.And(t0, t <= u, Au)), z3.And(At, Et <= Eu))]

class Search:
    """NBs(q): no accepting start in [from, q)"""
    def __init__(s, th, m, frm):
        s.th = th; s.m = m; s.frm = frm; s.NB = z3.Function('NBs', INT, BOOL); s.trig = {'NBs', m.okf.name()}
    def lemmas1(s, t):
        return [z3.Implies(t <= I(s.frm), s.NB(t)), z3.Implies(z3.And(s.NB(t), z3.Not(s.m.ok(t))), s.NB(z3.simplify(t + 1)))]

    def cells(s, ints, ptrs): return ptrs

class Prefix:
    """NB(k): the first k characters of two ranges of the subject agree"""
    def __init__(s, th, a, b, length):
        s.th = th; s.a = a; s.b = b; s.len = length; s.NB = z3.Function('NBs', INT, BOOL); s.trig = {'NBs'}; s.frm = z3.IntVal(0)
    def lemmas1(s, t):
        Q = s.th.Qf
        eq = Q(z3.simplify(s.a + t)) == Q(z3.simplify(s.b + t))
        return [z3.Implies(t <= 0, s.NB(t)), z3.Implies(t >= 0, s.NB(z3.simplify(t + 1)) == z3.And(s.NB(t), eq)),
                z3.Implies(z3.And(s.NB(s.len), t >= 0, t < s.len), eq)]
    def cells(s, ints, ptrs): return ints

class Theory:
    def __init__(s):
        s.n = z3.Int('n'); s.Qf = z3.Function('Q', INT, INT)
        s.byname = {}; s._simp = {}; s.matchers = {}; s.chain = None; s.search = None; s.ng = 0; s.lay = None
        s.limits = []; s._cache = {}; s._ax = {}; s.extra_stub = None; s.matcher_pre = True; s.index_extra = []
        s.size_of = {}
    # --- matchers
    def matcher(s, key, smin, smax, writes):
        if key not in s.matchers:
            m = s.matchers[key] = Matcher(s, key, smin, smax, writes, s.ng)
            for f in [m.okf, m.endf] + m.setf + m.gbf + m.gef: s.byname[f.name()] = m
        return s.matchers[key]
    def dfs_ok(s, cs, e):
        if not cs: return z3.BoolVal(True)
        return z3.Or([c.ok(e) for c in cs])
    def dfs_step(s, cs, st):
        if not cs: return st
        r = cs[-1].step(st)
        for c in reversed(cs[:-1]): r = ite(c.ok(st.end), c.step(st), r)
        return r
    # --- subject
    def char(s, off, st): return s.Qf(I(off))
    def external(s, eng, name, av, st, where): return None
    def variant_limits(s): return [x for x in s.limits if x is not None]
    # --- layout of the result object
    def read(s, st, obj):
        L = s.lay
        def cell(k):
            c = st.mem[obj].cells.get(k)
            if c is None: raise Unsupported('result cell is missing')
            return c[1]
        return dict(end=cell(L['end']), start=cell(L['start']), qb=cell(L['qb']), qe=cell(L['qe']), acc=cell(L['acc']),
                    g=[(cell(b), cell(e)) for b, e in L['groups']])
    @staticmethod
    def ptr(v):
        if v is UNDEF: return z3.FreshInt('undef')
        return I(enc(v)) if isinstance(v, Ptr) else I(v)
    def state(s, st, obj):
        r = s.read(st, obj)
        return S(s.ptr(r['end']), [(s.ptr(b), s.ptr(e)) for b, e in r['g']])
    def accepted(s, st, obj):
        a = s.read(st, obj)['acc']
        if a is UNDEF: return z3.FreshBool('undef')
        return B(i2b(a))
    def put(s, eng, st, obj, sv):
        o = st.w(obj); L = s.lay
        eng.put(o, L['end'], 8, Ptr(Q, sv.end))
        for (b, e), (vb, ve) in zip(L['groups'], sv.g): eng.put(o, b, 8, Ptr(Q, vb)); eng.put(o, e, 8, Ptr(Q, ve))
    # --- callee contracts
    NAME = re.compile(r'(?:auto|&|^|\s)\s*vf::M<\(char\)(\d+), (\d+)u, (\d+)u, (\d+)u>::match<(.*)>\(')
    def stub(s, eng, name):
        if s.extra_stub:
            r = s.extra_stub(eng, name)
            if r: return r
        if name in eng.m.fns: return None
        d = demangle(name)
        if 'vf::M<' not in d or '::match<' not in d: return None
        mm = re.search(r'vf::M<\(char\)(-?\d+), (\d+)u, (\d+)u, (\d+)u>::match<', d)
        if not mm: return None
        cid, smin, smax, ng = map(int, mm.groups())
        rest = d[mm.end():]
        depth = 1; k = 0
        while k < len(rest) and depth:
            if rest[k] == '<': depth += 1
            elif rest[k] == '>' and rest[k-1:k+1] != '->': depth -= 1
            k += 1
        inj = tuple(chr(int(x)) for x in re.findall(r'vf::M<\(char\)(-?\d+)', rest[:k - 1]))
        m = s.abstract(eng, chr(cid), smin, smax, ng, inj)
        return lambda eng, st, av, where: s.call(eng, st, m, av, where)
    def abstract(s, eng, c, smin, smax, ng, inj):
        key = c + ('_' + ''.join(inj) if inj else '')
        smin2 = eng.sent.get(smin, smin); smax2 = None if smax == 1000000007 else eng.sent.get(smax, smax)
        return s.matcher(key, smin2, smax2, ng > 0)
    def call(s, eng, st, m, av, where):
        p = av[0]; r = s.read(st, p.obj); sv = s.state(st, p.obj)
        T = {'C01'} | s.pre_tags
        eng.oblige(st, 'precondition of a matcher call: the position is inside the subject @' + where, T,
                   z3.And(I(enc(r['qb'])) == 0, I(enc(r['qe'])) == s.n, sv.end >= 0, sv.end <= s.n) if isinstance(r['end'], Ptr) else False)
        eng.oblige(st, 'precondition of a matcher call: no failure is pending @' + where, s.pre_tags, B(i2b(r['acc'])) if r['acc'] is not UNDEF else False)
        st.assume(z3.And(sv.end >= 0, sv.end <= s.n))
        out = []
        okc = m.ok(sv.end); d = eng.decide(st, okc)
        if d is not True:
            f = st.fork() if d is None else st
            f.assume(z3.Not(okc)); eng.put(f.w(p.obj), s.lay['acc'], 1, 0); out.append((f, p))
        if d is not False:
            st.assume(okc); s.put(eng, st, p.obj, m.step(sv)); eng.put(st.w(p.obj), s.lay['acc'], 1, 1)
            out.append((st, p))
        return out
    pre_tags = frozenset({'C05'})
    def simp(s, t):
        k = t.get_id()
        if k not in s._simp: s._simp[k] = (t, z3.simplify(t))
        return s._simp[k][1]
    # --- axioms
    def apps(s, e):
        """the one-argument uninterpreted applications in e"""
        C = s._cache
        k = e.get_id()
        if k in C: return C[k][1]
        stack = [e]
        while stack:
            x = stack[-1]; k = x.get_id()
            if k in C: stack.pop(); continue
            if not z3.is_app(x): C[k] = (x, frozenset()); stack.pop(); continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in C]
            if todo: stack.extend(todo); continue
            acc = set()
            for c in ch: acc |= C[c.get_id()][1]
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if len(ch) == 1: acc.add((x.decl().name(), ch[0]))
                elif not ch and x.decl().name() == 'NoSol': acc.add(('NoSol', None))
            C[k] = (x, frozenset(acc)); stack.pop()
        return C[e.get_id()][1]
    def context(s): return Ctx(s)
    def axioms(s, cs):
        ctx = Ctx(s); out = []
        for c in cs: out += ctx.add(c)
        return out
    globals_axioms = ()
    # --- invariant candidates
    def candidates(s, eng, st, M, g):
        cands = []
        def add(desc, f):
            f.desc = desc; f.idx = None; cands.append(f)
        def cell(stt, o, k):
            c = stt.mem[o].cells.get(k)
            return None if c is None else c[1]
        ints, ptrs, bools = [], [], []
        for o, ob in st.mem.items():
            if ob.ro: continue
            for k, (size, v) in ob.cells.items():
                if isinstance(v, Ptr):
                    if v.obj in (Q, 'null'): ptrs.append((o, k))
                elif v is UNDEF or isinstance(v, tuple): continue
                elif size == 1 and is_boolish(v): bools.append((o, k))
                elif size >= 1: ints.append((o, k))
        Mset = set(M)
        def val(ok):
            def f(stt):
                v = cell(stt, *ok)
                if v is None or v is UNDEF or isinstance(v, tuple): return None
                if isinstance(v, Ptr):
                    if v.obj not in (Q, 'null'): return None
                    return I(enc(v))
                if isinstance(v, bool): return I(int(v))
                return I(v)
            return f
        nm = lambda ok: '%s+%d' % (ok[0].split('.')[-1].split('#')[0], ok[1])
        def rel(desc, f, h):
            """both terms must exist"""
            def c(stt, gg):
                a = f(stt, gg)
                return None if a is None else a
            add(desc, c)
        consts = [('0', z3.IntVal(0))] + [('lim%d' % i, I(x)) for i, x in enumerate(s.limits)]
        mi = [x for x in ints if x in Mset]; mp = [x for x in ptrs if x in Mset]; mb = [x for x in bools if x in Mset]
        e0 = {x: val(x)(st) for x in ints + ptrs}
        def bin2(desc, fa, fb, op):
            def c(stt, gg):
                a, b = fa(stt, gg), fb(stt, gg)
                if a is None or b is None: return None
                return op(a, b)
            add(desc, c)
        L = lambda f: (lambda stt, gg: f(stt))
        K = lambda v: (lambda stt, gg: v)
        EQ = lambda a, b: a == b; LE = lambda a, b: a <= b; LT = lambda a, b: a < b
        for x in mi:
            v = L(val(x)); n0 = K(e0[x])
            bin2(nm(x) + '==v0+g', v, lambda stt, gg, x=x: e0[x] + gg, EQ)
            bin2(nm(x) + '==v0-g', v, lambda stt, gg, x=x: e0[x] - gg, EQ)
            bin2(nm(x) + '>=v0', n0, v, LE); bin2(nm(x) + '<=v0', v, n0, LE)
            for d, c in consts:
                bin2(nm(x) + '<=' + d, v, K(c), LE); bin2(nm(x) + '>=' + d, K(c), v, LE); bin2(nm(x) + '<' + d, v, K(c), LT)
            for y in ints:
                if y != x and (y not in Mset or y > x):
                    w = L(val(y))
                    bin2(nm(x) + '<=' + nm(y), v, w, LE); bin2(nm(x) + '>=' + nm(y), w, v, LE)
            for y in ints:
                if y != x and y in Mset and y > x:
                    bin2('%s+%s const' % (nm(x), nm(y)), lambda stt, gg, v=v, y=y: sum2(v(stt, gg), val(y)(stt)), K(e0[x] + e0[y]), EQ)
                    bin2('%s-%s const' % (nm(x), nm(y)), lambda stt, gg, v=v, y=y: dif2(v(stt, gg), val(y)(stt)), K(e0[x] - e0[y]), EQ)
        # of several unchanged pointers with the same value one is enough
        seenp = [z3.IntVal(0), s.n]; others = []
        for y in ptrs:
            if y in Mset: others.append(y); continue
            t = z3.simplify(e0[y])
            if any(t.eq(u) for u in seenp): continue
            seenp.append(t); others.append(y)
        for x in mp:
            v = L(val(x)); n0 = K(e0[x])
            def inr(stt, gg, f=val(x)):
                a = f(stt); return None if a is None else z3.And(a >= 0, a <= s.n)
            add(nm(x) + ' in subject', inr)
            def inrn(stt, gg, f=val(x)):
                a = f(stt); return None if a is None else z3.And(a >= NULLOFF, a <= s.n)
            add(nm(x) + ' in subject or null', inrn)
            bin2(nm(x) + '>=v0', n0, v, LE); bin2(nm(x) + '<=v0', v, n0, LE)
            bin2(nm(x) + '==v0+g', v, lambda stt, gg, x=x: e0[x] + gg, EQ); bin2(nm(x) + '==v0-g', v, lambda stt, gg, x=x: e0[x] - gg, EQ)
            for y in others:
                if y == x or (y not in Mset and z3.simplify(e0[y]).eq(z3.simplify(e0[x]))): continue
                w = L(val(y))
                if y not in Mset or y > x: bin2(nm(x) + '==' + nm(y), v, w, EQ)
                bin2(nm(x) + '<=' + nm(y), v, w, LE)
                if y not in Mset: bin2(nm(x) + '>=' + nm(y), w, v, LE)
            for y in mi:
                bin2('%s-%s const' % (nm(x), nm(y)), lambda stt, gg, v=v, y=y: dif2(v(stt, gg), val(y)(stt)), K(e0[x] - e0[y]), EQ)
        for x in mb:
            f = val(x)
            def t1(stt, gg, f=f):
                a = f(stt); return None if a is None else a == 1
            def t0(stt, gg, f=f):
                a = f(stt); return None if a is None else a == 0
            add(nm(x) + '==1', t1); add(nm(x) + '==0', t0)
        # chain facts at index terms
        idx = []; s.idx_terms = []
        if s.chain:
            lo = I(s.chain.lo)
            idx = [('g', lambda stt, gg: gg), ('lo+g', lambda stt, gg: lo + gg), ('lo', lambda stt, gg: lo), ('0', lambda stt, gg: z3.IntVal(0)), ('hi', lambda stt, gg: I(s.chain.hi))]
            for x in ints:
                if x in Mset or is_sym(e0[x]) or True:
                    if z3.is_int_value(e0[x]) and x not in Mset: continue
                    f = val(x)
                    idx.append((nm(x), lambda stt, gg, f=f: f(stt)))
                    idx.append((nm(x) + '+lo', lambda stt, gg, f=f: sum2(f(stt), lo)))
                    if x in Mset:
                        # counters that run downwards, or that are offset
                        idx.append(('lo-' + nm(x), lambda stt, gg, f=f: dif2(lo, f(stt))))
                        idx.append((nm(x) + '-1', lambda stt, gg, f=f: dif2(f(stt), z3.IntVal(1))))
            ch = s.chain
            facts = [('AllOK', lambda t: ch.A(t)), ('Tail', lambda t: ch.Tail(t)), ('NB', lambda t: ch.NB(t)), ('Full', lambda t: ch.Full(t))]
            s.idx_terms = idx
            for d, tf in idx:
                k0 = len(cands)
                for fd, ff in facts:
                    bin2('%s(%s)' % (fd, d), tf, K(z3.IntVal(0)), lambda t, _, ff=ff: ff(z3.simplify(t)))
                for x in mp:
                    bin2('%s==E(%s)' % (nm(x), d), L(val(x)), tf, lambda a, t: a == ch.E(z3.simplify(t)))
                    for i in range(len(ch.Gb) if ch.m.writes else 0):
                        bin2('%s==Gb%d(%s)' % (nm(x), i, d), L(val(x)), tf, lambda a, t, i=i: a == ch.Gb[i](z3.simplify(t)))
                        bin2('%s==Ge%d(%s)' % (nm(x), i, d), L(val(x)), tf, lambda a, t, i=i: a == ch.Ge[i](z3.simplify(t)))
                for c in cands[k0:]: c.idx = d
        if s.search:
            for x in s.search.cells(ints, ptrs):
                f = val(x)
                for off in (0, 1, -1):
                    bin2('NBs(%s%+d)' % (nm(x), off), L(f), K(z3.IntVal(off)), lambda a, o: s.search.NB(z3.simplify(a + o)))
        guarded = []
        if mb and (s.chain or s.search):
            # second stage: facts guarded by a flag that the loop changes
            plain = [c for c in cands if any(c.desc.startswith(p) for p in ('AllOK', 'Tail', 'NB', 'Full', 'NBs')) or '==E(' in c.desc]
            for x in mb:
                f = val(x)
                for pol in (1, 0):
                    for c in plain:
                        def gc(stt, gg, c=c, f=f, pol=pol):
                            a, t = f(stt), c(stt, gg)
                            return None if a is None or t is None else z3.Implies(a == pol, t)
                        gc.desc = '%s==%d -> %s' % (nm(x), pol, c.desc); gc.plain = c; gc.flag = nm(x)
                        guarded.append(gc)
        s.guarded = guarded
        return cands

class Ctx:
    """instantiates the axioms for the terms of the formulas it is given"""
    def __init__(s, th):
        s.th = th; s.terms = {}; s.lem = set(); s.mdone = set(); s.started = False; s.log = []
    def mark(s): return len(s.log)
    def undo(s, m):
        while len(s.log) > m:
            w, k = s.log.pop()
            if w == 't': del s.terms[k]
            elif w == 'l': s.lem.discard(k)
            elif w == 'm': s.mdone.discard(k)
            else: s.started = False
    def term(s, t): s.terms[t.get_id()] = t; s.log.append(('t', t.get_id()))
    def memo(s, key, f):
        c = s.th._ax
        if key not in c: c[key] = f()
        return c[key][0]
    def lemma(s, kind, *ts):
        th = s.th; ob = th.search if kind == 's1' else th.chain
        key = (kind,) + tuple(t.get_id() for t in ts)
        if key in s.lem: return []
        s.lem.add(key); s.log.append(('l', key))
        f = {'1': lambda: ob.lemmas1(*ts), '2': lambda: ob.lemmas2(*ts), 's1': lambda: ob.lemmas1(*ts), '0': lambda: ob.lemmas0()}[kind]
        return s.memo(key, lambda: (f(), ts))
    def add(s, e):
        th = s.th; out = []; out2 = []
        if not s.started:
            s.started = True; s.log.append(('s', 0)); out += list(th.globals_axioms)
        ap = th.apps(e)
        if th.chain:
            new = []
            for f, t in ap:
                if f in th.chain.fns or f == 'NoSol':
                    if not s.terms:
                        out += s.lemma('0')
                        for c in th.chain.const_terms():
                            if c.get_id() not in s.terms: s.term(c); new.append(c)
                    if t is None: continue
                    t = th.simp(t)
                    if t.get_id() not in s.terms: s.term(t); new.append(t)
            for t in new:
                for u in (t, th.simp(t + 1), th.simp(t - 1)): out += s.lemma('1', u)
                for u in list(s.terms.values()):
                    if u is not t: out2 += s.lemma('2', t, u); out2 += s.lemma('2', u, t)
        if th.search:
            for f, t in ap:
                if f in th.search.trig:
                    for u in (th.simp(t), th.simp(t - 1)): out += s.lemma('s1', u)
            out += s.lemma('s1', th.simp(I(th.search.frm)))
        for x in [e] + out[:]:
            for f, t in th.apps(x):
                if f == 'Q':
                    if ('Q', t.get_id()) not in s.mdone:
                        s.mdone.add(('Q', t.get_id())); s.log.append(('m', ('Q', t.get_id()))); out.append(z3.And(th.Qf(t) >= 0, th.Qf(t) <= 255))
                    continue
                m = th.byname.get(f)
                if m is None or (m.key, t.get_id()) in s.mdone: continue
                s.mdone.add((m.key, t.get_id())); s.log.append(('m', (m.key, t.get_id())))
                out.append(s.memo(('m', m.key, t.get_id()), lambda: (m.axiom(t, th.n), t)))
        return out + out2

def sum2(a, b): return None if a is None or b is None else a + b
def dif2(a, b): return None if a is None or b is None else a - b
