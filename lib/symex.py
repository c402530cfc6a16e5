"""Verification-condition generator: symbolic execution of LLVM IR with callee contracts and loop invariants.

Memory is a set of objects with cells; the subject text is the object 'Q' with symbolic length n.
Every path is explored; loops whose exit conditions are concrete are unrolled completely, every other loop is
cut at its header with an inductive invariant found by Houdini over candidates supplied by the theory.
Obligations are discharged by z3; an obligation that z3 refutes carries the counter-model."""
import itertools, time
import z3
from ir import Unsupported, finish

Q = 'Q'
NULLOFF = -1

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj = obj; s.off = off
    def __repr__(s): return '&%s+%s' % (s.obj, s.off)

NULL = Ptr('null', 0)

class UndefT:
    def __repr__(s): return 'undef'
UNDEF = UndefT()

def is_sym(v): return isinstance(v, z3.ExprRef)

def I(v):
    return z3.IntVal(v) if isinstance(v, int) else v

def b2i(b):
    if isinstance(b, bool): return int(b)
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))

def i2b(v):
    """i8/i32 value -> Bool of its lowest bit (values here are 0/1)"""
    if isinstance(v, bool): return v
    if isinstance(v, int): return bool(v & 1)
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long() & 1, b.as_long() & 1
            if x and not y: return c
            if y and not x: return z3.Not(c)
            return bool(x)
    return z3.simplify(v % 2 == 1)

def B(b): return z3.BoolVal(b) if isinstance(b, bool) else b

def enc(p):
    """pointer into Q (or null) as an integer"""
    if p.obj == 'null': return NULLOFF
    if p.obj == Q: return p.off
    raise Unsupported('pointer %r where a pointer into the subject was expected' % (p,))

class Obj:
    __slots__ = ('size', 'cells', 'ro', 'fill')
    def __init__(s, size, cells=None, ro=False): s.size = size; s.cells = cells if cells is not None else {}; s.ro = ro
    def copy(s): return Obj(s.size, dict(s.cells), s.ro)

class State:
    __slots__ = ('mem', 'pc', 'ghost', 'own', 'log')
    def __init__(s): s.mem = {}; s.pc = []; s.ghost = []; s.own = set(); s.log = []
    def fork(s):
        t = State(); t.mem = dict(s.mem); t.pc = list(s.pc); t.ghost = list(s.ghost); t.log = list(s.log)
        s.own = set()
        return t
    def w(s, o):
        if o not in s.own:
            s.mem[o] = s.mem[o].copy(); s.own.add(o)
        return s.mem[o]
    def assume(s, c):
        if c is True: return
        s.pc.append(B(c))

class Obligation:
    def __init__(s, name, tags, ok, model=None, cut=False, unknown=False):
        s.name = name; s.tags = tags; s.ok = ok; s.model = model; s.cut = cut; s.unknown = unknown

class Limits(Exception): pass

class Engine:
    def __init__(self, module, theory, sentinels=None, limit_s=120):
        self.m = module; self.th = theory; self.obls = {}; self.quiet = 0
        self.n = theory.n; self.cnt = itertools.count(); self.t0 = time.time(); self.limit = limit_s
        self.solver_s = 0.0; self.queries = 0; self.sent = sentinels or {}
        self.cutdepth = 0; self.covered = set(); self.depth = 0; self.loops_cut = []; self.stub_calls = {}
        self.unroll_cap = 300; self.solver = z3.SimpleSolver(); self.solver.set('timeout', 20000); self.stk = []; self.ctx = None
        self.inv_report = []; self.debug = False; self.last_dist = 0; self.discover = 0; self.byte_sent = None; self.char_sent = None; self.level0 = 0; self.hints = None; self.inner = []

    # ---------- solver
    def sync(self, pc):
        """bring the incremental solver to the path condition pc (one level per conjunct)"""
        stk = self.stk; k = 0
        while k < len(stk) and k < len(pc) and (stk[k][0] is pc[k] or stk[k][0].eq(pc[k])): k += 1
        if k < len(stk):
            self.solver.pop(len(stk) - k); self.ctx.undo(stk[k][1]); del stk[k:]
        for c in pc[k:]:
            self.solver.push(); stk.append((c, self.ctx.mark())); self.solver.add(c)
            for a in self.ctx.add(c): self.solver.add(a)
    def check(self, pc, extra=None, model=False):
        if time.time() - self.t0 > self.limit: raise Limits('time limit of %ds for one function' % self.limit)
        t = time.time(); self.queries += 1
        if self.ctx is None: self.ctx = self.th.context()
        self.sync(pc)
        if extra is not None:
            m = self.ctx.mark(); self.solver.push(); self.solver.add(extra)
            for a in self.ctx.add(extra): self.solver.add(a)
        r = self.solver.check()
        mdl = self.solver.model() if model and r == z3.sat else None
        if extra is not None:
            self.solver.pop(); self.ctx.undo(m)
        self.solver_s += time.time() - t
        return r, mdl
    def feasible(self, st, extra=None):
        r, _ = self.check(st.pc, None if extra is None else B(extra))
        return r != z3.unsat
    def valid(self, st, goal):
        if goal is True: return True
        r, _ = self.check(st.pc, z3.Not(B(goal)))
        return r == z3.unsat
    def valid_many(self, st, goals):
        """validity of each goal under the path condition, sharing one solver"""
        if not goals: return []
        if self.check(st.pc)[0] == z3.unsat: return [True] * len(goals)
        t0 = time.time(); n = len(goals)
        out = [None] * n
        mark = self.ctx.mark(); self.solver.push()
        gs = []
        for g in goals:
            g = B(g); gs.append(g)
            for a in self.ctx.add(g): self.solver.add(a)
        for i, g in enumerate(gs):
            if z3.is_true(g): out[i] = True
        # every model that refutes one goal also names the other goals that fail in it
        for i, g in enumerate(gs):
            if out[i] is not None: continue
            if time.time() - self.t0 > self.limit: raise Limits('time limit of %ds for one function' % self.limit)
            self.solver.push(); self.solver.add(z3.Not(g)); self.queries += 1
            r = self.solver.check()
            out[i] = r == z3.unsat
            if r == z3.sat:
                mdl = self.solver.model()
                for j in range(i + 1, n):
                    if out[j] is None and z3.is_false(mdl.eval(gs[j], model_completion=True)): out[j] = False
            self.solver.pop()
        self.solver.pop(); self.ctx.undo(mark)
        self.solver_s += time.time() - t0
        return out
    def decide(self, st, c):
        """Bool -> True / False / None under the path condition"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if not self.feasible(st, c): return False
        if not self.feasible(st, z3.Not(c)): return True
        return None
    def oblige(self, st, name, tags, goal):
        """record an obligation; returns whether it holds"""
        if self.quiet: return True
        key = name
        o = self.obls.get(key)
        if o is not None and not o.ok: return False
        if isinstance(goal, bool) and goal:
            if o is None: self.obls[key] = Obligation(name, tags, True)
            return True
        r, mm = self.check(st.pc, z3.Not(B(goal)), True)
        if r == z3.unsat:
            if o is None: self.obls[key] = Obligation(name, tags, True)
            return True
        mdl = None
        if r == z3.sat:
            mdl = '; '.join(sorted('%s=%s' % (d.name(), str(mm[d]).replace('\n', ' ')) for d in mm.decls()))[:1500]
        self.obls[key] = Obligation(name, tags, False, mdl, cut=self.is_cut(st), unknown=(r == z3.unknown))
        return False
    def is_cut(self, st): return any(g[0] == 'cut' for g in st.ghost)

    # ---------- memory
    def alloc(self, st, size, name):
        o = '%s#%d' % (name, next(self.cnt)); st.mem[o] = Obj(size); st.own.add(o); return o
    def glob(self, st, name):
        if name in self.m.globals:
            if name not in st.mem:
                const, t, v = self.m.globals[name]
                size = self.m.layout(t)[0]
                o = Obj(size, {}, const); st.mem[name] = o; st.own.add(name)
                self.init(st, name, 0, t, v)
            return Ptr(name, 0)
        if name in self.m.fns or name in self.m.decls: return Ptr('fn:' + name, 0)
        raise Unsupported('global ' + name)
    def init(self, st, o, off, t, v):
        if v is None or v[0] == 'unsupported': raise Unsupported('global initialiser')
        r = self.m.resolve(t)
        if v[0] == 'zero':
            self.zero(st.mem[o], off, t); return
        if v[0] == 'bytes':
            for k, b in enumerate(v[1]): st.mem[o].cells[off + k] = (1, self.byte_sent.get(b, b) if self.byte_sent else b)
            return
        if v[0] == 'agg':
            for k, (et, ev) in enumerate(v[1]):
                # initialiser types can be more specific than t
                fo, ft = self.m.field(t, k) if r[0] in ('arr', 'struct') else (0, et)
                self.init(st, o, off + fo, et, ev)
            return
        if v[0] == 'undef': return
        st.mem[o].cells[off] = (self.m.layout(t)[0], self.val(st, {}, t, v))
    def zero(self, obj, off, t):
        r = self.m.resolve(t)
        if r[0] == 'arr':
            s = self.m.layout(r[2])[0]
            for k in range(r[1]): self.zero(obj, off + k * s, r[2])
        elif r[0] == 'struct':
            for k in range(len(r[2])):
                fo, ft = self.m.field(t, k); self.zero(obj, off + fo, ft)
        elif r[0] == 'ptr': self.put(obj, off, 8, NULL)
        else: self.put(obj, off, self.m.layout(t)[0], 0)
    @staticmethod
    def put(obj, off, size, v):
        if not (off in obj.cells and obj.cells[off][0] == size):
            for k in [k for k, (s, _) in obj.cells.items() if k < off + size and off < k + s]:
                s, old = obj.cells[k]
                if k >= off and k + s <= off + size: del obj.cells[k]
                elif isinstance(old, int) and not isinstance(old, bool):
                    del obj.cells[k]
                    for j in range(s):
                        if not off <= k + j < off + size: obj.cells[k + j] = (1, (old >> (8 * j)) & 255)
                elif old is UNDEF: del obj.cells[k]
                elif old is NULL: 
                    del obj.cells[k]
                    for j in range(s):
                        if not off <= k + j < off + size: obj.cells[k + j] = (1, 0)
                else: raise Unsupported('partial overwrite of a symbolic cell')
        obj.cells[off] = (size, v)
    def conc(self, st, off):
        if isinstance(off, int): return off
        o = z3.simplify(off)
        if z3.is_int_value(o): return o.as_long()
        raise Unsupported('symbolic offset into a local object')
    def load(self, st, t, p, where):
        r = self.m.resolve(t)
        if r[0] in ('struct', 'arr'):
            out = []
            k = len(r[2]) if r[0] == 'struct' else r[1]
            for j in range(k):
                fo, ft = self.m.field(t, j); out.append(self.load(st, ft, Ptr(p.obj, self.add_off(p.off, fo)), where))
            return tuple(out)
        if p is UNDEF: raise Unsupported('load through an undefined pointer')
        if p.obj == Q:
            if r != ('i', 8): raise Unsupported('wide load from the subject')
            self.oblige(st, 'read inside the subject @' + where, {'safety'}, z3.And(I(p.off) >= 0, I(p.off) < self.n))
            st.assume(z3.And(I(p.off) >= 0, I(p.off) < self.n))
            return self.th.char(I(p.off), st)
        if p.obj == 'null' or p.obj not in st.mem:
            self.oblige(st, 'no null dereference @' + where, {'safety'}, False)
            raise PathEnd()
        size = self.m.layout(t)[0]; obj = st.mem[p.obj]
        if not isinstance(p.off, int) and obj.ro:
            return self.load_ro_sym(st, obj, size, p, where)
        off = self.conc(st, p.off)
        if not (0 <= off and off + size <= obj.size):
            self.oblige(st, 'read inside the object @' + where, {'safety'}, False); raise PathEnd()
        c = obj.cells.get(off)
        if c is not None and c[0] == size: 
            v = c[1]
            if r[0] == 'ptr' and isinstance(v, int) and v == 0: return NULL
            if r[0] == 'i' and v is NULL: return 0
            if r[0] == 'i' and r[1] == 1: return i2b(v)
            return v
        if c is None and not any(k < off + size and off < k + s for k, (s, _) in obj.cells.items()):
            return UNDEF
        # assemble from smaller concrete cells / extract from a bigger one
        bs = []
        for j in range(size):
            b = None
            for k, (s, v) in obj.cells.items():
                if k <= off + j < k + s:
                    if v is NULL: v = 0
                    if isinstance(v, int): b = (v >> (8 * (off + j - k))) & 255
            if b is None: raise Unsupported('mixed-size load')
            bs.append(b)
        v = sum(b << (8 * j) for j, b in enumerate(bs))
        if r[0] == 'ptr':
            if v == 0: return NULL
            raise Unsupported('pointer from bytes')
        return v
    def load_ro_sym(self, st, obj, size, p, where):
        self.oblige(st, 'read inside the object @' + where, {'safety'}, z3.And(I(p.off) >= 0, I(p.off) + size <= obj.size))
        e = None
        for k in sorted(obj.cells):
            s, v = obj.cells[k]
            if s != size or not isinstance(v, int): raise Unsupported('symbolic index into mixed constant')
            e = I(v) if e is None else z3.If(I(p.off) == k, I(v), e)
        return e
    def store(self, st, t, v, p, where):
        r = self.m.resolve(t)
        if r[0] in ('struct', 'arr'):
            k = len(r[2]) if r[0] == 'struct' else r[1]
            for j in range(k):
                fo, ft = self.m.field(t, j)
                vv = v[j] if isinstance(v, tuple) else (UNDEF if v is UNDEF else 0)
                self.store(st, ft, vv, Ptr(p.obj, self.add_off(p.off, fo)), where)
            return
        if p is UNDEF: raise Unsupported('store through an undefined pointer')
        if p.obj == Q:
            self.oblige(st, 'the subject is never written @' + where, {'safety'}, False); raise PathEnd()
        if p.obj == 'null' or p.obj not in st.mem:
            self.oblige(st, 'no write through an invalid pointer @' + where, {'safety'}, False); raise PathEnd()
        size = self.m.layout(t)[0]; off = self.conc(st, p.off)
        obj = st.mem[p.obj]
        if not (0 <= off and off + size <= obj.size) or obj.ro:
            self.oblige(st, 'write inside the object @' + where, {'safety'}, False); raise PathEnd()
        if r == ('i', 1): v = b2i(v)
        self.put(st.w(p.obj), off, size, v)
    def memcpy(self, st, d, s, n, where):
        if not isinstance(n, int): raise Unsupported('memcpy of symbolic size')
        if n == 0: return
        if Q in (d.obj, s.obj) : raise Unsupported('memcpy with the subject')
        if d.obj == s.obj and isinstance(d.off, int) and d.off == s.off: return
        do, so = self.conc(st, d.off), self.conc(st, s.off)
        if d.obj not in st.mem or s.obj not in st.mem:
            self.oblige(st, 'no copy through an invalid pointer @' + where, {'safety'}, False); raise PathEnd()
        src = st.mem[s.obj]
        if so + n > src.size or do + n > st.mem[d.obj].size:
            self.oblige(st, 'copy inside the objects @' + where, {'safety'}, False); raise PathEnd()
        new = []
        for k, (sz, v) in src.cells.items():
            if k >= so and k + sz <= so + n: new.append((k - so + do, sz, v))
            elif k < so + n and so < k + sz: raise Unsupported('memcpy splits a cell')
        dst = st.w(d.obj)
        for k in [k for k, (sz, _) in dst.cells.items() if k < do + n and do < k + sz]:
            sz = dst.cells[k][0]
            if k >= do and k + sz <= do + n: del dst.cells[k]
            else: raise Unsupported('memcpy splits a destination cell')
        for k, sz, v in new: dst.cells[k] = (sz, v)
    def add_off(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a + b
        return z3.simplify(I(a) + I(b))

    # ---------- values
    def val(self, st, regs, t, v):
        k = v[0]
        if k == 'const':
            w = t[1] if t[0] == 'i' else 64
            if w == 1: return bool(v[1] & 1)
            c = v[1] & ((1 << w) - 1)
            if self.sent and c > 1000:
                neg = (1 << w) - c
                for base, sym in self.sent.items():
                    if w < 32: break
                    if abs(c - base) <= 16: return sym if c == base else z3.simplify(sym + (c - base))
                    if abs(neg - base) <= 16: return self.wrap(st, z3.simplify(-sym - (neg - base)), w)
            return c
        if k == 'reg':
            try: return regs[v[1]]
            except KeyError: raise Unsupported('register %' + v[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero':
            r = self.m.resolve(t)
            if r[0] == 'ptr': return NULL
            if r[0] == 'i': return False if r[1] == 1 else 0
            if r[0] == 'struct': return tuple(self.val(st, regs, f, v) for f in r[2])
            if r[0] == 'arr': return tuple(self.val(st, regs, r[2], v) for _ in range(r[1]))
        if k == 'glob': return self.glob(st, v[1])
        if k == 'agg': return tuple(self.val(st, regs, et, ev) for et, ev in v[1])
        if k == 'cgep': return self.gep(st, regs, False, v[1], v[2], 'const')
        if k == 'ccast': return self.cast(st, v[1], v[2], self.val(st, regs, v[2], v[3]), v[4])
        raise Unsupported('value kind ' + k)
    def gep(self, st, regs, inb, bt, args, where):
        base = self.val(st, regs, args[0][0], args[0][1])
        if base is UNDEF: raise Unsupported('gep on undef')
        off = 0; cur = bt
        for k, (at, av) in enumerate(args[1:]):
            idx = self.val(st, regs, at, av)
            if k == 0: sz = self.m.layout(bt)[0]
            else:
                r = self.m.resolve(cur)
                if r[0] == 'struct':
                    fo, cur = self.m.field(cur, idx); off = self.add_off(off, fo); continue
                sz = self.m.layout(r[2])[0]; cur = r[2]
            if isinstance(idx, int):
                w = at[1]
                if idx >= 1 << (w - 1): idx -= 1 << w
                off = self.add_off(off, idx * sz)
            else:
                off = self.add_off(off, self.signed(st, idx, at[1]) * sz)
        no = self.add_off(base.off, off)
        if base.obj == Q and inb:
            self.oblige(st, 'pointer stays inside [begin, end] @' + where, {'safety'}, z3.Or(z3.And(I(no) >= 0, I(no) <= self.n), z3.And(I(no) == NULLOFF, I(base.off) == NULLOFF)))   # null + 0 is null
        return Ptr(base.obj, no)
    def signed(self, st, v, w):
        if isinstance(v, int): return v - (1 << w) if v >= 1 << (w - 1) else v
        d = self.decide(st, v < (1 << (w - 1)))
        if d is True: return v
        if d is False: return v - (1 << w)
        return z3.If(v >= (1 << (w - 1)), v - (1 << w), v)
    def wrap(self, st, v, w):
        if isinstance(v, int): return v & ((1 << w) - 1)
        v = z3.simplify(v)
        if z3.is_int_value(v): return v.as_long() & ((1 << w) - 1)
        if self.decide(st, z3.And(v >= 0, v < (1 << w))): return v
        if self.decide(st, v < 0): return v + (1 << w) if self.valid(st, v >= -(1 << w)) else v % (1 << w)
        return v % (1 << w)
    def cast(self, st, op, stp, v, dt):
        if v is UNDEF: return UNDEF
        if op == 'bitcast': return v
        if op == 'ptrtoint': return ('p2i', v)
        if op == 'inttoptr':
            if isinstance(v, tuple) and v[0] == 'p2i': return v[1]
            raise Unsupported('inttoptr')
        if isinstance(v, tuple): raise Unsupported('cast of a pointer integer')
        if stp == ('i', 1):
            if op == 'zext': return b2i(v)
            if op == 'sext':
                return (((1 << dt[1]) - 1) if v else 0) if isinstance(v, bool) else z3.If(v, z3.IntVal((1 << dt[1]) - 1), z3.IntVal(0))
        if op == 'zext': return v
        if op == 'sext':
            w, w2 = stp[1], dt[1]
            if isinstance(v, int): return v | (((1 << w2) - 1) ^ ((1 << w) - 1)) if v >= 1 << (w - 1) else v
            d = self.decide(st, v < (1 << (w - 1)))
            if d is True: return v
            if d is False: return v + ((1 << w2) - (1 << w))
            return z3.If(v >= (1 << (w - 1)), v + ((1 << w2) - (1 << w)), v)
        if op == 'trunc':
            if dt[1] == 1: return i2b(v)
            return self.wrap(st, v, dt[1])
        raise Unsupported(op)
    def icmp(self, st, pred, t, a, b):
        if a is UNDEF or b is UNDEF: raise Unsupported('comparison of undef')
        if t[0] == 'ptr':
            if a.obj in (Q, 'null') and b.obj in (Q, 'null'): x, y = enc(a), enc(b)
            elif a.obj == b.obj: x, y = a.off, b.off
            else:
                if pred == 'eq': return False
                if pred == 'ne': return True
                raise Unsupported('ordering of pointers to different objects')
            sgn = False
        else:
            if isinstance(a, tuple) or isinstance(b, tuple):
                raise Unsupported('comparison of pointer integers')
            if t[1] == 1: a, b = b2i(a), b2i(b)
            x, y = a, b
            if pred[0] == 's': x, y = self.signed(st, a, t[1]), self.signed(st, b, t[1])
        if isinstance(x, int) and isinstance(y, int):
            self.last_dist = abs(x - y) if t[0] != 'ptr' else abs(x - y) // 32     # bytes of a local object
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[-2:]]
        # booleans stored as If(b,1,0)
        for u, v in ((x, y), (y, x)):
            if is_sym(u) and isinstance(v, int) and z3.is_app_of(u, z3.Z3_OP_ITE) and pred in ('eq', 'ne'):
                c, p, q = u.children()
                if z3.is_int_value(p) and z3.is_int_value(q) and {p.as_long(), q.as_long()} == {0, 1}:
                    r = c if p.as_long() == v else z3.Not(c) if q.as_long() == v else z3.BoolVal(False)
                    r = r if pred == 'eq' else z3.Not(r)
                    return z3.simplify(r)
        x, y = I(x), I(y)
        r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[-2:]]
        return z3.simplify(r)
    def binop(self, st, op, flags, t, a, b):
        if a is UNDEF or b is UNDEF: raise Unsupported('arithmetic on undef')
        w = t[1]
        if w == 1:
            if isinstance(a, bool) and isinstance(b, bool):
                return {'and': a and b, 'or': a or b, 'xor': a != b}[op]
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if not f: raise Unsupported('i1 ' + op)
            return z3.simplify(f(B(a), B(b)))
        pa, pb = isinstance(a, tuple), isinstance(b, tuple)
        if pa or pb:
            if op == 'sub' and pa and pb and a[0] == b[0] == 'p2i':
                x, y = a[1], b[1]
                if x.obj in (Q, 'null') and y.obj in (Q, 'null'): d = self.add_off(enc(x), z3.simplify(-I(enc(y))) if is_sym(enc(y)) else -enc(y))
                elif x.obj == y.obj: d = self.add_off(x.off, -y.off if isinstance(y.off, int) else -y.off)
                else: raise Unsupported('difference of unrelated pointers')
                return self.wrap(st, d, w)
            raise Unsupported('arithmetic on pointer integers')
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1
            sa, sb = (a - (1 << w) if a >> (w - 1) else a), (b - (1 << w) if b >> (w - 1) else b)
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M
            if op == 'lshr': return a >> b
            if op == 'ashr': return (sa >> b) & M
            if b == 0: raise Unsupported('division by zero')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            q = abs(sa) // abs(sb); q = q if (sa < 0) == (sb < 0) else -q
            return (q if op == 'sdiv' else sa - q * sb) & M
        x, y = I(a), I(b)
        if op in ('add', 'sub'):
            if op == 'add' and isinstance(b, int) and b >= 1 << (w - 1): return self.wrap(st, x - ((1 << w) - b), w)
            return self.wrap(st, x + y if op == 'add' else x - y, w)
        if op == 'mul': return self.wrap(st, x * y, w)
        if op in ('udiv', 'urem') and not isinstance(b, int):
            if not self.valid(st, y > 0): raise Unsupported('division by something that may be zero')
            return x / y if op == 'udiv' else x % y
        if isinstance(b, int):
            if op == 'sdiv' and self.decide(st, x < (1 << (w - 1))) and 0 < b < 1 << (w - 1): return z3.simplify(x / y)
            if op == 'udiv' and b: return z3.simplify(x / y)
            if op == 'urem' and b: return z3.simplify(x % y)
            if op == 'lshr': return z3.simplify(x / (1 << b))
            if op == 'shl': return self.wrap(st, x * (1 << b), w)
            if op == 'ashr' and self.decide(st, x < (1 << (w - 1))): return z3.simplify(x / (1 << b))
            if op == 'and' and (b + 1) & b == 0: return z3.simplify(x % (b + 1))
        bx, by = z3.Int2BV(x, w), z3.Int2BV(y, w)
        f = {'and': lambda: bx & by, 'or': lambda: bx | by, 'xor': lambda: bx ^ by}.get(op)
        if f is None: raise Unsupported('symbolic ' + op)
        return z3.BV2Int(f())

    # ---------- execution
    def run_function(self, name, args, st):
        """-> list of (state, return value)"""
        f = finish(self.m.fns[name])
        self.covered.add(name)
        self.depth += 1
        if self.depth > 120: raise Unsupported('recursion')
        try:
            regs = {}
            for (pt, pn), a in zip(f.params, args): regs[pn] = a
            evs = self.explore(f, st, regs, f.order[0], None, None, frozenset(), {})
            return [(e[1], e[2]) for e in evs if e[0] == 'ret']
        finally:
            self.depth -= 1

    def explore(self, f, st, regs, block, prev, region, stops, counts, skip_header=False):
        """events: ('ret', st, val) | ('back', header, st, regs, prev) | ('exit', block, prev, st, regs)"""
        events = []
        work = [(st, regs, block, prev, 0, counts, skip_header)]
        while work:
            st, regs, block, prev, idx, counts, skip = work.pop()
            if time.time() - self.t0 > self.limit: raise Limits('time limit of %ds for one function' % self.limit)
            if idx == 0 and not skip:
                if block in stops and prev is not None:
                    events.append(('back', block, st, regs, prev)); continue
                if region is not None and block not in region:
                    events.append(('exit', block, prev, st, regs)); continue
                if block in f.loops:
                    body = f.loops[block]
                    if prev not in body:
                        counts = dict(counts); counts.pop(block, None)
                        if not self.should_unroll(f, st, regs, block, prev):
                            for e in self.cut_loop(f, st, regs, block, prev, stops):
                                if e[0] == 'exit': work.append((e[3], e[4], e[1], e[2], 0, counts, False))
                                else: events.append(e)
                            continue
                    else:
                        c = counts.get(block, 0) + 1
                        if c > self.unroll_cap: raise Limits('loop unrolled %d times' % c)
                        counts = dict(counts); counts[block] = c
            self.step_block(f, st, regs, block, prev, idx, counts, work, events)
        return events

    def step_block(self, f, st, regs, block, prev, idx, counts, work, events):
        ins = f.blocks[block]
        where0 = short(f.name)
        # phis first
        if idx == 0:
            new = {}
            while ins[idx][1] == 'phi':
                d, _, (t, inc) = ins[idx]
                for v, l in inc:
                    if l == prev: new[d] = self.val(st, regs, t, v); break
                else: raise Unsupported('phi without predecessor')
                idx += 1
            if new: regs = dict(regs); regs.update(new)
        try:
            while True:
                d, op, x = ins[idx]
                idx += 1
                where = where0 + ':' + block
                if op == 'alloca':
                    regs = dict(regs) if idx == 1 else regs
                    o = self.alloc(st, self.m.layout(x)[0], where0 + '.' + (d or '?')); regs[d] = Ptr(o, 0)
                elif op == 'load': regs[d] = self.load(st, x[0], self.val(st, regs, ('ptr',), x[1]), where)
                elif op == 'store': self.store(st, x[0], self.val(st, regs, x[0], x[1]), self.val(st, regs, ('ptr',), x[2]), where)
                elif op == 'gep': regs[d] = self.gep(st, regs, x[0], x[1], x[2], where)
                elif op == 'icmp':
                    a, b = self.val(st, regs, x[1], x[2]), self.val(st, regs, x[1], x[3])
                    if self.char_sent and x[1] in (('i', 8), ('i', 32)):
                        # template characters that stand for arbitrary ones
                        w = x[1][1]; cs = lambda v, o: z3.If(self.char_sent[v] >= 0, self.char_sent[v], self.char_sent[v] + (1 << w)) if o[0] == 'const' and isinstance(v, int) and v in self.char_sent else v
                        a, b = cs(a, x[2]), cs(b, x[3])
                    regs[d] = self.icmp(st, x[0], x[1], a, b)
                elif op == 'bin': regs[d] = self.binop(st, x[0], x[1], x[2], self.val(st, regs, x[2], x[3]), self.val(st, regs, x[2], x[4]))
                elif op == 'cast': regs[d] = self.cast(st, x[0], x[1], self.val(st, regs, x[1], x[2]), x[3])
                elif op == 'freeze': regs[d] = self.val(st, regs, x[0], x[1])
                elif op == 'select':
                    c = self.val(st, regs, ('i', 1), x[0]); a = self.val(st, regs, x[1], x[2]); b = self.val(st, regs, x[1], x[3])
                    dc = self.decide(st, c)
                    if dc is not None: regs[d] = a if dc else b
                    else:
                        s2 = st.fork(); s2.assume(z3.Not(c)); r2 = dict(regs); r2[d] = b
                        work.append((s2, r2, block, prev, idx, counts, True))
                        st.assume(c); regs[d] = a
                elif op == 'extractvalue':
                    v = self.val(st, regs, x[0], x[1])
                    for k in x[2]: v = v[k] if v is not UNDEF else UNDEF
                    regs[d] = v
                elif op == 'insertvalue':
                    v = self.val(st, regs, x[0], x[1]); e = self.val(st, regs, x[2], x[3])
                    if v is UNDEF: v = tuple(UNDEF for _ in self.m.resolve(x[0])[2])
                    v = list(v)
                    if len(x[4]) != 1: raise Unsupported('nested insertvalue')
                    v[x[4][0]] = e; regs[d] = tuple(v)
                elif op == 'nop': pass
                elif op == 'br':
                    c, a, b = x
                    if c is None:
                        work.append((st, regs, a, block, 0, counts, False)); return
                    cv = self.val(st, regs, ('i', 1), c)
                    if cv is UNDEF: 
                        self.oblige(st, 'no branch on an indeterminate value @' + where, {'safety'}, False); return
                    self.last_cv = cv
                    dc = self.decide(st, cv)
                    if dc is not None:
                        work.append((st, regs, a if dc else b, block, 0, counts, False)); return
                    s2 = st.fork(); s2.assume(z3.Not(cv)); st.assume(cv)
                    work.append((s2, dict(regs), b, block, 0, counts, False))
                    work.append((st, regs, a, block, 0, counts, False)); return
                elif op == 'switch':
                    t, c, dflt, cases = x
                    cv = self.val(st, regs, t, c)
                    rest = st
                    for k, lab in cases:
                        e = self.icmp(rest, 'eq', t, cv, k & ((1 << t[1]) - 1) if t[1] > 1 else bool(k))
                        dc = self.decide(rest, e)
                        if dc is True: work.append((rest, regs, lab, block, 0, counts, False)); return
                        if dc is None:
                            s2 = rest.fork(); s2.assume(e); work.append((s2, dict(regs), lab, block, 0, counts, False)); rest.assume(z3.Not(e))
                    work.append((rest, regs, dflt, block, 0, counts, False)); return
                elif op == 'ret':
                    events.append(('ret', st, None if x is None else self.val(st, regs, x[0], x[1]))); return
                elif op == 'unreachable':
                    self.oblige(st, 'unreachable code is not reached @' + where, {'safety'}, False); return
                elif op == 'call':
                    t, name, args = x
                    av = [self.val(st, regs, at, v) for at, v in args]
                    outs = self.call(name, av, st, where, t)
                    if len(outs) == 0: return
                    for s2, rv in outs[1:]:
                        r2 = dict(regs)
                        if d: r2[d] = rv
                        work.append((s2, r2, block, prev, idx, counts, True))
                    st, rv = outs[0]
                    if d:
                        regs = dict(regs); regs[d] = rv
                else: raise Unsupported('instruction ' + str(x if op == 'unsupported' else op))
        except PathEnd:
            return

    def call(self, name, av, st, where, rt):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, av[0], av[1], av[2], where); return [(st, None)]
        if name.startswith('llvm.memset'):
            n, v, p = av[2], av[1], av[0]
            if not isinstance(n, int) or not isinstance(v, int): raise Unsupported('memset')
            off = self.conc(st, p.off); obj = st.w(p.obj)
            if off + n > obj.size:
                self.oblige(st, 'memset inside the object @' + where, {'safety'}, False); raise PathEnd()
            k = 0
            while k < n:   # words where possible, so that null pointers and integers read back whole
                if (off + k) % 8 == 0 and n - k >= 8: self.put(obj, off + k, 8, int.from_bytes(bytes([v]) * 8, 'little')); k += 8
                elif (off + k) % 4 == 0 and n - k >= 4: self.put(obj, off + k, 4, int.from_bytes(bytes([v]) * 4, 'little')); k += 4
                else: self.put(obj, off + k, 1, v); k += 1
            return [(st, None)]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias')): return [(st, None)]
        if name.startswith('llvm.expect'): return [(st, av[0])]
        if name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            w = rt[1]; sgn = name[5] == 's'
            a, b = (self.signed(st, av[0], w), self.signed(st, av[1], w)) if sgn else (av[0], av[1])
            c = I(a) >= I(b) if 'max' in name else I(a) <= I(b)
            return [(st, z3.simplify(z3.If(c, I(av[0]), I(av[1]))) if is_sym(a) or is_sym(b) else (av[0] if z3.is_true(z3.simplify(c)) else av[1]))]
        stub = self.th.stub(self, name)
        if stub is not None:
            self.stub_calls[name] = self.stub_calls.get(name, 0) + 1
            return stub(self, st, av, where)
        if name in self.m.fns:
            return self.run_function(name, av, st)
        if name in ('abort', '_ZSt9terminatev', '_ZSt21__glibcxx_assert_failPKciS0_S0_'):
            self.oblige(st, 'no abort @' + where, {'safety'}, False); return []
        r = self.th.external(self, name, av, st, where)
        if r is not None: return r
        raise Unsupported('call to external ' + name)

    # ---------- loops
    def should_unroll(self, f, st, regs, header, prev):
        """unroll when some exit test that every iteration passes is concrete now"""
        body = f.loops[header]
        self.quiet += 1
        try:
            probe = st.fork()
            tests = []
            # follow the straight line from the header until the first conditional branch
            b, p, r, s = header, prev, dict(regs), probe
            seen = 0
            while seen < 12:
                seen += 1
                work, events = [], []
                term = f.blocks[b][-1]
                c0 = term[2][0] if term[1] == 'br' else None
                if term[1] != 'br': return False
                if c0 is None:
                    self.step_block(f, s, r, b, p, 0, {}, work, events)
                    if len(work) != 1: return False
                    s, r, nb, p = work[0][0], work[0][1], work[0][2], work[0][3]
                    if nb not in body: return True
                    if nb == header: return False
                    b = nb; continue
                exits = [x for x in term[2][1:] if x not in body]
                n0 = len(s.pc)
                self.step_block(f, s, r, b, p, 0, {}, work, events)
                if exits:
                    if len(work) != 1: return False
                    cv = self.last_cv
                    if not (isinstance(cv, bool) or z3.is_true(z3.simplify(cv)) or z3.is_false(z3.simplify(cv))): return False
                    return self.last_dist <= 64
                if len(work) != 1: return False
                s, r, nb, p = work[0][0], work[0][1], work[0][2], work[0][3]
                if nb == header: return False
                b = nb
            return False
        except (PathEnd, Unsupported):
            return False
        finally:
            self.quiet -= 1

    def havoc(self, st, M, label):
        h = st.fork()
        # names repeat between rounds of the invariant search (same terms, same instances of the axioms) but never along one path
        inst = '%s/%d' % (label.split('::')[-1], sum(1 for x in st.ghost if x == ('cut', label)))
        for (o, k) in M:
            size, v = st.mem[o].cells[k]
            nm = 'h_%s_%s_%d' % (inst, self.stable(st, o), k)
            if isinstance(v, Ptr):
                if v.obj in (Q, 'null'): nv = Ptr(Q, z3.Int(nm))
                else: raise Unsupported('loop changes a pointer to a local object')
            elif v is UNDEF: nv = UNDEF
            elif size == 1 and is_boolish(v):
                nv = b2i(z3.Bool(nm))
            else:
                nv = z3.Int(nm); h.assume(z3.And(nv >= 0, nv < (1 << (8 * size))))
            h.w(o).cells[k] = (size, nv)
        return h

    def stable(self, st, o):
        b = o.split('.')[-1].split('#')[0]
        same = [x for x in st.mem if x.split('.')[-1].split('#')[0] == b]
        return b if len(same) == 1 else '%s_%d' % (b, same.index(o))

    def after(self, f, h, regs, header, body, stops2, dead):
        """the ways out of a loop whose header state is h"""
        for (o, k) in dead: h.w(o).cells.pop(k, None)
        evs = self.explore(f, h.fork(), dict(regs), header, None, body, stops2, {}, True)
        return [e for e in evs if not (e[0] == 'back' and e[1] == header)]

    def cut_loop(self, f, st, regs, header, prev, stops):
        body = f.loops[header]
        if any(i[1] == 'phi' for i in f.blocks[header]): raise Unsupported('phi at a loop header')
        label = short(f.name) + ':' + header
        stops2 = frozenset(stops | {header})
        M = []
        if header not in self.loops_cut: self.loops_cut.append(label)
        # --- which cells does the loop modify?
        self.quiet += 1
        try:
            while True:
                h = self.havoc(st, M, label); h.ghost = h.ghost + [('cut', label)]
                self.discover += 1
                try: evs = self.explore(f, h.fork(), dict(regs), header, None, body, stops2, {}, True)
                finally: self.discover -= 1
                new = set()
                for e in evs:
                    if e[0] != 'back' or e[1] != header: continue
                    for o, ob in e[2].mem.items():
                        if o not in h.mem: continue
                        ho = h.mem[o]
                        if ob is ho: continue
                        for k, c in ob.cells.items():
                            hc = ho.cells.get(k)
                            if hc is None: new.add((o, k, 'new'))
                            elif not same(hc[1], c[1]) or hc[0] != c[0]: new.add((o, k))
                # cells born inside the loop are dead at its header
                add = [x for x in new if len(x) == 2 and x not in M]
                if not add: break
                M = sorted(M + add)
            dead = sorted({x[:2] for x in new if len(x) == 3})
            for (o, k) in M:
                if st.mem[o].cells[k][1] is UNDEF: raise Unsupported('loop over an indeterminate cell')
            if self.discover:
                # only asked which cells change: any state with those cells arbitrary will do
                return self.after(f, h, regs, header, body, stops2, dead)
            # --- candidates
            g = z3.Int('g_%s/%d' % (label.split('::')[-1], sum(1 for x in st.ghost if x == ('cut', label))))
            cands = self.th.candidates(self, st, M, g)
            if self.hints is not None:
                cands = [c for c in cands if c.desc in self.hints]
                self.th.guarded = [c for c in self.th.guarded if c.desc in self.hints]
            # inside the invariant search of an outer loop, what failed under stronger assumptions fails again
            ck = (label, 1)
            if self.inner and ck in self.inner[-1]: cands = [c for c in cands if c.desc in self.inner[-1][ck]]
            zero = z3.IntVal(0)
            def initial(cs):
                h0 = self.havoc(st, M, label); ts = []
                for c in cs:
                    t, t2 = c(st, zero), c(h0, g)
                    # facts that mention nothing the loop changes are known already
                    if t is not None and t2 is not None and not z3.is_true(z3.simplify(t2)) and not t.eq(t2): ts.append((c, t))
                res = self.valid_many(st, [t for _, t in ts])
                if self.debug: print('  INITIAL', label, 'dropped', [c.desc for (c, _), r in zip(ts, res) if not r])
                return [c for (c, _), r in zip(ts, res) if r]
            def houdini(cands):
                cache = {}
                while True:
                    h = self.havoc(st, M, label); h.ghost = h.ghost + [('cut', label)]
                    for (o, k) in dead: h.w(o).cells.pop(k, None)
                    h.assume(g >= 0)
                    for c in cands: h.assume(c(h, g))
                    self.inner.append(cache)
                    try: evs = self.explore(f, h.fork(), dict(regs), header, None, body, stops2, {}, True)
                    finally: self.inner.pop()
                    last[0] = cache
                    keep = cands
                    for e in evs:
                        if e[0] != 'back' or e[1] != header: continue
                        ts = [(c, c(e[2], g + 1)) for c in keep]
                        ts = [(c, t) for c, t in ts if t is not None]
                        keep = [c for (c, _), r in zip(ts, self.valid_many(e[2], [t for _, t in ts])) if r]
                    if self.debug: print('  HOUDINI', label, 'dropped', [c.desc for c in cands if c not in keep])
                    if len(keep) == len(cands): return keep
                    cands = keep
            last = [{}]
            guarded = list(self.th.guarded); idx_terms = list(self.th.idx_terms)
            if idx_terms:
                # first the equalities between counters; then one of several equal index terms is enough
                ck0 = (label, 0)
                base = [c for c in cands if '==v0' in c.desc or c.desc.endswith(' const')]
                if self.inner and ck0 in self.inner[-1]: base = [c for c in base if c.desc in self.inner[-1][ck0]]
                self.level0 += 1
                try: base = houdini(initial(base))
                finally: self.level0 -= 1
                if self.inner: self.inner[-1].setdefault(ck0, set()); self.inner[-1][ck0] |= {c.desc for c in base}
                h = self.havoc(st, M, label); h.assume(g >= 0)
                for c in base: h.assume(c(h, g))
                if self.level0: return self.after(f, h, regs, header, body, stops2, dead)
                reps = []
                for d, tf in sorted(idx_terms, key=lambda x: (x[0] in ('g', 'lo+g'), len(x[0]))):
                    t = tf(h, g)
                    if t is None: continue
                    if any(t.eq(u) for _, u in reps): continue
                    if any(self.valid_many(h, [t == u for _, u in reps])): continue
                    reps.append((d, t))
                keepd = {d for d, _ in reps}
                cands = [c for c in cands if c.idx is None or c.idx in keepd]
                guarded = [c for c in guarded if c.plain.idx is None or c.plain.idx in keepd]
            elif self.level0:
                h = self.havoc(st, M, label)
                return self.after(f, h, regs, header, body, stops2, dead)
            cands = houdini(initial(cands))
            if self.inner: self.inner[-1].setdefault(ck, set()); self.inner[-1][ck] |= {c.desc for c in cands}
            have = {c.desc for c in cands}
            guarded = [c for c in guarded if c.flag + '==1' not in have and c.flag + '==0' not in have]
            if guarded:
                ck2 = (label, 2)
                if self.inner and ck2 in self.inner[-1]: guarded = [c for c in guarded if c.desc in self.inner[-1][ck2]]
                have = set(id(c) for c in cands)
                cands = houdini(cands + initial([c for c in guarded if id(c.plain) not in have]))
                if self.inner: self.inner[-1].setdefault(ck2, set()); self.inner[-1][ck2] |= {c.desc for c in cands}
        finally:
            self.quiet -= 1
        if not self.quiet:
            self.inv_report.append((label, len(cands), [getattr(c, 'desc', '?') for c in cands]))
        # --- final pass with obligations
        h = self.havoc(st, M, label); h.ghost = h.ghost + [('cut', label)]
        for (o, k) in dead: h.w(o).cells.pop(k, None)
        h.assume(g >= 0)
        for c in cands:
            t = c(h, g)
            if t is not None: h.assume(t)
        h.ghost = h.ghost + [('idx', g)]
        self.inner.append(last[0])
        try: evs = self.explore(f, h.fork(), dict(regs), header, None, body, stops2, {}, True)
        finally: self.inner.pop()
        out = []
        backs = []
        for e in evs:
            if e[0] == 'back' and e[1] == header: backs.append(e)
            else: out.append(e)
        if not self.quiet and backs: self.variant(h, backs, M, label)
        return out

    def variant(self, h, backs, M, label):
        """some measure that is bounded below decreases on every way round the loop"""
        def ok(measure):
            for e in backs:
                a, b = measure(h), measure(e[2])
                if not self.valid(e[2], z3.And(I(b) < I(a), I(a) >= 0)): return False
            return True
        ms = []
        for (o, k) in M:
            def cell(s, o=o, k=k): return s.mem[o].cells[k][1]
            v = cell(h)
            if isinstance(v, Ptr):
                ms.append(lambda s, c=cell: self.n - I(enc(c(s)))); ms.append(lambda s, c=cell: I(enc(c(s))))
            elif is_sym(v) and not is_boolish(v):
                ms.append(lambda s, c=cell: I(c(s)))
                for lim in self.th.variant_limits():
                    ms.append(lambda s, c=cell, lim=lim: I(lim) - I(c(s)))
                for (o2, k2) in [(o2, k2) for o2, ob in h.mem.items() if not ob.ro for k2, (sz, v2) in ob.cells.items() if is_sym(v2) and not is_boolish(v2) and (o2, k2) not in M]:
                    ms.append(lambda s, c=cell, o2=o2, k2=k2: I(s.mem[o2].cells[k2][1]) - I(c(s)))
                for (o2, k2) in M:
                    if (o2, k2) != (o, k) and is_sym(h.mem[o2].cells[k2][1]) and not is_boolish(h.mem[o2].cells[k2][1]):
                        ms.append(lambda s, c=cell, o2=o2, k2=k2: I(s.mem[o2].cells[k2][1]) - I(c(s)))
        good = any(ok(x) for x in ms)
        if not good:
            # lexicographic pairs with a position first (progress, or the same position and a decreasing counter)
            pos = [x for x in ms]
            for a in pos:
                for b in pos:
                    if a is b: continue
                    r = True
                    for e in backs:
                        goal = z3.Or(z3.And(I(a(e[2])) < I(a(h)), I(a(h)) >= 0),
                                     z3.And(I(a(e[2])) == I(a(h)), I(b(e[2])) < I(b(h)), I(b(h)) >= 0))
                        if not self.valid(e[2], goal): r = False; break
                    if r: good = True; break
                if good: break
        name = 'loop makes progress and ends @' + label
        o = self.obls.get(name)
        if good:
            if o is None: self.obls[name] = Obligation(name, {'termination'}, True)
        else:
            self.obls[name] = Obligation(name, {'termination'}, False, 'no decreasing measure among %d candidates' % len(ms), cut=True)

class PathEnd(Exception): pass

def is_boolish(v):
    if isinstance(v, bool): return True
    if isinstance(v, int): return v in (0, 1)
    if is_sym(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children()
        return z3.is_int_value(a) and z3.is_int_value(b) and {a.as_long(), b.as_long()} <= {0, 1}
    return False

def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and same(a.off, b.off)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return int(a) == int(b)
    if is_sym(a) and is_sym(b): return a.eq(b)
    return False

import subprocess, functools
@functools.lru_cache(None)
def demangle(n):
    return subprocess.run(['llvm-cxxfilt-18', n], capture_output=True, text=True).stdout.strip() or n
def short(n):
    """function name without template arguments and parameters"""
    d = demangle(n); out = ''; depth = 0
    for ch in d:
        if ch == '<': depth += 1
        elif ch == '>': depth = max(0, depth - 1)
        elif ch == '(' and depth == 0: break
        elif depth == 0: out += ch
    return out.replace('decltype', '').split(' ')[-1] or d[:60]
