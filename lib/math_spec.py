"""Contracts of the arithmetic on announced match sizes (utilities/math.hpp). The functions are consteval; for this translation
unit alone they are compiled as constexpr, so that their bodies exist as code and can be verified for all arguments."""
import z3
from symex import Engine, Ptr, Q, State, I, Obligation
from theory import Theory
UNB = 0xffffffff
GROUP = 40
NAMES = {'add_sizes': 2, 'multiply_sizes': 2}

class Inst:
    kind = 'math'; ng = 0; meta = True
    def __init__(s, name, fn, n): s.name = name; s.fn = fn; s.n = n
    def code(s):
        a = ['a%d' % k for k in range(s.n)]
        return 'extern "C" unsigned H_%s(%s) { return (unsigned) e_regex::%s(%s); }\n' % (s.name, ', '.join('unsigned ' + x for x in a), s.fn, ', '.join(a))

def instances():
    out = [Inst('math_' + f, f, n) for f, n in NAMES.items()]
    for f in ('min', 'max', 'sum'):
        for n in range(0, 7): out.append(Inst('math_%s_%d' % (f, n), f, n))
    return out

def tu(insts):
    return '#include <algorithm>\n#include <limits>\n#define consteval constexpr\n#include "utilities/math.hpp"\n#undef consteval\n' + ''.join(i.code() for i in insts)

def check(module, inst, limit=120, hints=None):
    th = Theory(); th.ng = 0
    eng = Engine(module, th, {}, limit)
    st = State(); a = [z3.Int('a%d' % k) for k in range(inst.n)]
    for x in a: st.assume(z3.And(x >= 0, x <= UNB))
    if inst.fn == 'sum': st.assume(z3.Sum(a + [z3.IntVal(0)]) <= UNB)
    th.limits = []; th.globals_axioms = []
    rets = eng.run_function('H_' + inst.name, list(a), st)
    for rs, rv in rets:
        r = I(rv)
        if inst.fn == 'add_sizes':
            eng.oblige(rs, 'the sum of two sizes, or unbounded when it is not representable', {'C08'}, z3.Or(z3.And(a[0] + a[1] <= UNB, r == a[0] + a[1]), z3.And(a[0] + a[1] > UNB, r == UNB)))
        elif inst.fn == 'multiply_sizes':
            p = a[0] * a[1]
            eng.oblige(rs, 'the product of a size and a count, or unbounded when it is not representable', {'C08'}, z3.Or(z3.And(p <= UNB, r == p), z3.And(p > UNB, r == UNB)))
        elif inst.fn == 'sum': eng.oblige(rs, 'the sum of all arguments', {'C08', 'C06'}, r == z3.Sum(a + [z3.IntVal(0)]))
        elif not a: eng.oblige(rs, 'nothing: zero', {'C08'}, r == 0)
        elif inst.fn == 'min': eng.oblige(rs, 'the least of the arguments', {'C08'}, z3.And([r <= x for x in a] + [z3.Or([r == x for x in a])]))
        else: eng.oblige(rs, 'the greatest of the arguments', {'C08', 'C06'}, z3.And([r >= x for x in a] + [z3.Or([r == x for x in a])]))
    eng.obls['not vacuous'] = Obligation('some execution returns', {'C08'}, any(eng.feasible(rs) for rs, _ in rets))
    return eng
