"""Reference semantics of patterns, written from the README and from the node contracts (nodes_spec.py), independently of
the C++ code. It is the oracle of the bounded corpus (corpus.py): every contract of the deciding proof is stated over the
same functions (ordered choice, counts, lookahead into what directly follows a group)."""
import sys
sys.setrecursionlimit(200000)
UNB = None
NL = 10
DIG = frozenset(range(48, 58)); WORD = DIG | frozenset(range(65, 91)) | frozenset(range(97, 123)) | {95}; SPC = frozenset([9, 10, 12, 13, 32])
ALL = frozenset(range(256))
CLS = {ord('d'): DIG, ord('D'): ALL - DIG, ord('w'): WORD, ord('W'): ALL - WORD, ord('s'): SPC, ord('S'): ALL - SPC, ord('N'): ALL - {NL}}
CTL = {ord('t'): 9, ord('n'): 10, ord('r'): 13, ord('f'): 12, ord('a'): 7, ord('e'): 27}
class Bad(Exception): pass

def escape_set(c):
    if c in CLS: return CLS[c]
    if c in CTL: return frozenset([CTL[c]])
    return frozenset([c])

class Parser:
    """pattern (bytes) -> alternation = list of sequences; sequence = list of items
    item = ('set', frozenset) | ('lit', bytes) | ('^',) | ('$',) | ('grp', index, alt) | ('nc', alt) | ('rep', mode, lo, hi, item)"""
    def __init__(s, p): s.p = p; s.i = 0; s.groups = 0
    def parse(s):
        a = s.alt()
        if s.i != len(s.p): raise Bad('trailing')
        return a
    def alt(s):
        out = [s.seq()]
        while s.i < len(s.p) and s.p[s.i] == 124: s.i += 1; out.append(s.seq())
        return out
    def peek(s, k=0): return s.p[s.i + k] if s.i + k < len(s.p) else -1
    def seq(s):
        out = []
        while s.i < len(s.p) and s.peek() not in (124, 41):
            first = not out
            it = s.atom(first)
            while s.peek() in (42, 43, 63, 123):
                lo, hi, exact = s.quant()
                mode = 'greedy'
                if s.peek() == 63: mode = 'lazy'; s.i += 1
                elif s.peek() == 43: mode = 'poss'; s.i += 1
                if exact: mode = 'exact'
                it = ('rep', mode, lo, hi, it)
            out.append(it)
        if not out: raise Bad('empty alternative')
        return out
    def quant(s):
        c = s.peek(); s.i += 1
        if c == 42: return 0, UNB, False
        if c == 43: return 1, UNB, False
        if c == 63: return 0, 1, False
        j = s.p.index(b'}', s.i); t = s.p[s.i:j]; s.i = j + 1
        if b',' not in t: return int(t), int(t), True
        a, b = t.split(b',')
        return int(a), (int(b) if b else UNB), False
    def braced(s):
        assert s.peek() == 123
        j = s.p.index(b'}', s.i); t = s.p[s.i + 1:j]; s.i = j + 1
        return t
    def atom(s, first):
        c = s.peek(); s.i += 1
        if c == 40:
            if s.peek() == 63 and s.peek(1) == 58:
                s.i += 2; a = s.alt(); r = ('nc', a)
            else:
                k = s.groups; s.groups += 1; a = s.alt(); r = ('grp', k, a)
            if s.peek() != 41: raise Bad(')')
            s.i += 1
            return r
        if c == 91: return s.cls()
        if c == 46: return ('set', ALL - {NL})
        if c == 94 and first: return ('^',)
        if c == 36 and (s.i == len(s.p) or s.peek() in (124, 41)): return ('$',)
        if c == 92:
            e = s.peek(); s.i += 1
            HEX = b'0123456789abcdefABCDEF'
            if e == 120:
                if s.peek() == 123: return ('lit', bytes.fromhex(s.braced().decode()))
                h = b''
                while len(h) < 2 and s.peek() != -1 and s.peek() in HEX: h += bytes([s.peek()]); s.i += 1
                if h: return ('lit', bytes([int(h, 16)]))
                return ('set', frozenset([e]))
            if e == 111 and s.peek() == 123:
                t = s.braced(); return ('lit', bytes(int(t[k:k + 3], 8) & 255 for k in range(0, len(t), 3)))
            if all(48 <= x <= 55 for x in (e, s.peek(), s.peek(1))):
                v = int(s.p[s.i - 1:s.i + 2], 8) & 255; s.i += 2; return ('lit', bytes([v]))
            return ('set', escape_set(e))
        return ('set', frozenset([c]))
    def cls(s):
        neg = s.peek() == 94
        if neg: s.i += 1
        cur = frozenset()
        while s.peek() != 93:
            if s.peek() == 92: cur |= escape_set(s.peek(1)); s.i += 2; continue
            a = s.peek(); s.i += 1
            if s.peek() == 45 and s.peek(1) != 93:
                b = s.peek(1); s.i += 2
                sg = lambda v: v - 256 if v >= 128 else v
                cur |= frozenset(v for v in range(256) if sg(a) <= sg(v) <= sg(b)); continue
            cur |= {a}
        s.i += 1
        return ('set', ALL - cur if neg else cur)

class Ref:
    """match(item list, position, groups, lookahead) with exactly the node contracts; None = rejection"""
    def __init__(s, pattern):
        p = Parser(pattern); s.ast = p.parse(); s.ng = p.groups
    def single(s, it, q, pos, g, inj):
        """an item on its own (nothing after it inside its sequence), with lookahead inj"""
        k = it[0]
        if k == 'set': return (pos + 1, g) if pos < len(q) and q[pos] in it[1] else None
        if k == 'lit': return (pos + len(it[1]), g) if q[pos:pos + len(it[1])] == it[1] else None
        if k == '^': return (pos, g) if pos == 0 or q[pos - 1] == NL else None
        if k == '$': return (pos, g) if pos == len(q) else (pos + 1, g) if q[pos] == NL else None
        if k == 'nc': return s.alt(it[1], q, pos, g, inj)
        return s.seq([it], 0, q, pos, g, inj)
    def alt(s, branches, q, pos, g, inj):
        for b in branches:
            r = s.seq(b, 0, q, pos, g, inj)
            if r is not None: return r
        return None
    def look(s, inj, q, pos, g):
        """the continuation the lookahead names would accept here (list of (sequence, index); empty = anything)"""
        if not inj: return True
        return any(s.seq(b, i, q, pos, g, ()) is not None for b, i in inj)
    def seq(s, items, i, q, pos, g, inj):
        it = items[i]; last = i + 1 == len(items); rest = () if last else ((items, i + 1),)
        k = it[0]
        def cont(p2, g2, inj2): return (p2, g2) if last else s.seq(items, i + 1, q, p2, g2, inj2)
        if k == 'grp':
            r = s.alt(it[2], q, pos, g, rest)
            if r is None: return None
            p2, g2 = r; g2 = g2[:it[1]] + ((pos, p2),) + g2[it[1] + 1:]
            return cont(p2, g2, inj)
        if k != 'rep':
            if last: return s.single(it, q, pos, g, inj)
            r = s.single(it, q, pos, g, ())
            return None if r is None else cont(r[0], r[1], inj)
        _, mode, lo, hi, m = it
        states = [(pos, g)]
        if mode == 'exact':
            for _ in range(lo):
                r = s.single(m, q, states[-1][0], states[-1][1], ())
                if r is None: return None
                states.append(r)
            return cont(*states[-1], ())
        done = False
        def more():
            """one more repetition, or False"""
            nonlocal done
            if done or (hi is not None and len(states) - 1 >= hi): return False
            r = s.single(m, q, states[-1][0], states[-1][1], ())
            if r is None: done = True; return False
            if r == states[-1] and len(states) - 1 >= lo: done = True; return False      # further empty repetitions change nothing
            states.append(r)
            if r[0] == states[-2][0] and len(states) - 1 >= lo + 1: done = True
            return True
        for _ in range(lo):
            r = s.single(m, q, states[-1][0], states[-1][1], ())
            if r is None: return None
            states.append(r)
        def ok(st):
            if not last: return s.seq(items, i + 1, q, st[0], st[1], ())
            return st if s.look(inj, q, st[0], st[1]) else None
        if mode == 'lazy':
            while True:
                r = ok(states[-1])
                if r is not None: return r
                if not more() or states[-1][0] == states[-2][0]: return None
        while more(): pass
        if mode == 'poss': return cont(*states[-1], ())
        while len(states) - 1 > lo:
            r = ok(states[-1])
            if r is not None: return r
            states.pop()
        return cont(*states[-1], ())        # with the minimum count the lookahead does not matter
    def find(s, q, frm):
        g0 = ((-1, -1),) * s.ng
        for p in range(frm, len(q) + 1):
            r = s.alt(s.ast, q, p, g0, ())
            if r is not None: return p, r[0], r[1]
        return None
    def findall(s, q, limit=1 << 30):
        out = []; frm = 0
        while len(out) < limit:
            m = s.find(q, frm)
            if m is None: break
            out.append(m); frm = m[1] if m[1] > m[0] else m[1] + 1
            if frm > len(q): break
        return out
    # ---- derived facts
    def size(s, x=None):
        """(least, greatest) length of a match as composed from the parts; greatest None = unbounded"""
        def it(i):
            k = i[0]
            if k == 'set': return 1, 1
            if k == 'lit': return len(i[1]), len(i[1])
            if k == '^': return 0, 0
            if k == '$': return 0, 1
            if k == 'grp': return al(i[2])
            if k == 'nc': return al(i[1])
            a, b = it(i[4])
            return a * i[2], None if i[3] is None or b is None else b * i[3]
        def sq(b):
            lo = hi = 0
            for i in b:
                a, c = it(i); lo += a; hi = None if hi is None or c is None else hi + c
            return lo, hi
        def al(bs):
            v = [sq(b) for b in bs]
            return min(a for a, _ in v), None if any(c is None for _, c in v) else max(c for _, c in v)
        return al(s.ast)
    def first(s):
        """characters a match can start with (composed), and whether a match can be empty"""
        def it(i):
            k = i[0]
            if k == 'set': return i[1], False
            if k == 'lit': return frozenset(i[1][:1]), not i[1]
            if k == '^': return frozenset(), True
            if k == '$': return frozenset([NL]), True
            if k == 'grp': return al(i[2])
            if k == 'nc': return al(i[1])
            a, n = it(i[4])
            if i[3] == 0: return frozenset(), True
            return a, n or i[2] == 0
        def sq(b):
            f = frozenset()
            for i in b:
                a, n = it(i); f |= a
                if not n: return f, False
            return f, True
        def al(bs):
            v = [sq(b) for b in bs]
            return frozenset().union(*[a for a, _ in v]), any(n for _, n in v)
        return al(s.ast)
    def flat(s):
        def it(i):
            if i[0] in ('grp', 'nc'): return False
            return it(i[4]) if i[0] == 'rep' else True
        return all(it(i) for b in s.ast for i in b)
