"""Bounded supplement and source of concrete witnesses: patterns x exhaustively enumerated short subjects, run through the
public API of the real headers (built with the sanitizers) and compared with ref.py. Labelled bounded in the evidence; never
counted as proved."""
import os, re, sys, resource, subprocess, struct, itertools, random, tempfile, shutil, multiprocessing as mp, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build
from ref import Ref, Bad, ALL, NL, UNB
CXX = 'g++'
GEN = {'C01', 'C02', 'C03', 'C05', 'C12', 'C14'}

def patterns(tier='quick'):
    """[(pattern, tags, kind of subjects)]; the list is fixed, so a run never depends on luck"""
    P = {}
    def add(p, tags='', kind='enum'):
        if isinstance(p, str): p = p.encode('latin1')
        t, k = P.get(p, (set(), kind)); P[p] = (t | GEN | set(tags.split()), k)
    # --- terminals, one by one, over all bytes
    for a in ['a', 'Z', '0', ' ', '-', '_', '"', '<', '=', ',', ':', '!', '&', '~', '\x01', '\x7f', '\xe9', '\xff', '.', '\\.', '\\*', '\\+', '\\?', '\\(', '\\)', '\\[', '\\]', '\\{', '\\}', '\\|', '\\^', '\\$', '\\\\', '\\/', '\\-',
              '\\d', '\\D', '\\w', '\\W', '\\s', '\\a', '\\t', '\\n', '\\r', '\\f', '[abc]', '[^abc]', '[a-f]', '[^a-f]', '[a-cx-z]', '[^a-cx-z_]', '[\\d]', '[^\\d]', '[\\w.]', '[^\\w.]', '[\\s\\d]', '[^\\s\\d]', '[a]', '[^a]',
              '[0-9a-fA-F]', '[a-z\\-]', '[\\-a]', '[\\]x]', '[^\\]x]', '[\\\\]', '[+*.]', '[^+*.]', '[\x01-\x7f]', '[ -~]', '[^ -~]', '[^\\n]', '[\\t ]', '[\\W]', '[^\\W]', '[\\D]', '[^\\D]', '[^\\s]', '[\\s]', '[b-b]', '[A-Z_]', '[\x80-\xff]', '[\\n]', '[\x00-\x7f]' if False else '[ab]']:
        add(a, 'C07 C09', 'bytes')
        if a not in ('\xff',): add('x' + a + 'y', 'C07 C09 C13', 'bytes')
        add(a + '+', 'C07 C04 C08', 'bytes')
        add(a + '*b', 'C07 C04 C08', 'bytes')
    # --- numeric escapes
    for a in ['\\x41', '\\x4a', '\\x4A', '\\xfF', '\\x00', '\\x0a', '\\x7f', '\\x80', '\\xA', '\\x7', '\\xc', '\\x{41}', '\\x{4142}', '\\x{4aFf09}', '\\x{414243444546}', '\\x{deadBEEF}', '\\101', '\\000', '\\177', '\\200', '\\377', '\\012', '\\o{101}', '\\o{101102}', '\\o{101102103104}', '\\o{000377}', '\\o{176001}', '\\x9', '\\x19', '\\xF0', '\\x0F', '\\x{0f}', '\\077', '\\100', '\\007', '\\070', '\\o{070}', '\\o{007}', '\\o{100}', '\\xAg', '\\x1g', '\\x0z', '\\x99', '\\xAa', '\\xbB', '\\xCc', '\\xdD', '\\xeE', '\\x68', '\\x57', '\\x23']:
        add(a, 'C10 C07', 'bytes'); add('a' + a + 'b', 'C10 C07 C13', 'bytes'); add(a + '+', 'C10 C04', 'bytes'); add('(' + a + '|b)+', 'C10 C13 C06', 'bytes')
    add('\\\\x41', 'C10 C13', 'bytes'); add('\\x41\\x42', 'C10 C13'); add('\\101\\102', 'C10 C13'); add('\\x411', 'C10', 'bytes'); add('\\1011', 'C10', 'bytes'); add('\\x{41}{2}', 'C10 C04'); add('\\x41{2}', 'C10 C04'); add('\\101{2}', 'C10 C04')
    add('\\x{4142}{2}', 'C10 C04'); add('\\x{4142}+', 'C10 C04'); add('\\x{4142}*A', 'C10 C04 C08'); add('\\x{4142}*C', 'C10 C04 C08'); add('\\x{4142}+?A', 'C10 C04 C08'); add('\\x{4142}|\\x{4143}', 'C10 C05'); add('(\\x{4142})+\\x{4143}', 'C10 C06')
    add('A*\\x{4142}', 'C10 C08'); add('A*?\\x{4142}', 'C10 C08'); add('(A*)\\x{4142}', 'C10 C08 C06'); add('(?:\\x{4142}|B)*\\x{4142}C', 'C10 C08')
    # --- counts, all forms
    Q = ['*', '+', '?', '*?', '+?', '??', '*+', '++', '?+', '{0}', '{1}', '{2}', '{3}', '{0,}', '{1,}', '{2,}', '{3,}', '{0,1}', '{0,2}', '{1,2}', '{1,3}', '{2,3}', '{2,4}', '{2,2}', '{0,0}', '{1,1}',
         '{0,}?', '{1,}?', '{2,}?', '{0,1}?', '{0,2}?', '{1,3}?', '{2,3}?', '{2,2}?', '{0,}+', '{1,}+', '{2,}+', '{0,2}+', '{1,3}+', '{2,3}+']
    atoms = ['a', '[ab]', '(a)', '(?:ab)', '(ab|a)', '.', '(?:a|ab)', '(a?)', '(?:a|b)', '(a*)', '[^b]', '(?:b?a)']
    conts = ['', 'a', 'b', 'ab', '$', '(a)', '[^a]', 'a?b', '(?:a|b)', 'b?', 'c']
    for q in Q:
        for k, x in enumerate(atoms):
            for j, t in enumerate(conts):
                if tier != 'quick' or (k < 2 and j < 5) or (k + 2 * j + len(q)) % 6 == 0: add(x + q + t, 'C04 C08 C13' + (' C06' if '(' in x + t else ''))
        add('b' + 'a' + q, 'C04 C13'); add('(a' + q + ')a', 'C04 C06 C08'); add('(a' + q + ')b', 'C04 C06 C08'); add('(a' + q + ')(b|c)', 'C04 C06 C08'); add('(b|a' + q + ')a', 'C04 C05 C06 C08')
        add('a' + q + 'b' + q + 'c', 'C04 C08'); add('^a' + q + '$', 'C04 C07'); add('(?:a' + q + '|b)c', 'C04 C05 C13'); add('((a)' + q + 'b)' + 'c', 'C04 C06'); add('(?:a' + q + 'b)' + '{2}', 'C04 C10'); add('x(a' + q + ')', 'C04 C06')
        add('(a|b)' + q + 'ab', 'C04 C06 C08'); add('a' + q + '|b', 'C04 C05 C13'); add('[a-b]' + q + '[b-c]', 'C04 C08 C09'); add('\\w' + q + '\\d', 'C04 C08 C09'); add('\\d' + q + '\\D', 'C04 C08 C09'); add('.' + q + 'a', 'C04 C08')
        add('(a' + q + ')$', 'C04 C06 C08'); add('(a' + q + ')(a?)b', 'C04 C06 C08'); add('(a' + q + ')b?', 'C04 C06 C08'); add('\\s' + q + '$', 'C04 C07 C08'); add('[^a]' + q + '$', 'C04 C07 C08'); add('a' + q + '^b', 'C04 C13'); add('(?:^a|$)' + q + 'b', 'C04 C07 C08'); add('(?:^|ab)' + q + '(a)', 'C04 C07 C08')
    # --- numbers written with several digits, and large ones
    for n in (4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 19, 20, 21, 25, 31, 32, 64, 99, 100, 101, 127, 128, 130, 200, 255, 256, 257, 300, 1000):
        add('a{%d}' % n, 'C10 C04', 'count%d' % n); add('a{%d,}' % n, 'C10 C04', 'count%d' % n); add('a{%d,%d}b' % (n, n + 2), 'C10 C04', 'count%d' % n); add('(a|b){%d,%d}+' % (n - 1, n + 1), 'C10 C04', 'count%d' % n); add('a{0,%d}?b' % n, 'C10 C04', 'count%d' % n)
        add('a{%d,%d}' % (n - 1, n), 'C10 C04 C08', 'count%d' % n); add('(a{%d,%d})a' % (n - 1, n), 'C10 C04 C08', 'count%d' % n); add('^a{%d,%d}?ac' % (n, n + 1), 'C10 C04', 'count%d' % n); add('^a{%d,%d}ac' % (n - 1, n), 'C10 C04', 'count%d' % n)
    for n in (65535, 65536, 65537, 70000): 
        add('a{%d,}' % n, 'C10 C04', 'count%d' % n); add('[ab]{0,%d}' % n, 'C10 C04 C08', 'count%d' % n)
    add('a*', 'C04', 'count70000'); add('a+?b', 'C04', 'count70000'); add('a++', 'C04', 'count70000')
    # --- alternatives, groups, nesting
    for p in ['a|b', 'a|ab', 'ab|a', 'a|ab|abc', 'abc|ab|a', 'ab|ac', 'abc|abd|a', '(a|ab)(c|bcd)', '(a|ab)(c|bcd)(d*)', '(?:a|ab)c', '(?:ab|a)bc', 'x(a|b)y', '(a)|(b)', '(a)|b|(c)', '((a)|(b))c', '((a)|b)+', '((a)|(b))+', '(a(b(c)))', '(a)(b)(c)', '((a)(b))c', '(((a)))', '(?:(a)|b)*',
              '(?:(a)b|a(c))', '(a)b|a(b)c', '((a)b|a)c', '(?:(a)(b)?)+', '(a)?b', '(a)?(b)?c', '(a)*b', '((a)?b)*', '(?:(?:a))', '(?:(a))', '((?:a))', '(?:a(?:b(?:c)))', '(?:a|(?:b|(?:c)))', '(a|(b|(c)))', 'a(?:b|c)d', 'a(?:b|c|d)e', '(a(b)?)+', '(?:a(b)?)+', '(a|b)(c|a)', '(a|b|ab)(c|bc)',
              '(a+)(b+)', '(a*)(b*)', '(a*)(a)', '(a+)a', '(a+?)a', '(a+)(a+)', '(a+?)(a+)', '(a*?)(a)', '((a+)b)+', '(a+b)+', '(?:a+b)+c', '(a|aa)+', '(aa|a)+', '(?:aa|a){2}', '(a?)(a?)(a?)aaa', '(a?b)*', '((a?)b?)*', '(?:a?)*b', '(a*)*', '(a*)+', '(a*)*b', '(a+)*', '(a+)+b', '(?:a*)?', '(a*?)*b', '(?:a|b?)+c', '(?:b?|a)+c',
              '(ab)*a', '(ab)+a', '(?:ab)*ac', '(ab)*(ac)', '(a)(b)*(c)', '(a(b)*)*', '(a(b)c)?abd', '(?:(a)b)?ac', '(?:(a)b){2}', '(?:(a)|(b)){2}', '(?:(a)|(b)){2,3}', '(?:(a)b)*?ac', '(?:(a)b)+?c', '((a)b)*+a', '((a)b|a)*+', '(a|ab)*c', '(a|b)*?c', '(a|b)+?(c|b)', '(ab?)*b', '(ab??)*b', 'a(bc)?b', 'a(bc)??b', 'a(bc)?+b',
              '(a|b)*abb', '(?:a|b)*a(?:a|b)', '(a|b)*(a)(b)', 'a.c', 'a.*c', 'a.*?c', 'a.+c', '.*', '.+', '.*?', '(.*)b', '(.*?)b', '(.+)(.+)', '(.*)(.*)', '(.)(.)', '(.)(.)?', '.*a.*b', 'a[^b]*b', '"[^"]*"', '"(.*?)"', '\\((.*)\\)', '<([^>]+)>', '(\\d+)-(\\d+)', '(\\d+)\\.(\\d+)', '\\w+@\\w+', '([a-c]+)\\s*=\\s*(\\d+)',
              '[\\w.\\-]+@[\\w\\-]+\\.[\\w.]+', '(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9])\\.){3}(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9])', '(10[0-7]0)', '[a-z]([a-z]+)|(\\d+)', '\\w(\\w+)|(\\d+)', '\\d*\\w+abc', '\\s*(ab)+', 'a(a[a-c])+', 'a[^a-c]+', 'aaa|a+', 'a|bc|cd|d', '\\d+\\s+123', 'a(?:a(b))cd', 'a(a(b))cd',
              '((a|b)+)ab', '((?:a|b)+)ab', '(a|b+)b', '(a+|b)a', '(b|a+)(?:a|b)', '(b|a+?)(?:a|b)', '(a+|b+)(a|b)', '((a+))a', '((a+)b?)a', '(?:(a+))a', '(?:a+)a', '(?:a*)a', '(x(a+))a', '(x(?:a+))a', '(a+)(?:ab|b)', '(a*)(?:ab|b)', '(a{1,3})a', '(a{1,3}?)a', '(a{2})a', '(a{1,3}+)a', '(a|a+)a', '((a|b)*)b', '(a+)(b|$)', '(a+)(a|$)', '(a*)$', '(a+)^b',
              '(a)(?:b|(c))(d)', '(?:(a)|(?:(b)|(c)))(d)', '((a)|((b)|(c)))(d)', '(a)|(b)|(c)(d)', '(?:(a)|b)(?:c|(d))', '((a)(b)|(c))(d)', '(a(b|c(d))e)(f)', '(?:a(b)|c)(d)', '(?:a|(b))(c)', '((a)|(b)(c))(d)(e)', '(a)(?:(b)(c)|d)(e)', '(a)(?:b)(c)', '(?:a)(b)', '(?:a)(?:b)(c)', '(?:(?:(a)))(b)', '((?:(a)))(b)', '(?:(a)(b))(c)', '(?:(a)(b)|(c))(d)|(e)', '(?:(a)){2}(b)', '(?:(a)|b)+(c)', '((a)b?){2}(c)']:
        add(p, 'C05 C06 C08 C13 C04')
    for n in (7, 8, 9, 10, 12, 16, 17, 20, 33):
        g = lambda f: ''.join(f % chr(97 + k % 3) for k in range(n))
        add(g('(%s)'), 'C06 C12 C13', 'chain'); add('(?:' + '|'.join('(%s)' % ('a' * k + 'b') for k in range(min(n, 13))) + ')', 'C06 C12 C05', 'chain'); add('(' * n + 'a' + ')' * n + '(b)', 'C06 C12 C13', 'chain')
        if n < 13:
            for k in sorted({0, n // 2, n - 2, n - 1}):
                for q in ('?', '*'): add('(?:' + ''.join('(%s%s)' % (chr(97 + i % 3), q if i == k else '') for i in range(n)) + 'x)+', 'C06 C12 C04 C05', 'reps%d' % n)
        if n < 9: add(g('(%s*)'), 'C06 C12 C08', 'chain'); add(g('(%s)?'), 'C06 C12', 'chain')
    # --- what the optimiser looks at
    for p in ['a*b', 'a+b', 'a*?b', 'a+?b', 'a?b', 'a??b', 'a*b?a', 'a*b*a', 'a*(b?)a', 'a*(?:b?)a', 'a*(?:b|a)', 'a*(?:b|$)', 'a*(?:ba|ab)', 'a*$', 'a*?$', 'a+?$', 'a*^b', '(a*)b', '(a*)a', '(a*)b?a', '(a*)(b?)(a)', '(a*)(?:b|a)', '(a*?)(?:b|$)', '(a*?)b?', '(a*?)(b?)', '(a*?)(b?)c', 'a*?b?', 'a*?b*', 'a*?b?c', 'a+?b?c', 'a??b?c',
              '[ab]*c', '[ab]*[bc]', '[ab]*?[cd]', '[ab]*?[bc]', '[^a]*a', '[^a]*b', '[^a]*?a', '\\d*\\w', '\\d*\\D', '\\w*\\W', '\\w*\\s', '\\s*\\w', '\\s*.', '.*\\n', '.*?\\n', '.*\\s', '\\D*\\d', '\\D*\\w', '\\W*\\d', '\\W*_', '[\\s\\d]*a', '[\\s\\d]*1', '\\n*$', '\\n*?$', '\\n*.', '\\s*$', '\\s+?$', '[^\\n]*$', '[^b]*$', 'a*\\x{6162}', 'a*\\x{6261}', 'a*\\x{6261}?a', 'ab*bc', 'ab*(b)', 'ab*(c)', 'ab*(?:c)?b', 'ab*(c)?b', 'ab*(c*)b',
              '(?:ab)*ac', '(?:ab)*c', '(?:ab)*?ac', '(?:ab|c)*a', '(?:ab|c)*d', '(?:a?b)*a', '(?:a?b)*c', '(?:a|b)*?c', '(?:a?)*?b', '(?:a*)*c', '(?:$)*a', '(?:^a)*b', '(?:^)*a', '(?:^)?a', '(?:a$)*b', '(?:a|$)*b', '(?:\\n|a)*$', '(?:a|^b)*c', '(a|b)*?(c|$)', '(?:a{0})*b', 'a{0}b*c', 'a{0,2}b{0,2}a', 'a{0,2}?b{0,2}?a', '(?:a{0,1}){0,2}a', 'a{2,3}a', 'a{2,3}b', 'a{2,3}?a', 'a{2,3}?b', 'a{0,}(?:b{0,}a)', 'a{1,2}(?:b{0}a)', 'a*(?:b{0}a)', 'a*(?:b{0})a', 'a*(?:(?:b?c?)a)', 'a*(?:(b)?(c)?)a', 'a*(?:b?|c)a', 'a*(?:c|b?)a', 'a*((b?)|c)a', 'a*(?:b|c?)d', 'a*(?:^|b)a', 'a*(?:$|b)a',
              'a+(?:b+|c)', 'a+(b*c|d)', '(a+b|c)+d', '(?:(a+)b|c)+a', '(?:(a+)|b)+a', '(?:(a+)|b)c', '((a*)b|a)c', '((a*)b*)a', '((a+)?)a', '((a?)+)a', '((a+)*)a', '((a+){1,2})a', '(b(a*))a', '(b(a*)|c)a', '((a*)|c)a', '((?:a*))a', '((?:a*)b?)a', '(?:a*|b)a', '(?:a*b|a)a', '(a*|b)a', '(?:(a*))(a)', '(?:(a*)b?)a', '((a*)(b?))a', '(((a*)))a', '((a*)(?:b|c))', '(a*(?:b|c)?)a', '(a*?(?:b|c)?)a', '(a*?(?:b|c))a', '(a*?)(?:a|b)', '(a*?b?)(?:a|b)']:
        add(p, 'C08 C09 C04 C05 C06')
    # --- anchors
    for p in ['^a', 'a$', '^a$', '^', '$', '^$', '^a|b$', '^a|^b', 'a$|b$', '(^a)b', '(a$)', '(a$)b', '(?:a$)b', '(?:^a|b)c', '(^a|b)+', 'x^a', 'a$b', '^a*$', '^(a*)$', '^(a|b)*$', '^.*$', '^.+$', '^.', '.$', '^\\s*$', '^[^a]*$', '\\n^a', 'a\\n^b', 'a$\\n', 'a$^b', '(a$)^', '(?:a$)(^b)', '(^)a', '(?:^)a', '(?:^|b)a', '(?:a|$)', '(a|$)', '(a|$)(b)', 'a(?:b|$)', 'a(b|$)', '(?:$)', '($)', '(^)', '(?:^)', '(?:^a$)*', '(?:^a?$)+', '(^a*)(b$)', 'a?$', 'a*?$', '^a?b', '^a*?b', '^+a' if False else '^ab', '^^a', 'a$$', '(?:a$$)', '(^^a)']:
        add(p, 'C07 C03 C08', 'lines')
    # --- fixed pseudo-random patterns
    rnd = random.Random(20251)
    def atom(d):
        r = rnd.random()
        if d > 0 and r < 0.22: return '(' + alt(d - 1) + ')'
        if d > 0 and r < 0.38: return '(?:' + alt(d - 1) + ')'
        return rnd.choice(['a', 'a', 'b', 'b', 'c', '[ab]', '[^a]', '[bc]', '.', '[^bc]', '\\x61'])
    def seq(d): return ''.join(atom(d) + (rnd.choice(Q) if rnd.random() < 0.42 else '') for _ in range(rnd.choice([1, 1, 2, 2, 3, 4])))
    def alt(d): return '|'.join(seq(d) for _ in range(rnd.choice([1, 1, 1, 2, 2, 3])))
    N = {'quick': 420, 'thorough': 3000}.get(tier, 420)
    for _ in range(N):
        p = alt(rnd.choice([0, 1, 2, 2, 3]))
        if len(p) > 42: continue
        add(p, 'C04 C05 C06 C08 C13')
    # a literal character that follows a hex or octal escape may be a digit: keep the corpus unambiguous
    out = []
    for p, (t, k) in P.items():
        try: r = Ref(p)
        except Bad: continue
        out.append((p, frozenset(t), k))
    return out

def blocks(ast):
    """one representative per class of characters the pattern cannot tell apart"""
    sets = []
    def it(i):
        if i[0] == 'set': sets.append(i[1])
        elif i[0] == 'lit': sets.extend(frozenset([c]) for c in i[1])
        elif i[0] in '^$': sets.append(frozenset([NL]))
        elif i[0] == 'grp': [it(x) for b in i[2] for x in b]
        elif i[0] == 'nc': [it(x) for b in i[1] for x in b]
        else: it(i[4])
    for b in ast:
        for i in b: it(i)
    part = {}
    pref = list(range(97, 123)) + list(range(48, 58)) + list(range(32, 127)) + [10, 9] + list(range(256))
    for c in dict.fromkeys(pref): part.setdefault(tuple(c in s for s in sets), c)
    # blocks in at least one set come first
    return [c for k, c in sorted(part.items(), key=lambda x: (not any(x[0]), x[1]))]

def words(al, budget):
    out = [b'']; L = 0
    while True:
        L += 1
        if len(out) + len(al) ** L > budget or L > 9: break
        out += [bytes(w) for w in itertools.product(al, repeat=L)]
    return out

def subjects(p, kind, ref, tier, seed=1):
    al = blocks(ref.ast)
    budget = 420 if tier == 'quick' else 3000
    if kind.startswith('count'):
        n = int(kind[5:]); out = []
        for k in (0, 1, n - 1, n, n + 1, n + 2, n + 3, 2 * n) if n < 60000 else (1, 3, n - 65536, n, n + 2):
            if k < 0: continue
            if 200 <= n < 60000 and k not in (n - 1, n, n + 1, n + 2): continue
            out += [b'a' * k + t for t in ((b'', b'b', b'c') if n < 60000 else (b'', b'b'))]
        return out
    out = []
    if kind == 'chain':
        n = 40; ch_ = ''.join(chr(97 + k % 3) for k in range(n)).encode(); rnd = random.Random(3)
        out = [ch_[:k] for k in range(n)] + [ch_[i:i + k] for i in (1, 2) for k in (3, 9, 12, 20, 37)] + [b'a' * k + b'b' for k in range(36)]
        for _ in range(80):
            m = rnd.randint(6, 24); out.append(bytes(c for c in ch_[:m] if rnd.random() < 0.8))
    elif kind.startswith('reps'):
        n = int(kind[4:]); full = bytes(97 + k % 3 for k in range(n)); vs = [full] + [full[:k] + full[k + 1:] for k in range(n)] + [full[:k] + full[k:k + 1] + full[k:] for k in (0, n // 2, n - 1)]
        out = [b''] + [v + b'x' for v in vs] + [v + b'x' + w + b'x' for v in vs for w in vs] + [full + b'x' + v for v in vs]
    elif kind.startswith('both'):
        n = int(kind[4:]); al = al[:3]
        for c in al[:2]:
            bc = bytes([c])
            for k in sorted({max(0, n + d) for d in (-4, -3, -2, -1, 0, 1, 2, 3)} | {n // 2, 2 * n}): out += [bc * k + t for t in [b''] + [bytes([x]) for x in al]]
        rnd = random.Random(seed); out += [bytes(rnd.choice(al) for _ in range(rnd.randint(max(1, n - 3), n + 5))) for _ in range(60)]
        out += words(al, 60)
    elif kind == 'bytes':
        out = [b''] + [bytes([c]) for c in range(256)]
        acc = next((w for w in words(al[:4], 200) if w and ref.findall(w)), None)
        if acc is None:
            acc = b'xay'
        for i in range(len(acc)):
            out += [acc[:i] + bytes([c]) + acc[i + 1:] for c in range(256)]
        out += words(al[:4], 120)
    else:
        a = al[:4]
        if kind == 'lines': a = [c for c in al if c != NL][:2] + [NL]
        out = words(a, budget)
        if len(al) > 4:
            rnd = random.Random(7); out += [bytes(rnd.choice(al) for _ in range(rnd.randint(1, 8))) for _ in range(150)]
        rnd = random.Random(seed); out += [bytes(rnd.choice(a) for _ in range(rnd.randint(6, 14))) for _ in range(60)]
    return list(dict.fromkeys(out))

DRIVER = r'''
#include <algorithm>
#include <array>
#include <e_regex.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <tuple>
#include <utility>
#include <sys/mman.h>
using namespace e_regex;
typedef std::string_view SV;
static FILE* out;
static void put(int v) { fwrite(&v, 4, 1, out); }
struct sub { char* p; int n; };
static sub* subs; static char* area; static size_t asize;   // subjects touch an inaccessible page with their first or last byte
template<typename T> struct bits;
template<char... v> struct bits<e_regex::admitted_set<char, v...>> { static void make(unsigned char* b) { static const unsigned char c[sizeof...(v) + 1] = {(unsigned char)v...}; for (size_t i = 0; i < sizeof...(v); ++i) b[c[i] / 8] |= 1 << (c[i] % 8); } };
static bool eq(SV a, SV b) { return a.data() == b.data() && a.size() == b.size(); }
template<typename M, size_t... I> bool same(M& m, std::index_sequence<I...>) {
    // every way of reading a group gives the same text
    const SV x[] = {m[I]..., m.to_view(), *m, static_cast<SV>(static_cast<literal_string_view<>>(m))}, y[] = {m.get_group(I)...}, z[] = {m.template get<I>()...}, w[] = {std::get<I>(m)...};
    constexpr size_t G = sizeof...(I); bool ok = true;
    for (size_t k = 0; k < G; ++k) ok = ok && eq(x[k], y[k]) && eq(x[k], z[k]) && eq(x[k], w[k]);
    return ok && eq(x[0], x[G]) && eq(x[0], x[G + 1]) && eq(x[0], x[G + 2]);
}
static int* rec; static int nrec, cap;
static void push(int v) { if (nrec == cap) rec = (int*)realloc(rec, sizeof(int) * (cap = cap * 2 + 1024)); rec[nrec++] = v; }
static void group(SV v, const char* b, const char* e, size_t k) { if (k && !v.size() && (!v.data() || v.data() < b || v.data() > e)) { push(-1); push(-1); } else { push((int)(v.data() - b)); push((int)(v.data() - b + v.size())); } }
struct ops { size_t G, size, align; void (*init)(void*, SV, int); bool (*acc)(void*); bool (*next)(void*); SV (*get)(void*, unsigned); int (*full)(void*, SV); };
template<typename X> struct impl {
    using M = decltype(X::match(SV()));
    static void init(void* p, SV s, int how) { if (how) new (p) M(X()(s)); else new (p) M(X::match(s)); }
    static bool acc(void* p) { return ((M*)p)->is_accepted(); }
    static bool next(void* p) { return ((M*)p)->next(); }
    static SV get(void* p, unsigned k) { return (*(M*)p)[k]; }
    static int full(void* p, SV) {
        M& m = *(M*)p; int flag = 0; constexpr size_t G = nodes::group_getter<typename X::ast>::value + 1;
        if (m.size() != G - 1 || X::groups != G - 1 || M::groups() != G - 1 || std::tuple_size_v<M> != G) flag |= 1;
        if (static_cast<bool>(m) != m.is_accepted()) flag |= 2;
        if (!same(m, std::make_index_sequence<G>())) flag |= 4;
        return flag;
    }
    static int iter(void* p, void* q, SV sv) {
        int flag = 0; M& ref = *(M*)q; new (p) M(X::match(sv)); M& m2 = *(M*)p; new (q) M(X::match(sv));
        if (m2.end().is_accepted()) flag |= 128;
        { auto e2 = m2.end(); for (unsigned k = 0; k <= (unsigned)M::groups(); ++k) if (e2.get_group(k).size()) flag |= 128; }
        bool acc0 = m2.is_accepted(); SV v0 = m2.to_view(); size_t guard = 0; bool more = acc0;
        for (auto it = m2.begin(); it.is_accepted() && guard <= sv.size() + 2; ++it, ++guard) { if (!more || !eq(*it, ref.to_view())) { flag |= 256; break; } more = ref.next(); }
        if (more) flag |= 256;
        if (m2.is_accepted() != acc0 || !eq(m2.to_view(), v0)) flag |= 512;
        return flag;
    }
};
static int run1(const ops& o, int (*iter)(void*, void*, SV), const char* b, int n, bool record) {
    alignas(64) static char mem[1 << 16], mem2[1 << 16];
    if (o.size > sizeof mem) abort();
    SV sv(b, n); int flag = 0, guard = 0; void* m = mem; nrec = 0;
    o.init(m, sv, n & 1);
    while (o.acc(m)) {
        if (o.full) flag |= o.full(m, sv);
        if (guard < 400) for (unsigned k = 0; k < o.G; ++k) group(o.get(m, k), b, b + n, k);
        if (++guard > n + 3) { flag |= 8; break; }
        bool nx = o.next(m);
        if (nx != o.acc(m)) flag |= 16;
    }
    for (unsigned k = 0; k < o.G; ++k) if (!o.acc(m) && o.get(m, k).size() != 0) flag |= 32;
    if (!(flag & 8)) { if (o.next(m)) flag |= 64; if (o.acc(m)) flag |= 64; }
    if (iter && !(flag & 8)) flag |= iter(mem, mem2, sv);
    if (record) { put(flag); put(guard); put(nrec); fwrite(rec, 4, nrec, out); }
    return flag;
}
static int* snap; 
static void loop(const ops& o, int (*iter)(void*, void*, SV), int first, int last) {
    for (int i = first; i < last; ++i) {
        int n = subs[i].n; char* b = area + asize - n; memcpy(b, subs[i].p, n);
        int f2 = 0;
        memcpy(area, subs[i].p, n);           // flush left
        f2 = run1(o, nullptr, area, n, false); int k2 = nrec; snap = (int*)realloc(snap, sizeof(int) * (nrec + 1)); memcpy(snap, rec, sizeof(int) * nrec);
        memcpy(b, subs[i].p, n);              // flush right
        run1(o, iter, b, n, true);
        put(f2 | (k2 != nrec || memcmp(snap, rec, sizeof(int) * nrec) ? 1024 : 0));
    }
}
template<static_string P, bool full> void run(int first, int last) {
    using X = regex<P>; using T = impl<X>;
    put((int)X::ast::meta.minimum_match_size); put((int)X::ast::meta.maximum_match_size); put((int)X::groups);
    unsigned char adm[32] = {}; bits<typename decltype(X::ast::meta)::admission_set>::make(adm); fwrite(adm, 1, 32, out);
    ops o = {nodes::group_getter<typename X::ast>::value + 1, sizeof(typename T::M), 0, T::init, T::acc, T::next, T::get, nullptr};
    if constexpr (full) { o.full = T::full; loop(o, T::iter, first, last); }
    else loop(o, nullptr, first, last);
}
static void load(const char* f) {
    FILE* h = fopen(f, "rb"); int k, mx = 1; if (fread(&k, 4, 1, h) != 1) exit(3); subs = new sub[k + 1];
    for (int i = 0; i < k; ++i) { int n; if (fread(&n, 4, 1, h) != 1) exit(3); subs[i].n = n; subs[i].p = new char[n + 1]; if (n && fread(subs[i].p, 1, n, h) != (size_t)n) exit(3); if (n > mx) mx = n; }
    fclose(h); asize = (mx + 4095) / 4096 * 4096;
    char* a = (char*)mmap(nullptr, asize + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(a + 4096, asize, PROT_READ | PROT_WRITE); area = a + 4096;
}
'''
def cstr(p): return '"' + ''.join(chr(c) if 32 <= c < 127 and c not in (34, 92, 63) else '\\%03o' % c for c in p) + '"'

FLAGS = {1: ('size() and the tuple size do not agree', 'C12 C06'), 2: ('conversion to bool disagrees with is_accepted()', 'C12'), 4: ('the ways of reading a group disagree', 'C12'), 8: ('iteration does not end', 'C14 C03'),
         16: ('next() returns something else than is_accepted()', 'C12'), 32: ('a rejected result has a non-empty view', 'C12 C06'), 64: ('a match after the last one', 'C03 C14'), 128: ('end() is accepted or shows text', 'C12'), 256: ('begin()/++ and next() enumerate different matches', 'C12 C03'), 512: ('begin() changed the result', 'C12'), 1024: ('the same text at another address gives another result (something outside the subject is read)', 'C01 C02 C07')}

DEADLINE = [None]       # batches not begun by then are counted as skipped
def left(): return 1e9 if DEADLINE[0] is None else DEADLINE[0] - time.time()

def _job(a):
    wd, k, pats, tier, seed, san = a
    """compile and run one batch; -> list of mismatches (dict), stats"""
    t0 = time.time()
    if left() < 5: return [], dict(patterns=0, subjects=0, compared=0, skipped=len(pats)), 0.0
    refs = []; allsubs = []; ranges = []
    for p, tags, kind in pats:
        r = Ref(p); ss = subjects(p, kind, r, tier, seed); ranges.append((len(allsubs), len(allsubs) + len(ss))); allsubs += ss; refs.append(r)
    sf = '%s/s%d' % (wd, k)
    with open(sf, 'wb') as f:
        f.write(struct.pack('i', len(allsubs)))
        for s in allsubs: f.write(struct.pack('i', len(s)) + s)
    bad = []; stats = dict(patterns=len(pats), subjects=len(allsubs), compared=0, skipped=0)
    def compile_(idx, tag):
        src = '%s/c%d_%s.cpp' % (wd, k, tag)
        with open(src, 'w') as f:
            f.write(DRIVER)
            f.write('int main(int c, char** v) { load(v[1]); out = fopen(v[2], "wb");\n')
            for i in idx: f.write('put(-77); put(%d); fflush(out); run<%s, %s>(%d, %d);\n' % (i, cstr(pats[i][0]), 'true' if (i + k) % 6 == 0 else 'false', *ranges[i]))
            f.write('put(-78); fclose(out); }\n')
        cmd = [CXX, '-std=c++23', '-I' + build.SRC, '-w', '-O0'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if san else []) + [src, '-o', src[:-4]]
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(1, min(150 if len(idx) > 1 else 60, left())), preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30)))
        except subprocess.TimeoutExpired: return src[:-4], None, ''
        msg = r.stdout.decode(errors='replace')
        return src[:-4], None if r.returncode and ('memory exhausted' in msg or 'out of memory' in msg or 'Killed' in msg) else r.returncode, msg
    todo = [list(range(len(pats)))]
    while todo:
        idx = todo.pop()
        if left() < 5: stats['skipped'] += len(idx); continue
        tag = '_'.join(map(str, (idx[0], idx[-1])))
        t1 = time.time(); exe, rc, msg = compile_(idx, tag)
        if 'CORPUS_TIMES' in os.environ: print('%.1f' % (time.time() - t1), rc, [pats[i][0] for i in idx][:30], file=sys.stderr)
        if rc is None and len(idx) == 1: stats['skipped'] += 1; continue       # too big for the compiler, not a verdict
        if rc is None or rc:
            if len(idx) == 1:
                bad.append(dict(pattern=pats[idx[0]][0], tags=sorted(pats[idx[0]][1]), what='the pattern does not compile any more', got=msg[-800:], kind='compile'))
            else: h = (len(idx) + 3) // 4; todo += [idx[x:x + h] for x in range(0, len(idx), h)]
            continue
        of = exe + '.out'
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
        err = ''; trc = 0
        try:
            r = subprocess.run(['timeout', '-s', 'KILL', '60', exe, sf, of], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env); err = r.stderr.decode(errors='replace'); trc = r.returncode
        except Exception as ex: err = repr(ex); trc = 99
        data = open(of, 'rb').read() if os.path.exists(of) else b''
        os.unlink(exe)
        if os.path.exists(of): os.unlink(of)
        pos = 0; cur = None
        def geti():
            nonlocal pos
            v = struct.unpack_from('i', data, pos)[0]; pos += 4; return v
        try:
            while True:
                m = geti()
                if m == -78: cur = None; break
                
                if m != -77: raise EOFError
                i = geti(); cur = (i, None); ref = refs[i]; p, tags, kind = pats[i]
                mn, mx, ng = geti() & 0xffffffff, geti() & 0xffffffff, geti()
                adm = data[pos:pos + 32].ljust(32, b'\0'); pos += 32; admit = frozenset(c for c in range(256) if adm[c // 8] >> (c % 8) & 1)
                if ng != ref.ng: bad.append(dict(pattern=p, tags=['C06', 'C12', 'C13'] + (sorted(tags) if 'WIT' in tags else []), what='number of groups', got=ng, want=ref.ng))
                fs, nullable = ref.first()
                if ref.flat() and not any(k[0] in '^$' or k[0] == 'rep' and k[3] == 0 for b in ref.ast for k in b) and not nullable and admit != fs:
                    bad.append(dict(pattern=p, tags=['C09'] + (['C08'] if not fs <= admit else []), what='set of first characters', got=sorted(admit)[:40], want=sorted(fs)[:40]))
                seen = 0
                for j in range(*ranges[i]):
                    q = allsubs[j]; cur = (i, q)
                    flag, cnt, nrec = geti(), geti(), geti(); rec = struct.unpack_from('%di' % nrec, data, pos); pos += 4 * nrec; flag |= geti()
                    stats['compared'] += 1
                    G = ng + 1; got = [tuple(rec[x:x + 2 * G]) for x in range(0, nrec, 2 * G)]
                    for fb, (w, tg) in FLAGS.items():
                        if flag & fb: bad.append(dict(pattern=p, subject=q, tags=sorted(set(tg.split())), what=w))
                    if len(q) > 5000 and p in (b'a*', b'a+?b', b'(a|b)*c', b'a++') or len(q) > 60000:
                        want = long_expect(p, q)
                    else:
                        want = []
                        for s, e, g in ref.findall(q, 400):
                            # an unset group reads as an empty view
                            want.append((s, e) + tuple(v for b in g for v in b))
                    if want is None: stats['skipped'] += 1; continue
                    norm = lambda l: [x[:2] + tuple(v for b in zip(x[2::2], x[3::2]) for v in (b if b[0] != b[1] else (0, 0))) for x in l]
                    if got != want and norm(got[:400]) != norm(want[:400]):
                        gs = [(x[0], x[1]) for x in got]; wsx = [(x[0], x[1]) for x in want]
                        what = 'capture groups' if gs == wsx else 'matches'
                        tg = set(tags) if what == 'matches' or 'WIT' in tags else {'C06', 'C12', 'C05', 'C13'} | (set(tags) & {'C04', 'C08'})
                        if what == 'matches' and not got and not want: tg = {'C03'}
                        bad.append(dict(pattern=p, subject=q, tags=sorted(tg), what=what, got=got[:6], want=want[:6])); 
                    for x in got:
                        ln = x[1] - x[0]
                        if ln < mn or (ln > mx and mx != 0xffffffff): bad.append(dict(pattern=p, subject=q, tags=['C08'], what='announced match size', got=ln, want=(mn, mx)))
                        if ln > 0 and not (0 <= x[0] < len(q) and q[x[0]] in admit): bad.append(dict(pattern=p, subject=q, tags=['C08', 'C09'], what='a match starts with a character outside the announced set', got=x[0]))
                    if len(bad) > 60: break
                if len(bad) > 60: break
        except (struct.error, EOFError): pass
        if trc and len(bad) <= 60:
            i, q = cur if cur else (idx[0], None)
            hang = trc in (137, -9)
            san_ = [l for l in err.splitlines() if 'ERROR:' in l or 'runtime error' in l or 'SUMMARY' in l]
            rest = idx[idx.index(i) + 1:]
            after = None
            if q is not None:
                # the record that was being produced: the subject after the last complete one
                js = list(range(*ranges[i])); done_ = [j for j in js if allsubs[j] == q]
            bad.append(dict(pattern=pats[i][0], subject=q, tags=sorted({'C14', 'C03'} if hang else {'C01'} | GEN), what='does not terminate' if hang else 'the program stops with an error while matching (the failing subject is this one or the next)', got='; '.join(san_)[:400] or 'exit code %s' % trc))
            if rest: todo.append(rest)
    return bad, stats, time.time() - t0

def long_expect(p, q):
    """expected matches on very long subjects, where the reference would be slow; None = not compared"""
    n = len(q) - len(q.rstrip(b'bc')); a = len(q) - n
    if q[a:] not in (b'', b'b', b'c'): return None
    t = p.decode('latin1')
    import re as R
    m = R.fullmatch(r'a\{(\d+),\}', t)
    if m: return [(0, a)] if a >= int(m.group(1)) else []
    m = R.fullmatch(r'\[ab\]\{0,(\d+)\}', t)
    if m:
        mx = int(m.group(1)); L = a + (q[a:] == b'b'); out = []; s = 0
        while s < L: e = min(L, s + mx); out.append((s, e)); s = e
        return out + [(len(q), len(q))] if q[a:] != b'c' else None
    if t == 'a++': return [(0, a)] if a else []
    if t == 'a*':
        out = [(0, a)] if a else []
        return out + [(k, k) for k in range(a + (0 if a else 0), len(q) + 1)]
    if t == 'a+?b': return [(0, a + 1)] if a and q[a:] == b'b' else [] if a == 0 or a > 3000 and q[a:] == b'' and False else None if q[a:] != b'b' else []
    return None

def kind_of(p):
    """subjects for a pattern that a failed obligation names: with a large count, also long ones"""
    n = max([int(y) for x in re.findall(rb'\{(\d+)(?:,(\d*))?\}', p) for y in x if y] + [0])
    return 'both%d' % n if 3 < n < 2000 else 'bytes' if b'[' in p and len(p) < 14 else 'enum'

def literals():
    """numbers written in the sources: counts and lengths around them, for the search of a failing input"""
    ns = set()
    for d, _, fs in os.walk(build.SRC):
        for f in fs:
            t = re.sub(rb'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', b' ', open(os.path.join(d, f), 'rb').read(), flags=re.S)
            for x in re.findall(rb"(?<![\w.'])(0[xX][0-9a-fA-F]+|\d[\d']*)[uUlLzZ]*(?![\w.'])", t):
                try: n = int(x.replace(b"'", b''), 0 if x[:2] in (b'0x', b'0X') else 10)
                except ValueError: continue
                if 3 < n < 100000: ns.add(n)
    out = []
    for n in sorted(ns)[:40]:
        for k in (n, n + 1):
            c = 'count%d' % (k + 1)
            if k < 6000: out += [(p, c) for p in ('a{%d,}' % (k + 1), 'a{%d,%d}b' % (k, k + 2), 'a{%d,%d}?b' % (k, k + 2), 'a{%d}' % (k + 1), '(a{%d,}?)' % (k + 1), '(?:a|b){%d,}+' % (k + 1), '(a){%d,%d}a' % (k, k + 2), '[ab]{0,%d}' % k, '(?:a|b?){%d}' % (k + 1), '(?:a|ab){%d,}?c' % (k + 1), '(?:(a)|b){%d}c' % (k + 1), '^a{%d,%d}?ac' % (k, k + 1), '^a{%d,%d}ac' % (k, k + 1), '^(?:a|b){%d,%d}?bc' % (k, k + 1), '^(a{%d,%d}?)ac' % (k, k + 1), '^(?:a|b){%d,%d}[ab]c' % (k, k + 1), '^(a){%d,%d}?(a)c' % (k + 1, k + 2), '^a{%d,%d}+a?c' % (k, k + 1), '^(?:aa?){%d,%d}?c' % (k, k + 1))]
            out += [(p, c) for p in ('a*', 'a*?b', '(a|b)*c', 'a*+b', '(a*)(b)', '[ab]+?$')] if k == n else []
    return out


def run(tier='quick', seed=1, select=None, jobs=None, san=False, batch=None, only=None, extra=()):
    """-> (mismatches, stats). select: function(tags) -> bool"""
    jobs = jobs or os.cpu_count() or 8
    ps = [x for x in patterns(tier) if (select is None or select(x[1])) and (only is None or x[0] in only)]
    have = {x[0] for x in ps}; known = {x[0]: x for x in patterns(tier)} if extra else {}
    for x in extra:
        # patterns named by a failed obligation, for the property it belongs to
        p = x[0].encode('latin1') if isinstance(x[0], str) else x[0]
        if p in have: continue
        try: Ref(p)
        except Exception: continue
        if p[:1] in b'*+?{' or len(p) > 60 or sum(p.count(c) for c in b'*+?{') > 12: continue
        have.add(p); ps.append((p, frozenset(x[1]) | {'WIT'}, known[p][2] if p in known else x[2] if len(x) > 2 else kind_of(p)))
    size = batch or max(4, min(24, len(ps) // (jobs * 3) + 1))
    heavy = [x for x in ps if x[2].startswith('count')]; light = [x for x in ps if not x[2].startswith('count')]
    ps = heavy + light
    # spread the patterns, so that the batches cost about the same
    nb = max(1, (len(ps) + size - 1) // size); batches = [ps[i::nb] for i in range(nb)]
    wd = tempfile.mkdtemp(prefix='vc_')
    bad = []; stats = dict(patterns=0, subjects=0, compared=0, skipped=0)
    try:
        with mp.get_context('fork').Pool(jobs) as pool:
            for b, s, w in pool.imap_unordered(_job, [(wd, k, x, tier, seed, san) for k, x in enumerate(batches) if x], 1):
                bad += b
                for key in stats: stats[key] += s[key]
    finally: shutil.rmtree(wd, ignore_errors=True)
    return bad, stats

if __name__ == '__main__':
    t = time.time(); tier = sys.argv[1] if len(sys.argv) > 1 else 'quick'
    b, s = run(tier, san='SAN' in os.environ)
    for x in b[:30]: print({k: (str(v)[:160]) for k, v in x.items()})
    print(len(b), 'mismatches', s, '%.0fs' % (time.time() - t))
