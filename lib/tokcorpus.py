"""Bounded supplement for the tokenizer: the real code, through its public API, against a reference written from the property."""
import os, sys, struct, random, subprocess, tempfile, shutil, time, itertools
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build
from ref import Ref
from corpus import cstr, CXX
TY = [11, 3, 42, 7, 0, 19]
TAGS = ['C11']

def configs(tier):
    """a list of definitions ('T' or 'S', pattern), in order"""
    T, S = lambda p: ('T', p), lambda p: ('S', p)
    out = [
        [T(b'[a-z]+'), T(rb'\d+'), S(rb'\s')], [T(b'[a-z]+'), T(b'if'), S(b' +')], [T(b'if'), T(b'[a-z]+'), S(b' +')], [T(b'a'), T(b'ab'), T(b'abc'), S(b' '), S(b'  ')],
        [T(b'abc'), T(b'ab'), T(b'a'), S(b'  '), S(b' ')], [S(b','), S(b', *'), T(b'a|b|ab')], [T(b'ab|a'), T(b'b+'), S(b' *')], [T(b'x*'), S(b',')], [T(b'x*'), T(b'y'), S(b',')],
        [T(b'a+?'), T(b'a+'), S(b' ')], [T(b'a+?b'), T(b'[ab]'), S(b' ')], [T(b'(a|b)+'), T(b'c{2}'), S(b' |,')], [S(b'-+'), T(b'a-a'), T(b'a'), S(b'-a')],
        [T(b'a'), S(b'a')], [T(b'aa'), S(b'a')], [T(b'[^ ]+'), S(b' ')], [T(rb'\w+'), T(rb'\W'), S(b' ')], [T(b'a$'), T(b'a'), S(b' ')], [T(b'^a'), T(b'b'), S(b' ')], [T(b'^ab|^b'), T(b'a|^c'), S(b' |^,')], [T(b'c|^d'), T(b'(^a|b)+'), S(b'^ +')], [S(b'^ '), T(b'a'), S(b',')],
        [T(b'a(?=,)'), T(b'b'), S(b',')] if False else [T(b'a,?'), T(b'b'), S(b',')], [T(b'"[^"]*"'), T(b'[a-z]+'), S(b' ')], [T(b'0x[0-9a-f]+'), T(b'[0-9]+'), T(b'[a-z]+'), S(b' +')],
        [T(b'a.'), T(b'.'), S(b' ')], [T(b'(ab)+'), T(b'(ab)*a'), S(b' ')], [T(b'a'), T(b'a'), T(b'a'), S(b' ')], [T(b'b'), T(b'a'), T(b'[ab]'), S(b' ')],
        [T(b'[ab]'), T(b'b'), T(b'a'), S(b' ')], [S(b' '), T(b'a'), S(b','), T(b'b'), S(b' ,'), T(b'ab')], [T(b'a*b?'), S(b'c|')] if False else [T(b'a*b?'), S(b'c')],
        [T(b'a'), S(b' *')], [T(b'a'), S(b'(?:,| )+')], [T(rb'\+|-'), T(rb'\d'), S(b' ')], [T(b'a{2,3}'), T(b'a{1}'), S(b'a{4}')], [T(b'aaa'), T(b'aa'), T(b'a'), S(b'aa'), S(b'a')],
    ]
    if tier == 'thorough':
        rnd = random.Random(7); ps = [b'a', b'b', b'ab', b'ba', b'aa', b'a+', b'b*', b'a?b', b'[ab]', b'(a|b)c', b'c+', b'[^a]', b'a|bc', b'a+?', b'(?:ab)+', b'a{2}', b'.b']
        ss = [b' ', b' +', b',', b', *', b' |,', b'c', b'  ', b',,?']
        for _ in range(120):
            d = [T(rnd.choice(ps)) for _ in range(rnd.randint(1, 4))] + [S(rnd.choice(ss)) for _ in range(rnd.randint(1, 3))]
            rnd.shuffle(d); out.append(d)
    return out

def subjects(defs, tier, seed):
    lit = sorted({bytes([c]) for k, p in defs for c in p if chr(c).isalnum() or c in b' ,-'} | {b' '} | {b'a', b'\n'})
    rnd = random.Random(repr(defs) + str(seed)); k = 5 if len(lit) <= 4 else 4 if len(lit) <= 6 else 3 if len(lit) < 12 else 2
    out = [b''.join(x) for n in range(0, k + (tier == 'thorough')) for x in itertools.product(lit, repeat=n)]
    rnd.shuffle(out); out = out[:1500 if tier != 'thorough' else 8000] + [b'']
    seps = [p for kk, p in defs if kk == 'S']
    for _ in range(300): out.append(b''.join(rnd.choice(lit) for _ in range(rnd.randint(3, 14))))
    for _ in range(200): out.append(b' '.join(b''.join(rnd.choice(lit) for _ in range(rnd.randint(1, 4))) for _ in range(rnd.randint(1, 5))))
    return sorted(set(out))

def expect(refs, q):
    def here(r, pos):
        m = r.findall(q[pos:], 1)
        return m[0][1] if m and m[0][0] == 0 else 0
    pos = 0; out = []
    while True:
        sep = max([here(r, pos) for k, r, t in refs if k == 'S'], default=0)
        if not sep and pos: break
        cur = pos + sep
        best = 0; ty = None
        for k, r, t in refs:
            if k == 'T':
                l = here(r, cur)
                if l > best: best, ty = l, t
        if not best: break
        out.append((cur, cur + best, ty)); pos = cur + best
    return out

DRIVER = '''#include <algorithm>
#include <array>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "e_regex.hpp"
#include "tokenization/tokenizer.hpp"
using namespace e_regex;
enum class T : int {};
static FILE* out; static void put(int v) { fwrite(&v, 4, 1, out); }
template<typename TZ> void run(const char* f, int id) {
    FILE* h = fopen(f, "rb"); int k, n; if (fread(&k, 4, 1, h) != 1) exit(3);
    put(-77); put(id);
    for (int i = 0; i < k; ++i) {
        if (fread(&n, 4, 1, h) != 1) exit(3);
        char* p = (char*)malloc(n ? n : 1); if (n && fread(p, 1, n, h) != (size_t)n) exit(3);
        std::string_view v {p, (size_t)n}; int flag = 0; std::vector<std::array<int, 3>> a, b; 
        TZ tz; auto it = tz(v);
        for (auto t : it) { a.push_back({(int)(t.value.begin() - p), (int)(t.value.end() - p), (int)t.type}); if ((int)a.size() > n + 2) { flag |= 8; break; } }
        auto x = TZ::match(v); auto y = x;
        while (x && (int)b.size() <= n + 2) { b.push_back({(int)(x->value.begin() - p), (int)((*x).value.end() - p), (int)x->type}); if (x == x.end()) flag |= 1; if (!(x != x.end())) flag |= 1; auto& z = ++x; if (&z != &x) flag |= 2; if (x == y && x) flag |= 4; }
        if (!(x == x.end()) && !v.empty()) flag |= 1;
        if (a != b) flag |= 16;
        put(flag); put((int)a.size()); for (auto& t : a) for (int w : t) put(w);
        free(p);
    }
    fclose(h);
}
'''
FLAG = {1: 'comparison with end()', 2: '++ returns another object', 4: 'a step that does not advance', 8: 'iteration does not end', 16: 'range-for and explicit iteration differ'}

def _job(a):
    wd, k, defs, tier, seed = a
    ty = TY[:]; n = iter(TY * 4); ds = [(kk, p, next(n) if kk == 'T' else None) for kk, p in defs]
    refs = [(kk, Ref(p), t) for kk, p, t in ds]
    name = b', '.join((b'token<%d> ' % t if kk == 'T' else b'separator ') + p for kk, p, t in ds)
    ss = subjects(defs, tier, seed); sf = '%s/t%d' % (wd, k)
    with open(sf, 'wb') as f:
        f.write(struct.pack('i', len(ss)))
        for q in ss: f.write(struct.pack('i', len(q)) + q)
    d = ', '.join('token{(T)%d, %s}' % (t, cstr(p)) if kk == 'T' else 'separator{%s}' % cstr(p) for kk, p, t in ds)
    src = sf + '.cpp'; exe = sf + '.x'; of = sf + '.out'
    open(src, 'w').write(DRIVER + 'int main(int, char** v) { out = fopen(v[2], "wb"); using X = tokenization::tokenizer<%s>; run<X>(v[1], %d); put(-78); fclose(out); }\n' % (d, k))
    bad = []; stats = dict(patterns=1, subjects=len(ss), compared=0)
    def prog(q): return '#include <algorithm>\n#include <array>\n#include <cstdio>\n#include <string_view>\n#include "e_regex.hpp"\n#include "tokenization/tokenizer.hpp"\nusing namespace e_regex;\nenum class T : int {};\nint main() { std::string_view v {%s, %d}; using X = tokenization::tokenizer<%s>; for (auto t : X {}(v)) printf("%%ld..%%ld type %%d\\n", (long)(t.value.begin() - v.data()), (long)(t.value.end() - v.data()), (int)t.type); }\n' % (cstr(q), len(q), d)
    r = subprocess.run([CXX, '-std=c++23', '-I' + build.SRC, '-w', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', src, '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: return [dict(pattern=name, tags=TAGS, what='the tokenizer does not compile any more', got=r.stdout.decode(errors='replace')[-600:])], stats
    r = subprocess.run(['timeout', '-s', 'KILL', '60', exe, sf, of], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    data = open(of, 'rb').read() if os.path.exists(of) else b''
    pos = 8; q = None
    def geti():
        nonlocal pos
        v = struct.unpack_from('i', data, pos)[0]; pos += 4; return v
    try:
        for q in ss:
            fl = geti(); c = geti(); got = [tuple(geti() for _ in range(3)) for _ in range(c)]
            stats['compared'] += 1
            for b, w in FLAG.items():
                if fl & b: bad.append(dict(pattern=name, subject=q, tags=TAGS + (['C14'] if b & 12 else []), what=w, program=prog(q)))
            want = expect(refs, q)
            if got != want: bad.append(dict(pattern=name, subject=q, tags=TAGS, what='tokens (begin, end, type)', got=got[:8], want=want[:8], program=prog(q)))
            if len(bad) > 30: break
    except struct.error: pass
    if r.returncode and len(bad) <= 30:
        san = [l for l in r.stderr.decode(errors='replace').splitlines() if 'ERROR:' in l or 'runtime error' in l]
        bad.append(dict(pattern=name, subject=q, tags=TAGS + (['C14'] if r.returncode in (137, -9) else ['C01']), what='does not terminate' if r.returncode in (137, -9) else 'the program stops with an error', got='; '.join(san)[:300] or r.returncode, program=prog(q or b'')))
    return bad, stats

def run(tier='quick', seed=1):
    wd = tempfile.mkdtemp(prefix='vk_'); bad = []; stats = dict(patterns=0, subjects=0, compared=0)
    try:
        with mp.get_context('fork').Pool(os.cpu_count() or 8) as pool:
            for b, s in pool.imap_unordered(_job, [(wd, k, d, tier, seed) for k, d in enumerate(configs(tier))], 1):
                bad += b
                for k in stats: stats[k] += s[k]
    finally: shutil.rmtree(wd, ignore_errors=True)
    return bad, stats

if __name__ == '__main__':
    t = time.time(); b, s = run(sys.argv[1] if len(sys.argv) > 1 else 'quick')
    for x in b[:12]: print({k: str(v)[:200] for k, v in x.items() if k != 'program'})
    print(len(b), 'mismatches', s, '%.0fs' % (time.time() - t))
