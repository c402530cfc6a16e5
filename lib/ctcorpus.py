"""Compile time and run time (C02). No function of the library may ask in which of the two it is evaluated (a token of the preprocessed
sources that asks is an open question, not a verdict); bounded supplement: the same calls, evaluated by the compiler and at run time."""
import os, sys, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build
BACKEND = 'tokens of the preprocessed sources (clang -E)'
ASKS = ('is_constant_evaluated', '__builtin_is_constant_evaluated', 'is_constant_p', '__builtin_constant_p')

def asks():
    """places in the library where the kind of evaluation is asked for -> [(place, token)] or None"""
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(build.SRC) for f in fs if f.endswith(('.hpp', '.h', '.cpp', '.ipp')))
    found = []
    wd = tempfile.mkdtemp(prefix='vt_')
    try:
        with open(wd + '/a.cpp', 'w') as o:
            o.write('#include <algorithm>\n#include <array>\n#include <utility>\n#include <tuple>\n#include <string_view>\n')
            for f in files: 
                if f.endswith(('.hpp', '.h')): o.write('#include "%s"\n' % f)
        r = subprocess.run([build.CLANG, '-std=c++23', '-I' + build.SRC, '-E', wd + '/a.cpp'], capture_output=True, text=True, errors='replace')
    finally: shutil.rmtree(wd, ignore_errors=True)
    if r.returncode: return None
    cur, prev = '', ''
    for l in r.stdout.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m: cur = m.group(1); continue
        if not os.path.realpath(cur).startswith(os.path.realpath(build.SRC) + os.sep): continue
        l = re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'', '""', l)
        for t in re.findall(r'\w+|\S', l):
            if t in ASKS or t == 'consteval' and prev in ('if', '!'): found.append((os.path.relpath(cur, build.SRC), t))
            prev = t
    return found

def obligations():
    """[(name, holds, output)], one per source file"""
    a = asks(); out = []
    for d, _, fs in sorted(os.walk(build.SRC)):
        for f in sorted(fs):
            if not f.endswith(('.hpp', '.h')): continue
            n = os.path.relpath(os.path.join(d, f), build.SRC); hit = [t for g, t in a or [] if g == n]
            out.append(('%s does not ask whether it is evaluated at compile time' % n, a is not None and not hit, 'the sources cannot be preprocessed together' if a is None else ', '.join(hit)))
    return out

def at_compile_time(tier, limit):
    """Where the sources ask which kind of evaluation it is: decide C02 of the code as a constant evaluation sees it. The sources are copied and the
    question is replaced by its answer there, nothing else is touched. -> (exit code or None, text)"""
    wd = tempfile.mkdtemp(prefix='vt_')
    try:
        shutil.copytree(build.SRC, wd + '/src')
        for d, _, fs in os.walk(wd + '/src'):
            for f in fs:
                if not f.endswith(('.hpp', '.h')): continue
                q = os.path.join(d, f); t = open(q, errors='surrogateescape').read()
                t = re.sub(r'\bif\s*(?:!|not\b)\s*consteval\b', 'if constexpr (false)', t); t = re.sub(r'\bif\s+consteval\b', 'if constexpr (true)', t)
                t = re.sub(r'\b(?:(?:::)?\s*std\s*::\s*)?(?:__builtin_)?is_constant_evaluated\s*\(\s*\)', 'true', t)
                open(q, 'w', errors='surrogateescape').write(t)
        r = subprocess.run(['timeout', '-k', '5', str(int(limit)), sys.executable, os.path.join(os.path.dirname(HERE), 'check.py'), 'C02', tier], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=wd, VERIF_CT='1'))
        return r.returncode, r.stdout
    except OSError as e: return None, repr(e)
    finally: shutil.rmtree(wd, ignore_errors=True)

HEAD = r'''
#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string_view>
#include <utility>
#include <e_regex.hpp>
using namespace e_regex; typedef std::string_view V;
struct R { int n = 0; int v[40] = {}; constexpr void put(long x) { if (n < 40) v[n++] = (int)x; } };
constexpr const char* at(V t, V s) { return t.size() ? t.data() : s.data(); }
template<static_string P> constexpr R eval(V s) {
    R r; auto m = regex<P>::match(s); int k = 0;
    for (bool ok = m.is_accepted(); ok && k < 8; ok = m.next(), ++k) {
        r.put(1);
        [&]<unsigned... I>(std::integer_sequence<unsigned, I...>) { ((r.put(at(m[I], s) - s.data()), r.put((long)V(m[I]).size())), ...); }(std::make_integer_sequence<unsigned, regex<P>::groups + 1>());
    }
    r.put(0); r.put(m.is_accepted()); return r;
}
static char* area; static long cmp = 0;
template<size_t N> static void show(const R& r) { for (int k = 0; k < r.n; ++k) printf("%d ", r.v[k]); }
#define ONE(K, P, S) { constexpr R c = eval<P>(V(S, sizeof(S) - 1)); size_t n = sizeof(S) - 1; char* b = (char*)malloc(n + 1); memcpy(b, S, n); R r = eval<P>(V(b, n)); free(b); ++cmp; \
    if (r.n != c.n || memcmp(r.v, c.v, sizeof(int) * r.n)) { printf("BAD %d|", K); show<0>(c); printf("|"); show<0>(r); printf("\n"); } }
struct T { short v[256] = {}; };
template<static_string P> constexpr T table() {
    T t;
    for (int c = 0; c < 256; ++c) { char b[3] = {'a', (char)c, 'b'}; auto m = regex<P>::match(V(b, 3)); auto n = regex<P>::match(V(b + 1, 1));
        t.v[c] = (short)(m.is_accepted() ? 1 + (at(V(m[0]), V(b, 3)) - b) + 4 * V(m[0]).size() : 0) * 32 + (n.is_accepted() ? 1 + V(n[0]).size() : 0); }
    return t;
}
#define TAB(K, P) { constexpr T c = table<P>(); volatile bool yes = true; T r; if (yes) r = table<P>(); cmp += 256; \
    for (int k = 0; k < 256; ++k) if (c.v[k] != r.v[k]) { printf("TAB %d %d|%d|%d\n", K, k, c.v[k], r.v[k]); break; } }
'''
SUBS = [b'', b'a', b'b', b'ab', b'ba', b'aab', b'abab', b'xaaby', b'caab\n', b'abc abd', b'\na', b'aaaa', b'\xe9b\x00a', b'a1_ Z-9', b'bbbaac', b'a\nb']
PATS = ['a', '.', '\\w', '\\W+', '\\d', '\\D', '\\s', '[ab]', '[^ab]', '[a-c]+', '\\x41', '^a', 'a$', '^', '$', 'a*', 'a+', 'a?', 'a*?', 'a+?', 'a??', 'a*+', 'a++', 'a?+', 'a{2}', 'a{2,}', 'a{1,2}', 'a{1,2}?', 'a{1,2}+',
        'a*b', 'a*ab', 'a*?b', 'a+?ab', 'a{1,3}?b', '(a)', '(a)|b', '(a|ab)(c|b)', '(a*)(a)', '((a)b)*', '(a+?)a', '(?:a|b)+', '(?:(a)|(b))+', '(a*)*', '(?:a?)*b', '(a?)+', '(?:ab)*', '(?:ab)*?c', '(?:ab)++', '(a|b){2,}', '(a|b)*?c', 'ab|a|b',
        'x(a+)(b)y', '[^\\n]+', '(\\w+) (\\w+)', '(?:^a)*b', '(?:a$)+', '()?a' , '\\.', 'a{0}b', '(a){0,2}b', '[a-z]*[0-9]', '(a{2,}?)b', '(?:a|b)?+c', '(b|a+)c?', 'b*$', '(a|(b|(c)))+']

TABS = ['.', '\\w', '\\W', '\\d', '\\D', '\\s', '\\S', '[ab]', '[^ab]', '[a-z]', '[^a-z]', '^.', '.$', 'a.b', '\\n', '\\x41', '[a-cx-z]', '[^\\w]', '(.)b', '.*', '.+?b', '$', '^', 'a[^b]', '[\\w.-]', '(?:a|.)+']

def lit(b): return '"' + ''.join('\\%03o' % c for c in b) + '"'

def run(tier='quick', seed=1):
    """bounded supplement -> (mismatches, stats)"""
    from corpus import cstr
    from ref import Ref
    bad = []; stats = dict(patterns=0, subjects=len(SUBS), compared=0)
    ps = []
    for p in PATS + [x for x in TABS if x not in PATS]:
        try: Ref(p.encode('latin1')); ps.append(p.encode('latin1'))
        except Exception: pass
    if tier == 'thorough':
        import corpus, hashlib
        more = sorted((x[0] for x in corpus.patterns('quick') if len(x[0]) < 16 and x[2] == 'enum'), key=lambda x: hashlib.sha256(x).hexdigest()); ps += [x for x in more if x not in ps][:300]
    stats['patterns'] = len(ps)
    wd = tempfile.mkdtemp(prefix='vt_')
    def job(k, idx):
        f = '%s/t%d.cpp' % (wd, k)
        with open(f, 'w') as o:
            o.write(HEAD)
            for i in idx:
                o.write('static void f%d() {\n' % i)
                for j, s in enumerate(SUBS): o.write('ONE(%d, %s, %s)\n' % (i * 100 + j, cstr(ps[i]), lit(s)))
                if ps[i].decode('latin1') in TABS: o.write('TAB(%d, %s)\n' % (i, cstr(ps[i])))
                o.write('}\n')
            o.write('int main() {' + ''.join('f%d();' % i for i in idx) + ' printf("DONE %ld\\n", cmp); }\n')
        r = subprocess.run(['timeout', '-s', 'KILL', '200', build.CXX if hasattr(build, 'CXX') else 'g++', '-std=c++23', '-I' + build.SRC, '-w', '-O0', f, '-o', f[:-4]], capture_output=True)
        if r.returncode:
            msg = r.stderr.decode(errors='replace')
            if len(idx) == 1:
                return [dict(pattern=ps[idx[0]], tags=['C02'], what='cannot be evaluated at compile time any more', got=msg[-500:], kind='compile')] if 'constant' in msg else [], 0
            h = len(idx) // 2; a, b = job(k * 2 + 1000, idx[:h]), job(k * 2 + 1001, idx[h:]); return a[0] + b[0], a[1] + b[1]
        r = subprocess.run(['timeout', '-s', 'KILL', '60', f[:-4]], capture_output=True); out = []; n = 0
        for l in r.stdout.decode(errors='replace').splitlines():
            if l.startswith('BAD '):
                w, c, q = l[4:].split('|'); i, j = divmod(int(w), 100)
                out.append(dict(pattern=ps[i], subject=SUBS[j], tags=['C02'], what='compile time and run time differ', got='run time: ' + q, want='compile time: ' + c))
            if l.startswith('TAB '):
                w, c, q = l[4:].split('|'); i, j = map(int, w.split()); out.append(dict(pattern=ps[i], subject=b'a' + bytes([j]) + b'b', tags=['C02'], what='compile time and run time differ', got='run time: ' + q, want='compile time: ' + c))
            if l.startswith('DONE'): n = int(l.split()[1])
        return out, n
    try:
        size = 8
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            for o, n in ex.map(lambda a: job(*a), [(k, list(range(k, len(ps), (len(ps) + size - 1) // size))) for k in range((len(ps) + size - 1) // size)]): bad += o; stats['compared'] += n
    finally: shutil.rmtree(wd, ignore_errors=True)
    return bad, stats

if __name__ == '__main__':
    import time
    t = time.time(); print(asks()); b, s = run(sys.argv[1] if len(sys.argv) > 1 else 'quick')
    print([{k: str(v)[:200] for k, v in x.items()} for x in b[:6]], len(b), s, '%.0fs' % (time.time() - t))
