"""Bounded supplement for texts themselves: literal_string_view built in every way, compared with every other text of a small
language, inside one buffer and in different ones, through the real class. Also decomposition of results with every group count."""
import os, sys, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build
PROG = r'''
#include <algorithm>
#include <array>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <e_regex.hpp>
#include <utilities/literal_string_view.hpp>
using namespace e_regex;
typedef literal_string_view<char> L; typedef std::string_view V;
static int bad = 0; static long n = 0;
static void no(const char* what, V a, V b) { if (bad++ < 20) { printf("BAD %s|", what); for (char c : a) printf("%02x", (unsigned char)c); printf("|"); for (char c : b) printf("%02x", (unsigned char)c); printf("\n"); } }
static void pair(L x, L y, V a, V b) {
    ++n; bool want = a == b;
    if ((x == y) != want || (y == x) != want) no("comparing two views", a, b);
    if ((x != y) == want) no("comparing two views with !=", a, b);
}
static void one(L x, V a) {
    ++n;
    if ((size_t)x.size() != a.size() || x.empty() != a.empty() || x.end() - x.begin() != (long)a.size()) no("size of a view", a, a);
    V v = x; if (v.size() != a.size() || v != a) no("conversion of a view to string_view", a, v);
    std::string t; for (char c : x) t += c; if (t != a) no("characters of a view", a, t);
}
template<static_string P> static void groups(V s) {
    // decomposition, tuple access, indices and groups agree, for results without a match too
    auto m = regex<P>::match(s);
    [&]<size_t... I>(std::index_sequence<I...>) {
        V a[] = {std::get<I>(m)...}, b[] = {m[I]...}, c[] = {m.get_group(I)...}, d[] = {m.template get<I>()...};
        for (size_t k = 0; k < sizeof...(I); ++k) { ++n; if (a[k] != b[k] || b[k] != c[k] || c[k] != d[k]) no("reading a group", s, b[k]); if (!m.is_accepted() && a[k].size()) no("a rejected result shows text", s, a[k]); }
    }(std::make_index_sequence<std::tuple_size_v<decltype(m)>>());
    std::vector<std::string> x, y; auto r = regex<P>::match(s);
    for (size_t g = 0; r.is_accepted() && g < s.size() + 2; ++g) { std::string t; for (unsigned k = 0; k <= r.size(); ++k) t += std::string(V(r[k])) + ";"; x.push_back(t); if (!r.next()) break; }
    auto z = regex<P>::match(s); size_t g = 0;
    for (auto i = z.begin(); i.is_accepted() && g < s.size() + 3; ++i, ++g) { std::string t; for (unsigned k = 0; k <= i.size(); ++k) t += std::string(V(i[k])) + ";"; y.push_back(t); }
    ++n; if (x != y) no("++ and next() enumerate different matches", s, s);
    auto e = z.end(); if (e.is_accepted()) no("end() is accepted", s, s);
    if (static_cast<bool>(z) != z.is_accepted()) no("conversion to bool", s, s);
}
template<static_string P> static void all() { for (V s : {"", "a", "ab", "abc", "abcd", "abcde", "abcabc", "xabcdefgh", "aabbccdd", "bca", "zz"}) groups<P>(s); }
int main() {
    const char al[] = {'a', 'b', '\0', (char)0xe9, '\n'};
    std::vector<std::string> ws{""};
    for (size_t i = 0; i < ws.size() && ws[i].size() < 3; ++i) for (char c : al) ws.push_back(ws[i] + c);
    for (int k = 4; k < 40; k += 5) { ws.push_back(std::string(k, 'a')); ws.push_back(std::string(k - 1, 'a') + 'b'); ws.push_back('b' + std::string(k - 1, 'a')); }
    for (auto& a : ws) {
        V v = a; one(L{v}, v); one(L{v.begin(), v.end()}, v); L c{v}; L d = c; one(d, v); L e; e = c; one(e, v);
        for (auto& b : ws) pair(L{V(a)}, L{V(b)}, a, b);
    }
    one(L{}, ""); pair(L{}, L{V("")}, "", ""); pair(L{}, L{V("a")}, "", "a");
    std::string buf("abaabbaabab\0ab", 14); V B = buf;      // overlapping texts of one buffer
    for (size_t i = 0; i <= B.size(); ++i) for (size_t j = i; j <= B.size(); ++j) for (size_t k = 0; k <= B.size(); ++k) for (size_t l = k; l <= B.size(); ++l)
        pair(L{B.begin() + i, B.begin() + j}, L{B.begin() + k, B.begin() + l}, B.substr(i, j - i), B.substr(k, l - k));
    one(L{""}, ""); one(L{"a"}, "a"); one(L{"abc"}, "abc"); one(L{"a\0c"}, V("a\0c", 3)); one(L{"\xe9\xff"}, "\xe9\xff");
    all<"a">(); all<"(a)">(); all<"(a)(b)?">(); all<"(a)(b)(c)?">(); all<"(a)(b)(c)(d)?">(); all<"(a)(b)?(c)?(d)?(e)?">(); all<"((((((a))))))b?">(); all<"(a)|(b)|(c)|(d)|(e)|(f)|(g)">(); all<"(?:(a)|(b)|(c))+">();
    all<"(a*)">(); all<"(a?)(b?)(c?)(d?)">(); all<"a*?(b)">(); all<"((a)(b)(c)(d)(e)(f)(g)(h))|z">(); all<"^(a)|(b)$">();
    printf("DONE %ld %d\n", n, bad);
}
'''
def run(tier='quick', seed=1):
    wd = tempfile.mkdtemp(prefix='vv_'); bad = []; stats = dict(patterns=14, subjects=11, compared=0)
    try:
        f = wd + '/v.cpp'; open(f, 'w').write(PROG)
        r = subprocess.run(['g++', '-std=c++23', '-I' + build.SRC, '-w', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', f, '-o', wd + '/v'], capture_output=True, text=True)
        if r.returncode: return bad, stats          # an entry point has another form: not a verdict
        try: r = subprocess.run(['timeout', '-s', 'KILL', '60', wd + '/v'], capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0')); out = r.stdout
        except Exception as ex: return bad, stats
        tags = lambda w: ['C11', 'C12'] if 'view' in w else ['C03', 'C12', 'C14'] if '++' in w else ['C12']
        for l in out.splitlines():
            if l.startswith('BAD '):
                w, a, b = l[4:].split('|'); bad.append(dict(tags=tags(w), pattern=b'(a text)', what=w, program=PROG, got='', first=bytes.fromhex(a), second=bytes.fromhex(b)))
            if l.startswith('DONE'): stats['compared'] = int(l.split()[1])
        if 'DONE' not in out: bad.append(dict(tags=['C01', 'C12', 'C14'], pattern=b'(a text)', what='comparing or reading texts stops with an error', got=r.stderr[-400:], program=PROG))
    finally: shutil.rmtree(wd, ignore_errors=True)
    return bad, stats
def start():
    """in a process of its own, next to other work"""
    return subprocess.Popen([sys.executable, os.path.abspath(__file__), 'pickle'], stdout=subprocess.PIPE)
def finish(h):
    import pickle
    try: return pickle.loads(h.communicate(timeout=300)[0])
    except Exception: h.kill(); return [], dict(patterns=0, subjects=0, compared=0)
if __name__ == '__main__':
    b, s = run()
    if sys.argv[1:] == ['pickle']:
        import pickle
        sys.stdout.buffer.write(pickle.dumps((b, s)))
    else: print([{k: v for k, v in x.items() if k != 'program'} for x in b[:5]], s)
