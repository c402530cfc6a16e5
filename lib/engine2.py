"""Contracts of the type-level functions (the parser, the tree builder, the sets of characters, sizes, group numbers, optimize).

A template is a function from types to types; its contract is a set of equations. Two kinds of obligation, both decided by the
compiler (static_assert) on the current headers:
 - step: one unfolding of a recursive template with the recursive call replaced by its contract: the harness gives an explicit
   specialisation that returns a fresh opaque type for exactly the arguments the recursive call has to have, and the remaining
   arguments are opaque types. With the base case, induction over the length of the token list gives the equation for all lists.
 - ground: the function as a whole on closed arguments, elements opaque where the function may not look at them.
An obligation whose failure is not by itself an observable difference (a helper may be restructured) carries patterns that reach
it, and these decide through the public API."""
import os, sys, re, subprocess, tempfile, shutil, random, time, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build
BACKEND = 'g++ 13 (type-level equations)'
CXX = 'g++'
UNB = 4294967295

HEAD = r'''#include <algorithm>
#include <array>
#include <limits>
#include <tuple>
#include <type_traits>
#include <string_view>
#include <iterator>
#include "e_regex.hpp"
#include "nodes.hpp"
#include "nodes/repeated.hpp"
#include "operators.hpp"
#include "tokenizer.hpp"
#include "tree_builder/tree_builder.hpp"
#include "utilities/split.hpp"
#include "utilities/balanced.hpp"
namespace e_regex {
using nodes::simple; using nodes::greedy; using nodes::lazy; using nodes::possessive; using nodes::repeated; using nodes::group; using nodes::negated_node;
using terminals::terminal; using terminals::exact_matcher; using terminals::range_terminal;
template<typename A, typename B> inline constexpr bool same = std::is_same_v<A, B>;
template<char... c> using P = pack_string<c...>;
template<typename... t> using TU = std::tuple<t...>;
template<char... c> using S = admitted_set<char, c...>;
struct opaque {                                              // what a class may be asked for when it is instantiated
    static constexpr auto expression = static_string {"?"};
    static constexpr auto meta = e_regex::meta<admitted_set<char>> {.policy_ = policy::NONE, .minimum_match_size = 1, .maximum_match_size = 1};
    template<typename... i> static constexpr auto& match(auto& r) { return r; }
};
template<int i> struct X : opaque { template<typename... j> using optimize = X<i>; };                                 // an opaque token
template<int> struct TAIL {};                                // the rest of a token list
template<int id, int next = 0> struct RES : opaque { static constexpr int next_group_index = next; static constexpr unsigned groups = 0; template<typename... i> using optimize = RES; };   // what a recursive call returns
// a node known by its announced data only
template<int id, unsigned mn, unsigned mx, typename set, unsigned g = 0, int next = 0> struct F {
    static constexpr auto expression = static_string {"f"};
    static constexpr auto meta = e_regex::meta<set> {.policy_ = policy::NONE, .minimum_match_size = mn, .maximum_match_size = mx};
    static constexpr unsigned groups = g; static constexpr int next_group_index = next;
    template<typename... i> using optimize = F<id + 1000, mn, mx, set, g, next>;
    template<typename... i> static constexpr auto& match(auto& r) { return r; }
};
// the same without groups, as terminals are
template<int id, unsigned mn, unsigned mx, typename set> struct N {
    static constexpr auto expression = static_string {"n"};
    static constexpr auto meta = e_regex::meta<set> {.policy_ = policy::NONE, .minimum_match_size = mn, .maximum_match_size = mx};
    template<typename... i> using optimize = N<id + 1000, mn, mx, set>;
    template<typename... i> static constexpr auto& match(auto& r) { return r; }
};
// records what optimize was given
template<typename n, typename... inj> struct OPT {
    static constexpr auto expression = static_string {"o"}; static constexpr auto meta = n::meta; 
    template<typename... i> using optimize = OPT<n, i...>; template<typename... i> static constexpr auto& match(auto& r) { return r; } };
template<int id, unsigned mn, unsigned mx, typename set> struct K : N<id, mn, mx, set> { template<typename... i> using optimize = OPT<K, i...>; };
template<typename set> constexpr std::array<bool, 256> members() { std::array<bool, 256> r {}; for (int i = 0; i < 256; ++i) r[i] = set::can_admit(static_cast<char>(i)); return r; }
template<typename set> constexpr bool sorted() { for (unsigned i = 1; i < set::chars.size(); ++i) if (!(set::chars[i - 1] < set::chars[i])) return false; return true; }
struct bits { unsigned long w[4]; };
template<typename set> constexpr bool is(bits b) { auto m = members<set>(); bool any = false; for (int i = 0; i < 256; ++i) { if (m[i] != ((b.w[i / 64] >> (i % 64)) & 1)) return false; any = any || m[i]; } return set::empty == !any; }
template<typename A, typename B> constexpr bool disjoint() { auto a = members<A>(), b = members<B>(); for (int i = 0; i < 256; ++i) if (a[i] && b[i]) return false; return true; }
template<typename set> constexpr bool has(bits b) { auto m = members<set>(); for (int i = 0; i < 256; ++i) if (((b.w[i / 64] >> (i % 64)) & 1) && !m[i]) return false; return true; }
'''
TAILS = '}\n'

def ch(c): return "'\\%03o'" % (c & 255)
def P(b): return 'P<' + ', '.join(ch(c) for c in (b.encode('latin1') if isinstance(b, str) else b)) + '>'
def TU(*t): return 'TU<' + ', '.join(t) + '>'
def bits(s):
    w = [0, 0, 0, 0]
    for c in s: w[(c & 255) // 64] |= 1 << ((c & 255) % 64)
    return 'bits {{%s}}' % ', '.join('%dul' % x for x in w)
def S(s):
    return 'S<' + ', '.join(ch(c) for c in sorted(set(s), key=lambda c: c if c < 128 else c - 256)) + '>'

class O:
    """one obligation: cond is a constant expression; pre are declarations; hard: false means a wrong result whatever the rest does"""
    __slots__ = ('name', 'props', 'cond', 'pre', 'hard', 'wit', 'heavy')
    def __init__(s, name, props, cond, pre='', hard=False, wit=(), heavy=1): s.name = name; s.props = set(props.split()); s.cond = cond; s.pre = pre; s.hard = hard; s.wit = list(wit); s.heavy = heavy

# ------------------------------------------------------------------ sets of characters (C09)
def sets_obl(tier):
    out = []; rnd = random.Random(5)
    ext = [-128, -127, -1, 0, 1, 9, 10, 48, 57, 65, 97, 98, 126, 127]
    W = ['[^a]', '[a-z]*[b-c]', r'[\w.]', r'\W', r'[^\d]']
    # steps of the three merges: heads in every order relation, the rest opaque
    k = 0
    for f, res in [('merge_admitted_sets', {'<': (1, 0, 'a'), '>': (0, 1, 'b'), '=': (1, 1, 'a')}), ('admitted_sets_difference', {'<': (1, 0, 'a'), '>': (0, 1, 'b'), '=': (1, 1, '')}), ('admitted_sets_intersection', {'<': (1, 0, ''), '>': (0, 1, ''), '=': (1, 1, 'a')})]:
        for a in ext:
            for b in ext:
                d1, d2, e = res['<' if a < b else '>' if a > b else '=']
                ta, tb = [x for x in (100, 113, 127) if x > a][:rnd.randint(0, 2)], [x for x in (101, 113, 120) if x > b][:rnd.randint(0, 2)]
                cur = [x for x in (-128, -100) if x < min(a, b)][:rnd.randint(0, 2)]
                A, B = [a] + ta, [b] + tb; nc = cur + ([a] if e == 'a' else [b] if e == 'b' else [])
                st = lambda l: 'S<' + ', '.join('static_cast<char>(%d)' % x for x in l) + '>'
                k += 1; m = 'RES<%d>' % (90000 + k)
                rec = '%s<%s, %s, %s>' % (f, st(A[d1:]), st(B[d2:]), st(nc))
                # one specialisation per argument list and translation unit
                out.append(O('step of %s: heads %d, %d' % (f, a, b), 'C09 C08', 'same<typename %s<%s, %s, %s>::type, %s>' % (f, st(A), st(B), st(cur), m), 'template<> struct %s { using type = %s; };\n' % (rec, m), wit=W, heavy=100))
        for A, B, cur in [([], [], []), ([], [], [1]), ([], [5, 7], [1]), ([5, 7], [], [1]), ([-3], [], []), ([], [127], [])]:
            st = lambda l: 'S<' + ', '.join('static_cast<char>(%d)' % x for x in l) + '>'
            r = cur + (A or B if f != 'admitted_sets_intersection' else [])
            out.append(O('base of %s: %s %s %s' % (f, A, B, cur), 'C09 C08', 'same<typename %s<%s, %s, %s>::type, %s>' % (f, st(A), st(B), st(cur), st(r)), wit=W))
    # the functions as a whole
    cases = [(set(), set())]
    full = set(range(256))
    for a in ([], [0], [255], [128], [127], [97], [97, 98], [0, 255], [127, 128]):
        for b in ([], [0], [255], [128], [127], [98], [97, 99], [128, 255]): cases.append((set(a), set(b)))
    for _ in range(60 if tier == 'quick' else 300):
        al = rnd.sample(range(256), rnd.randint(1, 12)); cases.append((set(x for x in al if rnd.random() < .6), set(x for x in al if rnd.random() < .6)))
    cases += [(full - {10}, {10}), (full - {10}, full), (full, set()), (full, full), (set(range(0, 128)), set(range(100, 200))), (set(range(0, 256, 2)), set(range(1, 256, 2))), (set(range(128, 256)), set(range(0, 128)))]
    for a, b in cases:
        n = '%s, %s' % (sorted(a)[:6], sorted(b)[:6])
        for f in ('merge_admitted_sets_t', 'admitted_sets_intersection_t'): out.append(O('order of %s of %s' % (f, n), 'C09 C08', 'sorted<%s<%s, %s>>()' % (f, S(a), S(b)), wit=W))
        out.append(O('order of the complement of ' + n, 'C09 C08', 'sorted<admitted_set_complement_t<%s>>()' % S(a), wit=W))
        out.append(O('union of ' + n, 'C09 C08', 'is<merge_admitted_sets_t<%s, %s>>(%s)' % (S(a), S(b), bits(a | b)), hard=True))
        out.append(O('intersection of ' + n, 'C09 C08', 'is<admitted_sets_intersection_t<%s, %s>>(%s)' % (S(a), S(b), bits(a & b)), hard=True))
        out.append(O('complement of ' + n, 'C09 C08', 'is<admitted_set_complement_t<%s>>(%s)' % (S(a), bits(full - a)), hard=True, heavy=4))
    for c in range(256): out.append(O('complement of {%d}' % c, 'C09 C08', 'is<admitted_set_complement_t<%s>>(%s)' % (S([c]), bits(full - {c})), hard=True, heavy=4))
    sg = lambda c: c if c < 128 else c - 256
    rs = {(a, b) for a in ext for b in ext if a <= b} | {(a, 127) for a in range(-128, 128, 1 if tier != 'quick' else 3)} | {(-128, a) for a in range(-128, 128, 1 if tier != 'quick' else 3)} | {(a, a) for a in range(-128, 128, 5)}
    for a, b in sorted(rs):
        out.append(O('range %d-%d' % (a, b), 'C09 C08 C07', 'is<admitted_set_range_t<char, static_cast<char>(%d), static_cast<char>(%d)>>(%s)' % (a, b, bits({x & 255 for x in range(a, b + 1)})), hard=True, heavy=2))
    for i in range(6):
        a = set(rnd.sample(range(256), i))
        out.append(O('membership and emptiness of a set of %d' % i, 'C09 C08', 'is<%s>(%s)' % (S(a), bits(a)), hard=True))
    return out

# ------------------------------------------------------------------ announced data of nodes (C08, C09, C06)
def meta_obl(tier):
    out = []
    sA, sB, sC = set(b'abd'), set(b'bc'), set(b'x\xff')
    def Fn(i, mn, mx, s, g=0, nx=0): return 'F<%d, %du, %du, %s, %du, %d>' % (i, mn, mx, S(s), g, nx)
    add = lambda a, b: min(UNB, a + b); mul = lambda a, t: min(UNB, a * t) if t else 0
    W = ['(a*)b', 'a*?b', '(?:a|bc)*d', 'a{2,3}b?c']
    sizes = [(0, 0), (0, 1), (1, 1), (2, 3), (0, UNB), (3, UNB), (UNB - 1, UNB), (70000, 70000)]
    kids = [[], [(1, 1)], [(0, 2)], [(2, 5), (1, 9)], [(0, 0), (4, UNB), (3, 3)]]
    ksets = [sB, sC, set(b'm')]
    uid = [0]
    def node(nm, ty, mn, mx, adm, exact, ng=None, nx=None):
        uid[0] += 1; a = 'using T%d = %s;\n' % (uid[0], ty); t = 'T%d' % uid[0]; m = 'decltype(%s::meta)::admission_set' % t
        out.append(O('least length announced by ' + nm, 'C08', '%s::meta.minimum_match_size <= %du' % (t, mn), a, hard=True))
        out.append(O('greatest length announced by ' + nm, 'C08', '%s::meta.maximum_match_size >= %du' % (t, mx), a, hard=True))
        out.append(O('first characters announced by ' + nm, 'C08 C09', 'has<typename %s>(%s)' % (m, bits(adm)), a, hard=True))
        if exact: out.append(O('exactly the first characters announced by ' + nm, 'C09', 'is<typename %s>(%s)' % (m, bits(adm)), a, hard=True))
        if ng is not None: out.append(O('number of groups of ' + nm, 'C06 C12 C13', '%s::groups == %du' % (t, ng), a, hard=True))
        if nx is not None: out.append(O('next group number of ' + nm, 'C06 C13', '%s::next_group_index == %d' % (t, nx), a, wit=['(a)(b)', '((a)|(b))(c)', '(?:(a)|b)(c)', '(?:(a)|(b))(c)', '(a)*(b)', '(a(b))(c)', '((a)(b))+(c)']))
    cnt = [(0, UNB), (1, UNB), (2, 3), (0, 1), (0, 5), (3, 3), (0, 0), (1, 1), (70000, 70001), (5, UNB)]
    for si, (mn, mx) in enumerate(sizes):
        for ki, ks in enumerate(kids):
            ch_ = [Fn(10 + i, l, h, ksets[i], i + 1, 3 * i + 2) for i, (l, h) in enumerate(ks)]
            cmn = min([l for l, h in ks], default=0); cmx = max([h for l, h in ks], default=0); cs = set().union(*ksets[:len(ks)]) if ks else set()
            cg = sum(range(1, len(ks) + 1)); cnx = max([3 * i + 2 for i in range(len(ks))], default=0)
            M_ = Fn(1, mn, mx, sA, 2, 4); lst = lambda *a: ', '.join(a)
            opt = sA | (cs if mn == 0 else set()); tag = 'with a matcher of %s..%s and children %s' % (mn, mx, ks)
            if True: node('simple ' + tag, 'simple<%s>' % lst(M_, *ch_), add(mn, cmn), add(mx, cmx), opt, True, 2 + cg, max(4, cnx))
            if ks: node('alternatives ' + tag, 'simple<%s>' % lst('void', *([M_] + ch_)), min([mn] + [l for l, h in ks]), max([mx] + [h for l, h in ks]), sA | cs, True, 2 + cg, max(4, cnx))
            elif True: node('one alternative ' + tag, 'simple<void, %s>' % M_, mn, mx, sA, True, 2, 4)
            node('group ' + tag, 'group<%s>' % lst(M_, '6', *ch_), add(mn, cmn), add(mx, cmx), opt, True, 3 + cg, max(7, 4, cnx))
            for n in ((0, 1, 3) if si != 7 else (0, 70000)):
                node('repeated %d ' % n + tag, 'repeated<%s>' % lst(M_, '%du' % n, *ch_), add(mul(mn, n), cmn), add(mul(mx, n), cmx), opt | (cs if n == 0 else set()), n > 0, 2 + cg, max(4, cnx))
            for (lo, hi) in cnt if ki < 3 else cnt[ki:ki + 3]:
                ad = opt | (cs if lo == 0 else set())
                for q in ('greedy', 'lazy', 'possessive'):
                    if q == 'possessive' and len(ks) > 1: continue
                    node('%s %d..%d ' % (q, lo, hi) + tag, '%s<%s>' % (q, lst(M_, '%du' % lo, '%du' % hi, *ch_)), add(mul(mn, lo), cmn), UNB if hi == UNB and mx > 0 else add(mul(mx, hi), cmx), ad, hi > 0, 2 + cg, max(4, cnx))
    full = set(range(256))
    for s in (sA, sB | sC, set(), full, {0}, {255, 127, 128}): node('negated %s' % sorted(s)[:5], 'negated_node<N<1, 1u, 1u, %s>>' % S(s), 1, 1, full - s, True)
    # the set of a list of nodes
    for l in ([], ['void'], ['void', 'A'], ['A'], ['A', 'B'], ['B', 'A', 'C']):
        ty = {'A': 'N<1, 1u, 1u, %s>' % S(sA), 'B': 'N<2, 1u, 1u, %s>' % S(sB), 'C': 'F<3, 0u, 1u, %s>' % S(sC), 'void': 'void'}
        u = set().union(*[{'A': sA, 'B': sB, 'C': sC, 'void': set()}[x] for x in l]) if l else set()
        out.append(O('the set of the list %s' % l, 'C09 C08', 'is<typename nodes::extract_admission_set<%s>::type>(%s)' % (', '.join(ty[x] for x in l), bits(u)), hard=True))
    # what the public API announces
    for p, g in [('a', 0), ('(a)', 1), ('((a)|(b))(c)', 4), ('(?:(a)b)*?(c)', 2), ('(a){3}(?:(b)|(c))', 3)]:
        out.append(O('regex<"%s">::groups' % p, 'C06 C12', 'regex<"%s">::groups == %du' % (p, g), hard=True))
    return out

# ------------------------------------------------------------------ is_independent (C09)
def indep_obl(tier):
    from ref import Ref
    out = []
    ps = ['a', 'b', '[ab]', '[^a]', '[^ab]', '.', '\\n', '\\d', '\\D', '\\w', '\\W', '\\s', '[\\d_]', '[^\\d]', 'ab', 'ba', 'a*b', 'a+b', 'a?c', 'a|c', '[a-f]', '[g-z]', '[^a-f]', '\\x61', '\\x{6263}', '\\xff', '\\x80', '\\200', '[\x80-\xff]', '[\x01-\x7f]', '\\x00', 'a*?d', '\\d+x', 'a{2}', 'b{1,2}a', 'x*y*z', '_', '0', '-', '[-a]' if False else '[b-b]',
          '(a)', '(?:a|b)c', '(a*)b', '^a', '^', '$', 'a*', 'a?', '(a|b)*', '\\n$', '((a)|b)+c', 'a{0}b', '(?:)' if False else '(?:c)']
    if tier == 'quick': rnd = random.Random(3)
    cs = {}
    for p in ps:
        r = Ref(p.encode('latin1')); fs, n = r.first()
        plain = r.flat() and not n and not any(k[0] in '^$' or k[0] == 'rep' and (k[3] == 0 or k[4][0] in '^$') for b in r.ast for k in b)
        cs[p] = fs if plain else None
    for i, p in enumerate(ps):
        for j, q in enumerate(ps):
            if tier == 'quick' and (i * 7 + j * 3) % 5 not in (0, 2) and i != j: continue
            A, B = 'regex<%s>' % cpp(p), 'regex<%s>' % cpp(q); call = '%s::template is_independent<%s>()' % (A, B)
            both = '%s && %s::is_independent(%s {}) == %s' % ('%s', A, B, call)
            ad = lambda x: 'typename nodes::extract_admission_set<typename %s::ast>::type' % x
            out.append(O('is_independent of "%s" and "%s" compares the computed sets' % (p, q), 'C09', both % ('%s == disjoint<%s, %s>()' % (call, ad(A), ad(B))), hard=True, wit=[p, q], heavy=3))
            if i < j: out.append(O('is_independent of "%s" and "%s" is symmetric' % (p, q), 'C09', '%s == %s::template is_independent<%s>()' % (call, B, A), hard=True, wit=[p, q]))
            if cs[p] is not None and cs[q] is not None: out.append(O('"%s" and "%s" are %sindependent' % (p, q, 'not ' if cs[p] & cs[q] else ''), 'C09', both % ('%s == %s' % (call, 'false' if cs[p] & cs[q] else 'true')), hard=True, wit=[p, q], heavy=2))
    return out

# ------------------------------------------------------------------ optimize (C08)
def opt_obl(tier):
    out = []
    import itertools
    sets = {'d': b'a', 'e': b'b', 'de': b'ab', 'f': b'c', '': b''}
    W = ['a*a', 'a*b', 'a*b?a', '(a*)b', '(a*)a', '(a*?)b?', 'a*?b', 'a*?b?a', '(a*?)(?:a|b)', '(a|ab)*?b', '(?:a?)*?b', '(a*)(?:b|a)', '(?:(a*)b?)a', '((a*)b*)a', '(?:a+|b)a', '(b|a+)a']
    u = 0
    for q in ('greedy', 'lazy'):
        for ms, cs, inj in itertools.product(['d', 'de', ''], [[], ['d'], ['e'], ['f', 'e'], ['e', 'd'], ['de']], [[], ['d'], ['f'], ['e', 'd']]):
            for mmn, cmn, (lo, hi) in itertools.product((0, 1), (0, 1), [(0, UNB), (1, UNB), (0, 1), (2, 5)] if tier != 'quick' else [(0, UNB), (2, 5)]):
                if len(cs) > 1 and q == 'lazy' and False: continue
                if not cs and cmn: continue
                u += 1
                if tier == 'quick' and (lo, hi) == (2, 5) and u % 3: continue
                M_ = 'K<1, %du, 1u, S<%s>>' % (mmn, ', '.join(ch(c) for c in sets[ms])); C_ = ['K<%d, %du, 2u, S<%s>>' % (20 + i, cmn, ', '.join(ch(c) for c in sets[x])) for i, x in enumerate(cs)]
                I_ = ['K<%d, 1u, 1u, S<%s>>' % (30 + i, ', '.join(ch(c) for c in sets[x])) for i, x in enumerate(inj)]
                ty = '%s<%s>' % (q, ', '.join([M_, '%du' % lo, '%du' % hi] + C_))
                o = 'typename %s::template optimize<%s>' % (ty, ', '.join(I_))
                disj = not set(sets[ms]) & set(b''.join(sets[x] for x in cs + inj))
                if q == 'greedy': may = disj
                else: may = bool(cs) and cmn > 0 and mmn > 0 and not set(sets[ms]) & set(b''.join(sets[x] for x in cs))
                om = 'OPT<%s>' % M_; oc = ['OPT<%s>' % x for x in C_]
                forms = [q] + (['possessive'] if may and len(cs) < 2 else []) 
                cond = ' || '.join('same<%s, %s<%s>>' % (o, f, ', '.join([om, '%du' % lo, '%du' % hi] + oc)) for f in forms)
                if may and len(cs) >= 2: cond = 'true'      # cannot be built by the parser: a node never gets a second child
                nm = '%s %d..%d of %s (at least %d), then %s (at least %d), before %s' % (q, lo, hi, sets[ms], mmn, [sets[x] for x in cs], cmn, [sets[x] for x in inj])
                # whatever the form is called: possessive only where that cannot change anything
                if not may: out.append(O('not possessive: ' + nm, 'C08', 'V%d::meta.policy_ != policy::POSSESSIVE' % u, 'using V%d = %s;\n' % (u, o), hard=True))
                out.append(O('optimize: ' + nm, 'C08', cond, wit=W))
    A, B, C = ('K<1, 1u, 1u, S<\'a\'>>', 'K<2, 0u, 1u, S<\'b\'>>', 'K<3, 1u, 1u, S<\'c\'>>'); I = 'K<9, 1u, 1u, S<\'i\'>>'
    def eq(nm, ty, inj, want): out.append(O('optimize: ' + nm, 'C08', 'same<typename %s::template optimize<%s>, %s>' % (ty, inj, want), wit=W))
    eq('a possessive quantifier', 'possessive<%s, 0u, 3u, %s>' % (A, C), I, 'possessive<OPT<%s>, 0u, 3u, OPT<%s>>' % (A, C))
    eq('repeated', 'repeated<%s, 3u, %s>' % (A, C), I, 'repeated<OPT<%s>, 3u, OPT<%s>>' % (A, C))
    eq('negated', 'negated_node<%s>' % A, I, 'negated_node<OPT<%s>>' % A)
    for inj in ('', I, I + ', ' + C):
        cm = ', ' + inj if inj else ''
        eq('alternatives before [%s]' % inj, 'simple<void, %s, %s>' % (A, B), inj, 'simple<void, OPT<%s%s>, OPT<%s%s>>' % (A, cm, B, cm))
        eq('one alternative before [%s]' % inj, 'simple<void, %s>' % A, inj, 'OPT<%s%s>' % (A, cm))
        eq('an element before [%s]' % inj, 'simple<%s>' % A, inj, 'OPT<%s%s>' % (A, cm))
        eq('a sequence before [%s]' % inj, 'simple<%s, %s>' % (A, C), inj, 'simple<OPT<%s%s>, OPT<%s%s>>' % (A, cm, C, cm))
        eq('a group before [%s]' % inj, 'group<%s, 4, %s>' % (A, C), inj, 'group<OPT<%s, %s%s>, 4, OPT<%s%s>>' % (A, C, cm, C, cm))
        eq('a last group before [%s]' % inj, 'group<%s, 4>' % A, inj, 'group<OPT<%s%s>, 4>' % (A, cm))
    # the bounds are carried through, whatever they are
    NUMS = [(lo, hi) for lo in range(0, 11) for hi in (lo, lo + 1, lo + 2, lo + 7, 10, 12, 20) if hi >= lo and hi] + [(lo, UNB) for lo in list(range(0, 18)) + [31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 257, 1000, 65535, 65536, 2 ** 31 - 1, 2 ** 31, UNB - 1]] + [(0, 15), (0, 16), (0, 31), (0, 32), (0, 63), (0, 64), (0, 99), (0, 100), (1, 100), (3, 128), (0, 127), (0, 255), (0, 256), (1, 257), (255, 256), (100, 300), (300, 310), (999, 1000), (1000, 1000), (5, 65535), (65535, 65536), (65536, 70000), (0, 2 ** 31 - 1), (0, 2 ** 31), (7, UNB - 1)]
    for lo, hi in dict.fromkeys(NUMS):
        big = max(lo, hi if hi != UNB else 0) > 300; nb = '{%d,%s}' % (lo, '' if hi == UNB else hi)
        for q, sfx in (('greedy', ''), ('lazy', '?'), ('possessive', '+')):
            for mmn, mset, cmn, cset, cont in ((1, 'a', 1, 'b', 'b'), (1, 'a', 1, 'a', 'a'), (0, 'a', 1, 'b', None), (0, 'a', 1, 'a', None), (1, 'a', 0, 'b', 'b?'), (1, 'a', 0, 'a', 'a?'), (1, 'a', None, '', ''), (1, 'a', None, 'a', '')):
                if (big or lo > 4) and mmn == 0 and (lo + hi) % 3: continue
                M_ = "K<1, %du, 1u, S<'%s'>>" % (mmn, mset); C_ = ["K<2, %du, 2u, S<'%s'>>" % (cmn, cset)] if cmn is not None else []; I_ = "K<3, 1u, 1u, S<'%s'>>" % cset if cmn is None and cset else ''
                o = 'typename %s<%s>::template optimize<%s>' % (q, ', '.join([M_, '%du' % lo, '%du' % hi] + C_), I_); oc = ['OPT<%s>' % x for x in C_]
                may = q == 'greedy' and mset != cset or q == 'lazy' and bool(C_) and bool(cmn and mmn) and mset != cset
                w = []
                if not big and (lo, hi) != (0, 0): w = ['%s%s%s%s' % (m, nb, sfx, cc) for m in (['a', '(?:a|b)'] if mmn else ['(?:a|c?)']) for cc in ([cont] if cont else ['', 'b', 'a'])] + (['(a%s%s)%s' % (nb, sfx, cset)] if cmn is None and cset else []) + (['(?:a?)%s%sb' % (nb, sfx), '(a?)%s%sb' % (nb, sfx), '(?:(a?)b?)%s%sc' % (nb, sfx), '(?:^a|$)%s%sb' % (nb, sfx), '(?:^|ab)%s%sa' % (nb, sfx), '(?:^|a$)%s%sb' % (nb, sfx)] if not mmn else [])
                out.append(O('optimize: the bounds of %s %d..%d of %s (at least %d) before %s%s' % (q, lo, hi, mset, mmn, C_, I_), 'C08 C04', ' || '.join('same<%s, %s<%s>>' % (o, f, ', '.join(['OPT<%s>' % M_, '%du' % lo, '%du' % hi] + oc)) for f in [q] + (['possessive'] if may else [])), wit=w))
    for n in list(range(0, 70)) + [99, 100, 127, 128, 255, 256, 257, 999, 1000, 65535, 65536, 2 ** 31, UNB - 1, UNB]:
        out.append(O('optimize: repeated %d times' % n, 'C08 C04', 'same<typename repeated<%s, %du, %s>::template optimize<%s>, repeated<OPT<%s>, %du, OPT<%s>>>' % (A, n, C, I, A, n, C), wit=['a{%d}' % n, 'a{%d}b' % n, '(ab?){%d}c' % n, '(?:a|b){%d}c' % n] if 0 < n < 300 else W))
    for t in ("terminal<P<'a'>>", "terminal<P<'.'>>", "terminal<P<'\\\\', 'd'>>", "terminal<P<'\\\\', 'W'>>", "exact_matcher<P<'a', 'b'>>", "range_terminal<P<'a'>, P<'c'>>", 'terminals::anchors::start', 'terminals::anchors::end'):
        out.append(O('optimize keeps the terminal ' + t, 'C08', 'std::is_base_of_v<typename %s::template optimize<%s>, %s>' % (t, I, t), wit=['a', '.', r'\d', r'\W', '^a$', '[a-c]']))
    # optimisation goes on until nothing changes
    out.append(O('the optimiser reaches a fixed point', 'C08', 'same<typename __private::optimizer<Z<5>>::type, Z<0>>', 'template<int k> struct Z { template<typename... i> using optimize = Z<(k > 0 ? k - 1 : 0)>; };\n', wit=W))
    for p in ('a', 'a*b', 'a*a', '(a*)b', '(a|b)*?c', '(?:(a+)b?)*c', 'a*b*c*', '((a*)b*)c'):
        out.append(O('"%s" is optimised completely' % p, 'C08', 'same<typename regex<"%s">::ast::template optimize<>, typename regex<"%s">::ast>' % (p, p), wit=W))
    # bounds and sets only get tighter by optimising: they are those of the same matches
    for p in ('a*b', '(a*)b?c', '(?:a|bc)*?d', 'a{2,3}(b|c{4})', '(?:a?b)*c', '[^a]*a', '.*\\n'):
        u += 1; pre = 'using V%d = typename tree_builder<build_pack_string_t<"%s">>::tree; using Y%d = typename regex<"%s">::ast;\n' % (u, p, u, p)
        out.append(O('"%s" announces the same after optimising' % p, 'C08 C09', 'same<decltype(V%d::meta), decltype(Y%d::meta)> && V%d::meta.minimum_match_size == Y%d::meta.minimum_match_size && V%d::meta.maximum_match_size == Y%d::meta.maximum_match_size' % ((u,) * 6), pre, wit=[p.replace('\\\\', '\\')]))
    return out

# ------------------------------------------------------------------ numbers (C10)
def num_obl(tier):
    out = []; rnd = random.Random(3)
    W = ['a{%d}' % n for n in (2, 10, 12, 21, 100, 101, 110, 123)] + ['a{1,12}b', 'a{12,}', 'a{10,12}?b']
    ds = ['%d' % n for n in range(1000)] + ['%02d' % n for n in range(100)] + ['%03d' % n for n in range(0, 1000, 7)] + ['%d' % (10 ** k) for k in range(3, 10)] + ['%d' % (10 ** k - 1) for k in range(4, 10)] + ['4294967294', '4294967295', '1234567890', '4000000000', '2147483648', '0000012', '65535', '65536', '9090909090'[:9]]
    ds += [str(rnd.randrange(10 ** rnd.randint(3, 9))) for _ in range(300)]
    for d in dict.fromkeys(ds): out.append(O('value of "%s"' % d, 'C10 C04', 'pack_string_to_number<%s>::value == %du' % (P(d), int(d)), hard=True))
    for d in range(10):
        for i in range(10):
            # the value of the other digits is known by contract
            v = 1000 + 10 * i + d
            if d * 10 ** i < 2 ** 32: out.append(O('step of the value: digit %d before %d more' % (d, i), 'C10 C04', "pack_string_to_number<P<'%d', '\\001', '\\%03o'>, %du>::value == %du" % (d, 48 + d, i, (d * 10 ** i + v) % 2 ** 32), "template<> struct pack_string_to_number<P<'\\001', '\\%03o'>, %du> { static constexpr unsigned value = %du; };\n" % (48 + d, (i - 1) % 2 ** 32, v), wit=W))
    # digits of a count
    def tk(p): return 'tokenizer_t<%s>' % P(p)
    for s, want in [('a{12}b', ['a', '{', '12', '}', 'b']), ('a{1}', ['a', '{', '1', '}']), ('a{123,}+', ['a', '{', '123', ',', '}', '+']), ('a{0,45}?b', ['a', '{', '0', ',', '45', '}', '?', 'b']), ('{7,8}', ['{', '7', ',', '8', '}']), ('a{1}{23}', ['a', '{', '1', '}', '{', '23', '}']), ('\\x{41}', ['\\x', '{', '41', '}']), ('\\o{101102}{2}', ['\\o', '{', '101102', '}', '{', '2', '}']),
                    ('a{1234567890,4294967295}b{2}c{3,}d', ['a', '{', '1234567890', ',', '4294967295', '}', 'b', '{', '2', '}', 'c', '{', '3', ',', '}', 'd'])]:
        out.append(O('tokens of "%s"' % s, 'C10 C13 C04', 'same<%s, %s>' % (tk(s), TU(*map(P, want))), wit=[s]))
    for a, b in [('0', '1'), ('12', '3'), ('999', '0'), ('', '7')]:
        mk = "std::tuple<P<%s>>" % ', '.join(map(ch, (a + b).encode()))
        out.append(O('step of the digits: %s then %s' % (a, b), 'C10 C04', "same<typename extract_braces_numbers<%s, %s, '\\001', '\\002'>::numbers, RES<70%s>>" % (TU(P(a)), ch(ord(b)), a + b if len(a + b) < 5 else 1), "template<> struct extract_braces_numbers<%s, '\\001', '\\002'> { using numbers = RES<70%s>; using remaining = P<>; };\n" % (mk, a + b), wit=W))
    hexd = '0123456789abcdefABCDEF'
    for x in hexd:
        out.append(O('hexadecimal %s' % x, 'C10', 'same<typename hex_to_bin<%s>::result, %s>' % (ch(ord(x)), P(bytes([int(x, 16)]))), hard=True, wit=['\\x' + x]))
        for y in hexd:
            v = P(bytes([int(x + y, 16)])); a, b = ch(ord(x)), ch(ord(y))
            out.append(O('hexadecimal %s%s' % (x, y), 'C10', 'same<typename hex_to_bin<%s, %s>::result, %s>' % (a, b, v), hard=True))
            t = ", '\\%03o', '\\%03o'" % (ord(x) + 128, ord(y) + 128)
            out.append(O('step of hexadecimal %s%s before more' % (x, y), 'C10', "same<typename hex_to_bin<%s, %s%s>::result, P<%s, 'M', 'N'>>" % (a, b, t, v[2:-1]), "template<> struct hex_to_bin<%s> { using result = P<'M', 'N'>; };\n" % t[2:], wit=['\\x{%s%s%s%s}' % (x, y, y, x)]))
    for s in ('4142', '41424344', 'deadBEEF', '00ff10', '0102030405060708', '7f80fF', 'aAbBcCdDeEfF', '100f'):
        out.append(O('hexadecimal string ' + s, 'C10', 'same<typename hex_tuple_to_bin<%s>::result, %s>' % (TU(P(s)), P(bytes.fromhex(s))), hard=True))
    for n in range(256):
        o = '%03o' % n; a = ', '.join(ch(ord(c)) for c in o)
        out.append(O('octal ' + o, 'C10', 'same<typename octal_to_bin<%s>::result, %s>' % (a, P(bytes([n]))), hard=True))
        t = ", '\\%03o', '\\002', '\\003'" % (128 + n // 2)
        if n % 4 == 1: out.append(O('step of octal %s before more' % o, 'C10', "same<typename octal_to_bin<%s%s>::result, P<%s, 'M', 'N'>>" % (a, t, ch(n)), "template<> struct octal_to_bin<%s> { using result = P<'M', 'N'>; };\n" % t[2:], wit=['\\o{%s101}' % o]))
    for s in ('101102', '000377', '176001', '101102103104105', '377000177'):
        out.append(O('octal string ' + s, 'C10', 'same<typename octal_tuple_to_bin<%s>::result, %s>' % (TU(P(s)), P(bytes(int(s[i:i + 3], 8) for i in range(0, len(s), 3)))), hard=True))
    # quantifiers in braces
    M_ = 'F<1, 1u, 1u, S<>>'
    for pol, q in (('void', 'greedy'), ("P<'?'>", 'lazy'), ("P<'+'>", 'possessive'), ("P<'a'>", 'greedy'), ('TAIL<1>', 'greedy')):
        pw = {'lazy': '?', 'possessive': '+'}.get(q, '')
        for a, b in (('0', '1'), ('3', '12'), ('10', '100'), ('2', '2')):
            bt = lambda data, ty, w: out.append(O('{...} with %s and %s' % (data, pol), 'C10 C04 C13', 'same<typename quantified_node_builder<%s, %s, %s>::type, %s>' % (M_, data, pol, ty), wit=[w]))
            bt(TU(P(a)), 'repeated<%s, %su>' % (M_, a), 'a{%s}%s' % (a, ''))
            bt(TU(P(a), P(',')), '%s<%s, %su>' % (q, M_, a), 'a{%s,}%s' % (a, pw))
            bt(TU(P(a), P(','), P(b)), '%s<%s, %su, %su>' % (q, M_, a, b), 'a{%s,%s}%sa' % (a, b, pw))
    return out

# ------------------------------------------------------------------ the parser (C13, C06)
class Tree:
    """the tree a pattern has to be read as; written from the grammar in the README, not from the templates"""
    def __init__(s, p): s.p = p; s.i = 0; s.g = 0
    def peek(s, k=0): return s.p[s.i + k] if s.i + k < len(s.p) else ''
    def build(s):
        t = s.alts()
        if s.i != len(s.p): raise ValueError(s.p)
        return t
    def alts(s):
        a = [s.seq()]
        while s.peek() == '|': s.i += 1; a.append(s.seq())
        return 'simple<void, %s>' % ', '.join(a)
    def seq(s):
        items = []
        while s.i < len(s.p) and s.peek() not in '|)':
            it = s.atom(not items)
            while s.peek() in ('*', '+', '?', '{'):
                c = s.peek(); s.i += 1; ex = False
                if c == '{':
                    j = s.p.index('}', s.i); n = s.p[s.i:j]; s.i = j + 1
                    if ',' in n: lo, hi = n.split(','); lo = int(lo); hi = int(hi) if hi else UNB
                    else: lo = hi = int(n); ex = True
                else: lo, hi = {'*': (0, UNB), '+': (1, UNB), '?': (0, 1)}[c]
                q = 'greedy'
                if s.peek() == '?': q = 'lazy'; s.i += 1
                elif s.peek() == '+': q = 'possessive'; s.i += 1
                it = 'repeated<%s, %du>' % (it, lo) if ex else '%s<%s, %du, %du>' % (q, it, lo, hi)
            items.append(it)
        t = items[-1]
        for it in reversed(items[:-1]): t = it[:-1] + ', ' + t + '>'
        return t
    def atom(s, first):
        c = s.peek(); s.i += 1; T = lambda x: 'simple<terminal<%s>>' % P(x); E = lambda b: 'simple<exact_matcher<%s>>' % P(b)
        if c == '^' and first: return 'simple<terminals::anchors::start>'
        if c == '$' and s.peek() in ('', '|', ')'): return 'simple<terminals::anchors::end>'
        if c == '(':
            if s.p[s.i:s.i + 2] == '?:': s.i += 2; t = 'simple<%s>' % s.alts()
            else: g = s.g; s.g += 1; t = 'group<%s, %d>' % (s.alts(), g)
            if s.peek() != ')': raise ValueError(s.p)
            s.i += 1; return t
        if c == '[':
            neg = s.peek() == '^'; s.i += neg; m = []
            while s.peek() != ']':
                a = s.p[s.i]; s.i += 1
                if a == '\\': m.append('simple<terminal<%s>>' % P('\\' + s.p[s.i])); s.i += 1
                elif s.peek() == '-' and s.peek(1) != ']': m.append('simple<range_terminal<%s, %s>>' % (P(a), P(s.peek(1)))); s.i += 2
                else: m.append('simple<exact_matcher<%s>>' % P(a))
            s.i += 1; b = 'simple<void, %s>' % ', '.join(m)
            return 'simple<negated_node<%s>>' % b if neg else 'simple<%s>' % b
        if c == '\\':
            e = s.p[s.i]; s.i += 1
            br = lambda: (s.p.index('}', s.i))
            if e == 'x' and s.peek() == '{': j = br(); d = s.p[s.i + 1:j]; s.i = j + 1; return E(bytes.fromhex(d))
            if e == 'x':
                d = s.peek(); s.i += 1
                if s.peek() and s.peek() in '0123456789abcdefABCDEF': d += s.peek(); s.i += 1
                return E(bytes([int(d, 16)]))
            if e == 'o' and s.peek() == '{': j = br(); d = s.p[s.i + 1:j]; s.i = j + 1; return E(bytes(int(d[k:k + 3], 8) for k in range(0, len(d), 3)))
            o3 = s.p[s.i - 1:s.i + 2]
            if len(o3) == 3 and all(x in '01234567' for x in o3): s.i += 2; return E(bytes([int(o3, 8) & 255]))
            return T('\\' + e)
        return T(c)

def gen_patterns(tier):
    rnd = random.Random(99); out = []
    Q = ['*', '+', '?', '*?', '+?', '??', '*+', '++', '?+', '{2}', '{12}', '{1,}', '{10,}?', '{2,}+', '{0,3}', '{1,12}?', '{2,3}+']
    lit = list('abcz059 _-,:!#%&=<>~@;"\'/') + ['\\.', '\\*', '\\(', '\\)', '\\[', '\\]', '\\{', '\\}', '\\|', '\\\\', '\\?', '\\+', '\\^', '\\$', '\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '\\n', '\\N', '\\t', '\\r', '\\f', '\\a', '\\e', '\\-', '.', '\\x41', '\\xfF', '\\x{4142}', '\\x{41}', '\\101', '\\o{101102}', '\\xA', '\\377']
    cls = ['a', 'b', 'z', '0', ' ', '.', '+', '*', '?', '_', '$', 'a-f', '0-9', ' -~', '\\d', '\\w', '\\s', '\\W', '\\]', '\\[', '\\\\', '\\-', '\\(', '\\{', '\\}', '\\^', '\\n', '|', ',', ':', '/', 'x-z', '\\)', '<', '=', '!']
    def klass():
        m = [rnd.choice(cls) for _ in range(rnd.randint(1, 5))]
        return '[' + rnd.choice(['', '', '', '', '^']) + ''.join(m) + ']'
    def atom(d):
        r = rnd.random()
        if d > 0 and r < 0.24: return '(' + alt(d - 1) + ')'
        if d > 0 and r < 0.42: return '(?:' + alt(d - 1) + ')'
        if r < 0.55: return klass()
        return rnd.choice(lit)
    def seq(d):
        n = rnd.choice([1, 1, 2, 2, 3, 3, 4, 6]); p = ''
        for k in range(n):
            a = atom(d); p += a + (rnd.choice(Q) if rnd.random() < 0.33 else '')
            if a == '\\xA' and p.endswith('\\xA'): p += 'g'
        if rnd.random() < 0.08: p = '^' + p
        if rnd.random() < 0.08: p += '$'
        if rnd.random() < 0.03: p += '^' + rnd.choice('ab')
        if rnd.random() < 0.03: p += '$' + rnd.choice('ab')
        return p
    def alt(d): return '|'.join(seq(d) for _ in range(rnd.choice([1, 1, 1, 2, 2, 3, 5])))
    fixed = ['(?:a)', 'a', '(a)', 'a|b', 'a|b|c|d|e|f|g|h', '(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)(l)', '((((((((((a))))))))))', '(?:(?:(?:(?:(?:(?:a))))))', '(a(b(c(d(e(f)g)h)i)j)k)(l)', '(a)|(b)|(c)|(d)|(e)', '((a)|(b)|(c)|(d))(e)', '(?:(a)|(b)|(c)|(d))(e)', '(?:(a)(b)|(c))(d)', '(a|(b)|c|(d)|e)(f)',
             '(?:a|(?:b|(?:c|(?:d|e))))', '(a|(b|(c|(d|(e)))))(f)', '(?:(?:(a)b)+(c))*(d)', '(?:a(b))(c)', '(a)(?:b(c))(d)(?:(e)|f)(g)', '(?:x|(a)|(?:(b)|y))(c)', '((a)(b)(c))(d)', '(?:(a)(b)(c))(d)', '((a)|((b)|((c)|(d))))(e)', '[a][b][c]', '[abcdefghij]', '[^abcdefghij]', '[a-bc-de-fg-h]', '[^a-bc-de-f]x', '[a](b)[c]|[d]', '(a)[(](b)' if False else '(a)[b](c)',
             'a{1}{2}', 'a{1,2}{3}?', '(a){2}(b){3,}(c){4,5}?', 'a{1}b{2}c{3}', '(?:ab){2}(?:cd){3,}+e', '(a{2}){3}', '(a{2}|b{3}){4}', '((a|b)|(c|d))|((e|f)|(g|h))', '(((a)|b)|c)|d', 'a|(b|(c|(d)))', '(a|b)(c|d)(e|f)(g|h)', '(a*)(b*?)(c*+)(d)', '\\(a\\)(b)', '\\((a)\\)(b)', '\\[a\\](b)', '\\{1\\}', '\\|a|b\\|', '(\\))(b)', '(\\()(b)', '(\\||a)(b)', 'a\\*b*', '\\\\*a', '\\\\\\*', '(\\\\)(a)', '(\\\\|b)', '^a|^b', 'a$|b$', '(^a|b$)', '(?:^a|b$)c', '^(a)$', '(^)(a)', 'a^b', 'a$b', '^$', '(a$)b', '(?:a$|b)c', '\\x41b', '\\x{41}b', '(\\x41)(b)', '\\101b', '(\\101)(\\102)', '\\x4g', '\\xAz', '\\x{4142}+', '\\o{101102}?', '\\x41{2}', '(a-b)', 'a-b', 'a,b', 'a:b', '?:a' if False else ':a', '(:a)', '(a:?)', '(,)', 'a{2},b', '(a{2,},b)', '}a' if False else '<a>', ']a' if False else '=a']
    for n in range(1, 16): fixed.append('(' * n + 'a' + 'b)' * n + 'c'); fixed.append('(?:' * n + 'a' + '|b)' * n + 'c'); fixed.append('(a)' * n + 'b'); fixed.append('|'.join('(a)b' for _ in range(n)))
    for n in range(1, 8): fixed.append('(?:' + '|'.join(['(a)', 'b', '(c)', '(?:(d)|e)'][:n] * 2) + ')(f)'); fixed.append('(' * n + 'a' + '(b))' * n + '(c)'); fixed.append('(x)' * n + '(?:' + '|'.join(['(a)'] * n) + ')(f)')
    # long, deep and wide patterns
    for n in (20, 40, 60): fixed.append('ab' * n); fixed.append('|'.join('a%c' % (98 + k % 20) for k in range(n))); fixed.append('a*b?' * n); fixed.append('[' + ''.join(chr(97 + k % 26) for k in range(n)) + ']x')
    for n in (18, 24): fixed.append('(' * n + 'a' + ')' * n + 'b'); fixed.append('(a|' * n + 'b' + ')' * n + '(c)'); fixed.append('(a)' * n); fixed.append('(?:(a)|' * n + 'b' + ')' * n + '(c)')
    N = 200 if tier == 'quick' else 4000
    k = 0
    while k < N:
        p = alt(rnd.choice([0, 1, 2, 2, 3]))
        if len(p) > 60: continue
        k += 1; out.append(p)
    return list(dict.fromkeys(fixed + out))

def short_patterns(tier):
    """every well-formed pattern of up to three units, and some of up to six; and every class of up to three members, and some of up to six"""
    rnd = random.Random(77); U_ = ['a', '.', '^', '$', '*', '?', '+', '{2}', '|', '(', '(?:', ')', '[b]', '\\.', '-', '\\x41']
    Q = {'*', '?', '+', '{2}'}
    def valid(l):
        d = 0; prev = '('; quant = 0
        for x in l:
            if x in Q:
                if prev in ('(', '(?:', '|', '^'): return False
                if quant:
                    if x not in ('?', '+') or prev in ('?', '+') and quant > 1 or prev == '{2}': return False
                quant += 1
                if quant > 2: return False
            else: quant = 0
            if x in ('(', '(?:'): d += 1
            if x == ')':
                d -= 1
                if d < 0 or prev in ('(', '(?:', '|'): return False
            if x == '|' and prev in ('(', '(?:', '|'): return False
            prev = x
        # an anchor with a quantifier, and a numeric escape before a hexadecimal digit, are left out
        if any(a in ('^', '$') and b in Q for a, b in zip(l, l[1:])) or any(a == '\\x41' and b in 'ab' for a, b in zip(l, l[1:])): return False
        return d == 0 and prev not in ('|', '(', '(?:')
    import itertools
    out = []
    for n in (1, 2, 3):
        for l in itertools.product(U_, repeat=n):
            if valid(l): out.append(''.join(l))
    N = 500 if tier == 'quick' else 6000; k = 0
    while k < N:
        n = rnd.randint(4, 7); l = [rnd.choice(U_ + ['(', ')', 'b', '$', '^', '|']) for _ in range(n)]
        if valid(l): out.append(''.join(l)); k += 1
    M_ = ['a', 'c', '-', '\\d', '.', '^', '\\-', '\\]', '$']
    def vclass(l):
        i = 0
        while i < len(l):
            if i + 1 < len(l) and l[i + 1] == '-' and i + 2 < len(l):
                if len(l[i]) > 1 or len(l[i + 2]) > 1 or l[i] > l[i + 2]: return False
                i += 3
            else: i += 1
        return True
    def klass(l):
        if vclass(l): out.append('[' + ''.join(l) + ']')
        if vclass(l) and l[0] != '^' and len(l) < 3: out.append('x[^' + ''.join(l) + ']y')
    for n in (1, 2, 3):
        for l in itertools.product(M_, repeat=n):
            if l[0] == '^': continue
            klass(l)
    for n in (4, 5):
        for l in itertools.product(['a', 'c', '-', '\\d'][:8 - n], repeat=n):
            if '-' in l: klass(l)
    k = 0
    while k < (300 if tier == 'quick' else 3000):
        l = [rnd.choice(M_ + ['-', '-', '-', 'e', 'g', '0', '9', ' ', '~']) for _ in range(rnd.randint(4, 7))]
        if l[0] != '^' and vclass(l): klass(l); k += 1
    return list(dict.fromkeys(out))

def cpp(p): return '"' + ''.join(c if 32 <= ord(c) < 127 and c not in '"\\?' else '\\%03o' % ord(c) for c in p) + '"'

def parse_obl(tier):
    out = []; u = [0]
    # ---- whole patterns
    pats = gen_patterns(tier); few = set(pats if tier != 'quick' else [q for i, q in enumerate(pats) if i % 3 == 0])
    for p in pats:
        try: t = Tree(p).build()
        except (ValueError, IndexError): continue
        out.append(O('"%s" is read as its grammar says' % p, 'C13' + (' C06' if p.count('(') > 1 and p in few else '') + (' C10 C04' if '{' in p and p in few else ''), 'same<typename tree_builder<build_pack_string_t<%s>>::tree, %s>' % (cpp(p), t), wit=[p], heavy=6))
    for p in short_patterns(tier):
        try: t = Tree(p).build()
        except (ValueError, IndexError): continue
        out.append(O('"%s" is read as its grammar says' % p, 'C13' + (' C07' if '[' in p or '$' in p or '^' in p else ''), 'same<typename tree_builder<build_pack_string_t<%s>>::tree, %s>' % (cpp(p), t), wit=[p], heavy=3))
    # ---- token list functions
    tok = lambda s: [c for c in s]
    def toks(s): return TU(*['X<%d>' % int(c) if c.isdigit() else P(c) for c in s])
    def tup(l): return TU(*[toks(x) for x in l])
    rnd = random.Random(4)
    def balanced_words(n, al='12()|[]{}'):
        r = []
        for _ in range(n):
            w = ''
            def go(d):
                s = ''
                for _ in range(rnd.randint(0, 4)):
                    c = rnd.random()
                    if c < 0.35 and d: s += rnd.choice(['(%s)', '[%s]', '{%s}', '(%s)'][:4]) % go(d - 1)
                    elif c < 0.65: s += rnd.choice('1234')
                    else: s += '|'
                return s
            r.append(go(4))
        return r
    def splitref(w):
        parts = ['']; d = 0
        for c in w:
            if c in '([{': d += 1
            if c in ')]}': d -= 1
            if c == '|' and d == 0: parts.append('')
            else: parts[-1] += c
        return parts
    W = ['a|b|c', '(a|b)|c', 'a|(b|c)|d', '((a|b)|c)|d', '(?:(a)|b)c|d', '(a(b)c)d', '((a)(b))c', '(((a)b)c)d', '[ab]|c', 'a{1,2}|b']
    for w in dict.fromkeys(balanced_words(160) + ['', '|', '1', '1|2', '||', '(1|2)|3', '((1|2)|3)|4', '[|]|1', '{1}|2', '(((((1|2)))))|3']):
        out.append(O('alternatives of %s' % w, 'C13 C05', "same<split_t<'|', %s>, %s>" % (toks(w), tup(splitref(w))), wit=W, heavy=3))
        out.append(O('%s is balanced' % w, 'C13', 'balanced_v<%s>' % toks(w)[3:-1], wit=W))
        for o_, c_ in ('()', '[]', '{}'):
            if len(w) > 14: continue
            rest = rnd.choice(['', '1', ')', '(1)', '12', ']', '|'])
            # delimiters of the other kinds are not looked at
            inner = w
            out.append(O('content of %s%s%s then %s' % (o_, w, c_, rest), 'C13 C06', "same<typename extract_delimited_content_t<'%s', '%s', %s>::result, %s> && same<typename extract_delimited_content_t<'%s', '%s', %s>::remaining, %s>" % (o_, c_, toks(w + c_ + rest), toks(w), o_, c_, toks(w + c_ + rest), toks(rest)), wit=W, heavy=2))
    for w in ('(', '(()', '1(', '((', '((1)', '{1', '[1(2)', '(1{2}', '1|('): out.append(O('%s is not balanced' % w, 'C13', '!balanced_v<%s>' % toks(w)[3:-1], wit=W))
    # step: any depth of nesting
    for d in list(range(0, 26)) + [100, 1000]:
        for t, nd, app in (("P<'('>", d + 1, True), ("P<')'>", d - 1, True), ('X<3>', d, True), ("P<'['>", d, True), ("P<'|'>", d, True)):
            if d == 0 and t == "P<')'>": continue
            u[0] += 1; m = 'RES<%d>' % (50000 + u[0])
            out.append(O('step of the delimited content: %s at depth %d' % (t, d), 'C13 C06', "same<typename extract_delimited_content<'(', ')', %du, TU<X<1>, X<2>>, TU<%s, TAIL<%d>>>::result, %s>" % (d, t, u[0], m), "template<> struct extract_delimited_content<'(', ')', %du, TU<X<1>, X<2>, %s>, TU<TAIL<%d>>> { using result = %s; using remaining = %s; };\n" % (nd, t, u[0], m, m), wit=['((((((a)b)c)d)e)f)g'] + W))
    for sep in ('X<5>', "P<'('>", "P<')'>", "P<'|'>"):
        for cur in ('', 'X<1>', "P<'('>, X<1>", "P<'('>, P<')'>", "P<'['>, P<'|'>"):
            for done in ('', ', TU<X<8>>', ', TU<X<8>>, TU<>'):
                bal = cur in ('', 'X<1>', "P<'('>, P<')'>"); u[0] += 1; t = 'TAIL<%d>' % u[0]; m = 'RES<%d>' % (50000 + u[0])
                new = 'TU<TU<>, TU<%s>%s>' % (cur, done) if sep == "P<'|'>" and bal else 'TU<TU<%s%s>%s>' % (cur + ', ' if cur else '', sep, done)
                out.append(O('step of the split: %s after [%s]%s' % (sep, cur, done), 'C13 C05', "same<typename split<'|', TU<%s, %s>, TU<TU<%s>%s>>::type, %s>" % (sep, t, cur, done, m), "template<> struct split<'|', TU<%s>, %s> { using type = %s; };\n" % (t, new, m), wit=W))
    # step of the tokenizer, for every first character
    for c in range(1, 256):
        if c in (0x5c, 0x7b): continue
        for tl in ((60, ), ()) if c % 16 == 1 or c < 64 else ((60,),):
            u[0] += 1; m = 'RES<%d>' % (50000 + u[0]); t = ''.join(', %s' % ch(200 + x % 7) for x in tl)
            if tl: out.append(O('step of the tokenizer: character %d' % c, 'C13', "same<typename tokenizer<TU<X<%d>>, P<%s%s>>::tokens, %s>" % (u[0], ch(c), t, m), "template<> struct tokenizer<TU<X<%d>, P<%s>>, P<%s>> { using tokens = %s; };\n" % (u[0], ch(c), t[2:], m), wit=[chr(c) + 'b'] if chr(c) not in '()[]|*+?^$' else W, heavy=2))
        u[0] += 1; m = 'RES<%d>' % (50000 + u[0])
        out.append(O('step of the tokenizer: escaped character %d' % c, 'C13 C07', "same<typename tokenizer<TU<X<%d>>, P<'\\\\', %s, 'q'>>::tokens, %s>" % (u[0], ch(c), m), "template<> struct tokenizer<TU<X<%d>, P<'\\\\', %s>>, P<'q'>> { using tokens = %s; };\n" % (u[0], ch(c), m), wit=['\\' + chr(c) + 'b'] if chr(c) not in 'xo01234567\0' and (chr(c) in '()[]|*+?^$\\/.{}' or not chr(c).isalnum()) else W, heavy=2))
    # step of the tree builder
    A = lambda: 'RES<%d>' % (50000 + u[0])
    def step(nm, last, tokens, calls, want, props='C13', wit=W):
        """tokens: types without the tail; calls: [(last, tokens, group index, result)] the recursive calls; want: the tree"""
        pre = ''.join('template<> struct tree_builder_helper<%s, %s, %d> { using tree = %s; };\n' % c for c in calls)
        out.append(O('step of the tree builder: ' + nm, props, 'same<typename tree_builder_helper<%s, TU<%s>, %d>::tree, %s>' % (last, ', '.join(tokens), calls[0][2] if not isinstance(nm, tuple) else 0, want), pre, wit=wit, heavy=2))
    LAST = {'nothing': ('void', '%s'), 'a character': ("simple<terminal<P<'a'>>>", "simple<terminal<P<'a'>>, %s>"), 'a group': ('group<simple<void, X<1>>, 2>', 'group<simple<void, X<1>>, 2, %s>'), 'a quantifier': ('greedy<X<1>, 2u, 3u>', 'greedy<X<1>, 2u, 3u, %s>'), 'repeated': ('repeated<X<1>, 4u>', 'repeated<X<1>, 4u, %s>'), 'lazy': ('lazy<X<1>, 0u, 7u>', 'lazy<X<1>, 0u, 7u, %s>'), 'possessive': ('possessive<X<1>, 1u>', 'possessive<X<1>, 1u, 4294967295u, %s>')}
    for ln, (l, add) in LAST.items():
        for g in (0, 1, 2, 3, 5, 9, 40):
            out.append(O('base of the tree builder after %s, group %d' % (ln, g), 'C13', 'same<typename tree_builder_helper<%s, TU<>, %d>::tree, %s>' % (l, g, l), wit=W))
            chars = [c for c in 'abz059 _-,:!#%&=<>~@;/.' ] if g == 0 or ln == 'nothing' else ['a', '.']
            for c in chars + (['^'] if ln != 'nothing' else []):
                u[0] += 1; t = 'TAIL<%d>' % u[0]
                step('character %s after %s, group %d' % (c, ln, g), l, ["P<%s>" % ch(ord(c)), t], [('simple<terminal<P<%s>>>' % ch(ord(c)), 'TU<%s>' % t, g, A())], add % A(), wit=['a' + c + 'b', '(a)' + c + 'b', 'a+' + c + 'b', c + 'b' if c != '^' else '^b'])
            for c in 'dDwWsnNtrf.*+?()[]{}|^$\\-/89':
                if g and c not in 'd.(': continue
                u[0] += 1; t = 'TAIL<%d>' % u[0]
                step('escaped %s after %s, group %d' % (c, ln, g), l, ["P<'\\\\', %s>" % ch(ord(c)), t], [("simple<terminal<P<'\\\\', %s>>>" % ch(ord(c)), 'TU<%s>' % t, g, A())], add % A(), props='C13 C07', wit=['\\' + c + 'b', '(a)\\' + c + 'b'] if c not in '89' else W)
            u[0] += 1; t = 'TAIL<%d>' % u[0]
            if ln == 'nothing': step('^ at the start, group %d' % g, l, ["P<'^'>", t], [('simple<terminals::anchors::start>', 'TU<%s>' % t, g, A())], A(), props='C13 C07', wit=['^a', '^(a)', '(^a)'])
            u[0] += 1; t = 'TAIL<%d>' % u[0]
            step('$ before more after %s, group %d' % (ln, g), l, ["P<'$'>", t], [("simple<terminal<P<'$'>>>", 'TU<%s>' % t, g, A())], add % A(), props='C13 C07', wit=['a$b', '$a', '(a)$b'])
            out.append(O('$ at the end after %s, group %d' % (ln, g), 'C13 C07', "same<typename tree_builder_helper<%s, TU<P<'$'>>, %d>::tree, %s>" % (l, g, add % 'simple<terminals::anchors::end>'), wit=['a$', '(a)$', '$', 'a*$']))
            if ln != 'nothing':
                for c, lo, hi in (('*', 0, UNB), ('+', 1, UNB), ('?', 0, 1)):
                    for pol, q in ((None, 'greedy'), ('?', 'lazy'), ('+', 'possessive')):
                        u[0] += 1; t = 'TAIL<%d>' % u[0]
                        step('%s%s after %s, group %d' % (c, pol or '', ln, g), l, ['P<%s>' % ch(ord(c))] + (['P<%s>' % ch(ord(pol))] if pol else []) + [t], [('%s<%s, %du, %du>' % (q, l, lo, hi), 'TU<%s>' % t, g, A())], A(), props='C13 C04', wit=['a%s%sab' % (c, pol or ''), '(a)%s%s(b)' % (c, pol or ''), 'ab%s%sb' % (c, pol or '')])
                for num, mk in ((["'2'"], 'repeated<%s, 2u>'), (["'1', '2'", None], '%s<%s, 12u>'), (["'0'", None, "'3', '5'"], '%s<%s, 0u, 35u>')):
                    for pol, q in ((None, 'greedy'), ('?', 'lazy'), ('+', 'possessive')):
                        if len(num) == 1 and pol: continue
                        u[0] += 1; t = 'TAIL<%d>' % u[0]; nn = ['P<%s>' % (x or "','") for x in num]
                        node = mk % l if len(num) == 1 else mk % (q, l)
                        step('{%s}%s after %s, group %d' % (num, pol or '', ln, g), l, ["P<'{'>"] + nn + ["P<'}'>"] + (['P<%s>' % ch(ord(pol))] if pol else []) + [t], [(node, 'TU<%s>' % t, g, A())], A(), props='C13 C04 C10', wit=['a{2}b', 'a{12,}%sab' % (pol or ''), 'a{0,35}%sab' % (pol or '')])
            # groups: the body is one opaque token, or several alternatives
            for body, nx in ((['X<7>'], [g + 4]), (['X<7>'], [0]), (['X<7>', 'X<8>'], [g + 4, 0]), (['X<7>', 'X<8>'], [0, g + 3]), (['X<7>', 'X<8>', 'X<9>'], [g + 2, g + 3, 0])):
                for cap in (True, False):
                    u[0] += 1; k = u[0]; t = 'TAIL<%d>' % k; br = ["TU<X<%d>>" % (k * 10 + i) for i in range(len(body))]
                    g0 = g + 1 if cap else g; calls = []; subs = []; cur = g0
                    for i in range(len(body)):
                        m = 'RES<%d, %d>' % (2000000 + k * 10 + i, nx[i]); subs.append(m); calls.append(('void', br[i], cur, m)); cur = max(cur, nx[i])
                    inner = 'simple<void, %s>' % ', '.join(subs)
                    node = 'group<%s, %d>' % (inner, g) if cap else 'simple<%s>' % inner
                    after = max([g + 1] + nx) if cap else max([g] + nx)
                    calls.append((node, 'TU<%s>' % t, after, A()))
                    tks = ["P<'('>"] + ([] if cap else ["P<'?'>", "P<':'>"])
                    for i in range(len(body)): tks += (["P<'|'>"] if i else []) + [br[i][3:-1]]
                    pre = ''.join('template<> struct tree_builder_helper<%s, %s, %d> { using tree = %s; };\n' % c for c in calls)
                    gp = '(x)' * min(g, 9)
                    ws = [gp + '(' + ('' if cap else '?:') + '|'.join(['(a)', 'b', '(c)'][:len(body)]) + ')(d)', gp + '(' + ('' if cap else '?:') + '|'.join(['a', '(b)', '(c)'][:len(body)]) + ')(d)', gp + '(' + ('' if cap else '?:') + '|'.join(['(a)(b)', '(c)', '(e)'][:len(body)]) + ')(d)']
                    out.append(O('step of the tree builder: %s group of %d alternatives (%s) after %s, group %d' % ('capturing' if cap else 'plain', len(body), nx, ln, g), 'C13 C06 C05', 'same<typename tree_builder_helper<%s, TU<%s>, %d>::tree, %s>' % (l, ', '.join(tks + ["P<')'>", t]), g, add % A()), pre, wit=ws, heavy=3))
            # classes, the rest opaque
            for neg in (False, True):
                for mem, ty in ((["P<'a'>"], ["exact_matcher<P<'a'>>"]), (["P<'a'>", "P<'-'>", "P<'f'>", "P<'\\\\', 'd'>", "P<'.'>"], ["range_terminal<P<'a'>, P<'f'>>", "terminal<P<'\\\\', 'd'>>", "exact_matcher<P<'.'>>"])):
                    if g > 1: continue
                    u[0] += 1; t = 'TAIL<%d>' % u[0]; b = 'simple<void, %s>' % ', '.join('simple<%s>' % x for x in ty)
                    step('class of %d members%s after %s, group %d' % (len(ty), ' negated' if neg else '', ln, g), l, ["P<'['>"] + (["P<'^'>"] if neg else []) + mem + ["P<']'>", t], [('simple<negated_node<%s>>' % b if neg else 'simple<%s>' % b, 'TU<%s>' % t, g, A())], add % A(), props='C13 C07', wit=['[a]b', '[^a]b', '[a-f\\d.]b', '[^a-f\\d.]b', '(x)[a]b'])
            # numeric escapes, the rest opaque
            for tk_, by in (("P<'\\\\', 'x'>|P<'4'>|P<'1'>", 'A'), ("P<'\\\\', 'x'>|P<'f'>|P<'F'>", '\xff'), ("P<'\\\\', 'x'>|P<'{'>|P<'4', '1', '4', '2'>|P<'}'>", 'AB'), ("P<'\\\\', '1'>|P<'0'>|P<'1'>", 'A'), ("P<'\\\\', 'o'>|P<'{'>|P<'1', '0', '1', '1', '0', '2'>|P<'}'>", 'AB'), ("P<'\\\\', 'x'>|P<'a'>", '\x0a')):
                if g > 2: continue
                u[0] += 1; t = 'TAIL<%d>' % u[0]
                step('numeric escape %s after %s, group %d' % (tk_, ln, g), l, tk_.split('|') + [t], [('simple<exact_matcher<%s>>' % P(by), 'TU<%s>' % t, g, A())], add % A(), props='C13 C10', wit=['\\x41b', '\\x{4142}b', '\\101b', '\\o{101102}b', '\\xag', '(a)\\x41b'])
    # members of a class: each step, the rest opaque
    for last, addb in (('simple<void>', 'simple<void, %s>'), ('simple<void, X<1>, X<2>>', 'simple<void, X<1>, X<2>, %s>')):
        for c in range(1, 256):
            if c == 45: continue
            u[0] += 1; t = 'TAIL<%d>' % u[0]; m = A()
            for tks, ty, w in (([P([c])], 'exact_matcher<%s>' % P([c]), None), ([P([92, c])], 'terminal<%s>' % P([92, c]), None)):
                if last != 'simple<void>' and c % 8: continue
                u[0] += 1; t = 'TAIL<%d>' % u[0]; m = A()
                cc = chr(c); safe = cc.isalnum() or cc in ' _,:;!#%&=<>~@/"\''
                out.append(O('step of a class: %s after %s' % (tks, last), 'C13 C07', 'same<typename square_bracker_tree_builder_helper<%s, TU<%s, %s>, 3>::tree, %s>' % (last, tks[0], t, m), 'template<> struct square_bracker_tree_builder_helper<%s, TU<%s>, 3> { using tree = %s; };\n' % (addb % ('simple<%s>' % ty), t, m), wit=(['[%sq]' % cc, '[^q%s]' % cc] if safe and len(tks[0]) < 9 else ['[\\%sq]' % cc]) if cc not in '\\' else W))
        for a, b in (('a', 'f'), ('0', '9'), (' ', '~'), ('z', 'z'), ('A', 'Z')):
            u[0] += 1; t = 'TAIL<%d>' % u[0]; m = A()
            out.append(O('step of a class: %s-%s after %s' % (a, b, last), 'C13 C07', "same<typename square_bracker_tree_builder_helper<%s, TU<%s, P<'-'>, %s, %s>, 3>::tree, %s>" % (last, P(a), P(b), t, m), 'template<> struct square_bracker_tree_builder_helper<%s, TU<%s>, 3> { using tree = %s; };\n' % (addb % ('simple<range_terminal<%s, %s>>' % (P(a), P(b))), t, m), wit=['[%s-%s]' % (a, b), '[x%s-%sy]' % (a, b)]))
        out.append(O('base of a class after ' + last, 'C13', 'same<typename square_bracker_tree_builder_helper<%s, TU<>, 3>::tree, %s>' % (last, last), wit=['[a]', '[ab]']))
    # alternatives of the whole pattern
    for n in range(1, 6):
        for nxs in ([0] * n, [2, 0, 5, 1, 3][:n], [5, 4, 3, 2, 1][:n], [1, 2, 3, 4, 5][:n]):
            for cls_ in ('branched', 'tree_builder_branches'):
                for g in (0, 2):
                    u[0] += 1; k = u[0]; cur = g; pre = ''; subs = []
                    for i in range(n):
                        m = 'RES<%d, %d>' % (3000000 + k * 10 + i, nxs[i]); subs.append(m); pre += 'template<> struct tree_builder_helper<void, TU<X<%d>>, %d> { using tree = %s; };\n' % (k * 10 + i, cur, m); cur = max(cur, nxs[i])
                    out.append(O('%s: %d alternatives, next groups %s, from %d' % (cls_, n, nxs, g), 'C13 C06 C05', 'same<typename %s<TU<>, TU<%s>, %d>::tree, simple<void, %s>>' % (cls_, ', '.join('TU<X<%d>>' % (k * 10 + i) for i in range(n)), g, ', '.join(subs)), pre, wit=['(?:(a)|b|(c)|d|(e))(f)', '(a)|b|(c)(d)|e', '(x)(y)(?:' + '|'.join(['(a)', 'b', '(c)(d)', '(e)', 'f'][:n]) + ')(g)', '(x)(y)(?:' + '|'.join(['(a)', '(b)', '(c)', '(e)', '(f)'][:n]) + ')(g)', '|'.join(['(a)', '(b)(x)', '(c)', '(e)', '(f)'][:n])]))
    # lists
    for n in range(0, 12):
        xs = ['X<%d>' % i for i in range(n)]
        out.append(O('reverse of %d' % n, 'C13', 'same<reverse_t<%s>, %s>' % (TU(*xs), TU(*reversed(xs))), wit=W))
        out.append(O('concatenation of %d and 3' % n, 'C13', "same<tuple_cat_t<%s, TU<P<'a'>, X<50>, TU<>>>, %s>" % (TU(*xs), TU(*(xs + ["P<'a'>", 'X<50>', 'TU<>']))), wit=W))
        out.append(O('first of %d' % n, 'C13', 'same<first_type_t<%s>, %s> && same<typename first_type<%s>::remaining, %s>' % (TU(*xs), xs[0] if xs else 'void', TU(*xs), TU(*xs[1:])), wit=W))
    for s in ('', 'a', 'ab', '\\d+[a-z]', '\xff\x80', 'x' * 40):
        out.append(O('the characters of the string %r' % s, 'C13', 'same<build_pack_string_t<%s>, %s>' % (cpp(s), P(s)), hard=True))
    return out

# ------------------------------------------------------------------ running
def all_obl(p, tier):
    out = []
    G = {'C09': [sets_obl, meta_obl, indep_obl], 'C08': [sets_obl, meta_obl, opt_obl], 'C06': [meta_obl, parse_obl], 'C10': [num_obl, parse_obl], 'C13': [parse_obl, num_obl, meta_obl], 'C05': [parse_obl], 'C04': [num_obl, parse_obl], 'C07': [sets_obl, parse_obl], 'C12': [meta_obl]}
    for f in G.get(p, []) if p else [sets_obl, meta_obl, indep_obl, opt_obl, num_obl, parse_obl]: out += [o for o in f(tier) if not p or p in o.props]
    return out

def text(obls):
    pre = []; seen = set(); body = []
    for k, o in obls:
        for d in o.pre.split('\n'):
            if d and d not in seen: seen.add(d); pre.append(d)
        body.append('static_assert(%s, "OBL%d");' % (o.cond, k))
    h = HEAD + '\n'.join(pre) + '\n'
    return h + '\n'.join(body) + '\n' + TAILS, h.count('\n') + 1

def _run(a):
    """-> {index: (ok, message)}; ok None = the text does not compile"""
    wd, tag, obls, deadline = a
    if not obls: return {}
    if time.time() > deadline: return {k: (None, 'not run: out of time') for k, o in obls}
    f = os.path.join(wd, tag + '.cpp'); t, line0 = text(obls); open(f, 'w').write(t)
    try:
        r = subprocess.run([CXX, '-std=c++23', '-fsyntax-only', '-w', '-fmax-errors=0', '-ftemplate-depth=4000', '-fconstexpr-ops-limit=400000000', '-I' + build.SRC, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=max(20, deadline - time.time()))
        err = r.stderr; rc = r.returncode
    except subprocess.TimeoutExpired: return {k: (None, 'not run: out of time') for k, o in obls}
    os.unlink(f)
    if rc == 0: return {k: (True, '') for k, o in obls}
    fails = {int(x) for x in re.findall(r'error: static assertion failed: OBL(\d+)', err)}
    others = [l for l in err.splitlines() if ' error: ' in l and 'static assertion failed: OBL' not in l]
    if len(obls) == 1:
        if not others and fails: return {obls[0][0]: (False, 'static assertion failed: ' + obls[0][1].cond[:500])}
        return {obls[0][0]: (None, (others or [err[-300:]])[0][-400:])}
    # a failure counts only if it persists alone, without the specialisations of other obligations
    lines = {int(x) - line0 for x in re.findall(re.escape(f) + r':(\d+):', err)}
    sus = [x for i, x in enumerate(obls) if x[0] in fails or i in lines]
    rest = [x for i, x in enumerate(obls) if not (x[0] in fails or i in lines)]
    if others and (not sus or any(l < 0 for l in lines)): h = len(obls) // 2; sus = []; parts = [obls[:h], obls[h:]]
    else: parts = [rest] if others else []
    res = {k: (True, '') for k, o in rest} if sus and not others else {}
    for i, x in enumerate(parts): res.update(_run((wd, tag + 'ab'[i], x, deadline)))
    for x in sus[:8]: res.update(_run((wd, tag + '_%d' % x[0], [x], deadline)))
    n_soft = sum(1 for x in sus[:8] if res[x[0]][0] is None)
    for x in sus[8:]: res[x[0]] = ((False if x[0] in fails and not n_soft else None), 'static assertion failed: ' + x[1].cond[:300])
    return res

def chunks(obls, budget):
    """obligations with specialisations of their own are kept apart from those without, and so that no two specialise the same"""
    plain = []; spec = []
    for k, o in enumerate(obls): (spec if 'template<>' in o.pre else plain).append((k, o))
    out = []
    def pack(l, apart):
        cur = []; w = 0; heads = set()
        for k, o in l:
            hs = {d.split('{')[0] for d in o.pre.split('\n') if d} if apart else set()
            if cur and (w + o.heavy > budget or hs & heads): out.append(cur); cur = []; w = 0; heads = set()
            cur.append((k, o)); w += o.heavy if o.heavy < 100 else 2; heads |= hs
        if cur: out.append(cur)
    pack(plain, False)
    # spread the steps, so that neighbours do not meet
    pack(sorted(spec, key=lambda x: (x[0] * 7919) % 10007), True)
    return out

def run(p, tier, log=None, budget=None):
    """-> [(name, ok, hard, output, witnesses)]"""
    obls = all_obl(p, tier)
    if not obls: return []
    wd = tempfile.mkdtemp(prefix='v2_')
    try:
        cs = chunks(obls, 160); res = {}; deadline = time.time() + (budget or (150 if tier == 'quick' else 900))
        with mp.get_context('fork').Pool(os.cpu_count() or 8) as pool:
            for r in pool.imap_unordered(_run, [(wd, 'c%d' % i, c, deadline) for i, c in enumerate(cs)], 1): res.update(r)
    finally: shutil.rmtree(wd, ignore_errors=True)
    out = []
    for k, o in enumerate(obls):
        ok, msg = res.get(k, (None, 'not run'))
        out.append((o.name, ok is True, o.hard and ok is False, msg, o.wit))
    return out

if __name__ == '__main__':
    t = time.time(); p = sys.argv[1] if len(sys.argv) > 1 else None
    r = run(None if p == 'all' else p, sys.argv[2] if len(sys.argv) > 2 else 'quick')
    bad = [x for x in r if not x[1]]
    for x in bad[:25]: print(x[0], '| hard' if x[2] else '| soft', '|', x[3][:300])
    print(len(r), 'obligations', len(bad), 'failed', '%.0fs' % (time.time() - t))
