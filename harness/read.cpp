// Read-only algorithms (C11 count, C12 find, C13 equal): every geometry within the
// bounds, results against plain loops, memory compared afterwards.
#include "cpu.hpp"
#include "planes.hpp"
#include "bits.hpp"
#include <algorithm>
using namespace vf;

static unsigned char* cur_mem; static size_t cur_n;       // the memory of the case
struct G { int W, words, align, kind, N; unsigned char* mem; };
static G geo(const ll* a) { G g; g.W = (int)a[0]; g.words = (int)a[1]; g.align = (int)a[2]; g.kind = (int)a[3]; g.N = g.W * g.words; g.mem = area() + g.align; cur_mem = g.mem; cur_n = g.N / 8; VF_SEQUENCE(g.mem, cur_n); return g; }
static inline bool getb(const unsigned char* m, ll i) { return m[i / 8] >> (i % 8) & 1; }
static inline void flipb(unsigned char* m, ll i) { m[i / 8] ^= (unsigned char)(1 << (i % 8)); }
static void setrange(unsigned char* m, ll f, ll l, bool v) { for (; f < l && f % 8; ++f) { if (v) m[f / 8] |= (unsigned char)(1 << (f % 8)); else m[f / 8] &= (unsigned char)~(1 << (f % 8)); }
    for (; f + 8 <= l; f += 8) m[f / 8] = v ? 0xff : 0; for (; f < l; ++f) { if (v) m[f / 8] |= (unsigned char)(1 << (f % 8)); else m[f / 8] &= (unsigned char)~(1 << (f % 8)); } }
// iterators over constant words
template <class W> struct CIt {
#if VF_ITER == 0
    typedef typename std::vector<W>::const_iterator base; static base make(const W* p) { return base(p); }
    static const W* ptr(base b) { return b.base(); }
#elif VF_ITER == 2
    typedef SegIt<const W> base; static base make(const W* p) { return base(p); }
    static const W* ptr(base b) { return b.raw(); }
#elif VF_ITER == 3
    typedef StrictIt<const W> base; static base make(const W* p) { return base(p); }
    static const W* ptr(base b) { return b.raw(); }
#else
    typedef const W* base; static base make(const W* p) { return p; }
    static const W* ptr(base b) { return b; }
#endif
    typedef bit::bit_iterator<base> it;
};
template <class W> static typename CIt<W>::it cat(const unsigned char* m, ll i) { constexpr ll d = dig<W>(); return typename CIt<W>::it(CIt<W>::make(reinterpret_cast<const W*>(m) + i / d), (std::size_t)(i % d)); }
template <class W> static ll cindex(const unsigned char* m, typename CIt<W>::it i) { if (i.position() >= (std::size_t)dig<W>()) return -1000000; return (CIt<W>::ptr(i.base()) - reinterpret_cast<const W*>(m)) * (ll)dig<W>() + (ll)i.position(); }

#if VF_PROP == 11
struct Pre { std::vector<std::vector<int>> pre; };
static const Pre& prefixes(int N, int kind) {
    static std::map<std::pair<int,int>, Pre> m; auto it = m.find({N, kind}); if (it != m.end()) return it->second;
    Pre p; for (auto& k : contents(N, kind).chunks) for (int i = 0; i < k.P; ++i) { std::vector<int> v(N + 1); for (int j = 0; j < N; ++j) v[j + 1] = v[j] + getb(&k.packed[(size_t)i * (N / 8)], j); p.pre.push_back(v); }
    return m[{N, kind}] = p;
}
// first last const
template <class W> static void count_t(const ll* a) {
    G g = geo(a); ll f = a[4], l = a[5]; bool cst = a[6];
    const Contents& C = contents(g.N, g.kind); const Pre& P = prefixes(g.N, g.kind); size_t q = 0;
    for (auto& k : C.chunks) for (int i = 0; i < k.P; ++i, ++q) {
        const unsigned char* in = &k.packed[(size_t)i * C.stride]; memcpy(g.mem, in, g.N / 8);
        for (int v = 0; v < 2; ++v) {
            ll ones = P.pre[q][l] - P.pre[q][f], want = v ? ones : l - f - ones;
            VF_SCATTER(cur_mem, cur_n);
            ll got = cst ? (ll)bit::count(cat<W>(g.mem, f), cat<W>(g.mem, l), bv(v)) : (ll)bit::count(at<W>(g.mem, f), at<W>(g.mem, l), bv(v));
            ++nevals;
            VF_CHECK(got == want, "count of %d is %lld, expected %lld; content %s", v, got, want, show_bits(in, 0, std::min(g.N, 200)).c_str());
        }
        VF_GATHER(cur_mem, cur_n); VF_CHECK(!memcmp(g.mem, in, g.N / 8), "count changed the memory");
    }
}
static void count_case(const ll* a) { VF_DISPATCH(a[0], count_t, a); }
VF_REGISTER(count_case);
// every position of a single one / a single zero in a long range: first last
template <class W> static void countone_t(const ll* a) {
    G g = geo(a); ll f = a[4], l = a[5];
    for (int v = 0; v < 2; ++v) {
        setrange(g.mem, 0, g.N, !v);
        for (ll j = 0; j < g.N; ++j) {
            flipb(g.mem, j); VF_SCATTER(cur_mem, cur_n);
            ll in = j >= f && j < l, got = (ll)bit::count(at<W>(g.mem, f), at<W>(g.mem, l), bv(v)); ++nevals;
            VF_CHECK(got == in, "count of %d is %lld, expected %lld (single bit at %lld)", v, got, in, j);
            flipb(g.mem, j);
        }
    }
}
static void countone_case(const ll* a) { VF_DISPATCH(a[0], countone_t, a); }
VF_REGISTER(countone_case);
#if VF_ITER < 2
// large blocks of equal words (sums of many counts): bytes first last, pattern
template <class W> static void countrun_t(const ll* a) {
    ll bytes = a[1], p = a[2], q = a[3]; static unsigned char* buf = (unsigned char*)aligned_alloc(4096, 1 << 25);
    unsigned char* m = buf + 4096; ll f = p, l = bytes * 8 - q;
    for (int pat : {0xff, 0, 0x55, 0x80, 0x7f}) {
        memset(m, pat, bytes);
        ll ones = bytes / 1 * __builtin_popcount(pat);
        for (ll i = 0; i < f; ++i) ones -= getb(m, i); for (ll i = l; i < bytes * 8; ++i) ones -= getb(m, i);
        for (int v = 0; v < 2; ++v) { ll want = v ? ones : l - f - ones, got = (ll)bit::count(at<W>(m, f), at<W>(m, l), bv(v)); ++nevals;
            VF_CHECK(got == want, "count of %d is %lld, expected %lld; %lld bytes of %d", v, got, want, bytes, pat); }
    }
}
static void countrun_case(const ll* a) { VF_DISPATCH(a[0], countrun_t, a); }
VF_REGISTER(countrun_case);
#endif
#endif

#if VF_PROP == 12
template <class W> static ll do_find(unsigned char* m, ll f, ll l, bool v, bool cst) { ++nevals; VF_SCATTER(cur_mem, cur_n); return cst ? cindex<W>(m, bit::find(cat<W>(m, f), cat<W>(m, l), bv(v))) : index<W>(m, bit::find(at<W>(m, f), at<W>(m, l), bv(v))); }
// every content: first last const
template <class W> static void find_t(const ll* a) {
    G g = geo(a); ll f = a[4], l = a[5]; bool cst = a[6];
    const Contents& C = contents(g.N, g.kind);
    for (auto& k : C.chunks) for (int i = 0; i < k.P; ++i) {
        const unsigned char* in = &k.packed[(size_t)i * C.stride]; memcpy(g.mem, in, g.N / 8);
        for (int v = 0; v < 2; ++v) {
            ll want = f; while (want < l && getb(in, want) != (bool)v) ++want;
            ll got = do_find<W>(g.mem, f, l, v, cst);
            VF_CHECK(got == want, "find %d gave index %lld, expected %lld; content %s", v, got, want, show_bits(in, 0, std::min(g.N, 300)).c_str());
        }
        VF_GATHER(cur_mem, cur_n); VF_CHECK(!memcmp(g.mem, in, g.N / 8), "find changed the memory");
    }
}
static void find_case(const ll* a) { VF_DISPATCH(a[0], find_t, a); }
VF_REGISTER(find_case);
// first match at every place: first last; bits outside match or not, bits behind the match match or not
template <class W> static void findat_t(const ll* a) {
    G g = geo(a); ll f = a[4], l = a[5]; bool cst = a[6];
    for (int v = 0; v < 2; ++v) for (int outside = 0; outside < 2; ++outside) for (int behind = 0; behind < 2; ++behind) {
        setrange(g.mem, 0, g.N, outside ? v : !v);
        setrange(g.mem, f, l, behind ? v : !v);
        // move the match from the front to the back
        for (ll j = f; j <= l; ++j) {
            if (j < l && !behind) flipb(g.mem, j);                      // single match at j
            ll got = do_find<W>(g.mem, f, l, v, cst);
            VF_CHECK(got == j, "find %d gave index %lld, expected %lld (outside=%d behind=%d)", v, got, j, outside, behind);
            if (j < l) flipb(g.mem, j);                                 // bit j no longer matches
        }
    }
}
static void findat_case(const ll* a) { VF_DISPATCH(a[0], findat_t, a); }
VF_REGISTER(findat_case);
// first match value in a word, all values of the word around it: every byte value at byte j of the range
template <class W> static void findval_t(const ll* a) {
    G g = geo(a); ll f = a[4], l = a[5];
    for (int v = 0; v < 2; ++v) {
        setrange(g.mem, 0, g.N, v); setrange(g.mem, f, l, !v);
        for (ll j = (f + 7) / 8; j < l / 8; ++j) {
            for (int x = 0; x < 256; ++x) {
                g.mem[j] = (unsigned char)(v ? x : ~x);
                ll want = l; if (x) want = j * 8 + __builtin_ctz(x);
                ll got = do_find<W>(g.mem, f, l, v, false);
                VF_CHECK(got == want, "find %d gave index %lld, expected %lld (byte %lld = %d)", v, got, want, j, g.mem[j]);
            }
            g.mem[j] = v ? 0 : 0xff;
        }
    }
}
static void findval_case(const ll* a) { VF_DISPATCH(a[0], findval_t, a); }
VF_REGISTER(findval_case);
// words of an alphabet in every order: words before, words of the alphabet (their number), position of the range in its first and last word
template <class W> static void findwords_t(const ll* a) {
    G g = geo(a); int lead = (int)a[4], n = (int)a[5]; ll p = a[6], q = a[7]; constexpr int D = dig<W>();
    const W al[] = {0, 1, (W)((W)1 << (D - 1)), (W)((W)1 << (D / 2)), (W)((W)1 << (D / 2 - 1)), (W)((W)~(W)0 << (D - 1)), (W)~(W)0, (W)(~(W)0 / 3)}; const int K = 8;
    W* w = reinterpret_cast<W*>(g.mem); int total = 1; for (int i = 0; i < n; ++i) total *= K;
    for (int v = 0; v < 2; ++v) {
        for (int i = 0; i < g.words; ++i) w[i] = v ? 0 : (W)~(W)0;
        ll f = p, l = (ll)(lead + n) * D - q;
        for (int c = 0; c < total; ++c) {
            for (int i = 0, r = c; i < n; ++i, r /= K) w[lead + i] = v ? al[r % K] : (W)~al[r % K];
            ll want = f; while (want < l && getb(g.mem, want) != (bool)v) ++want;
            ll got = do_find<W>(g.mem, f, l, v, c & 1);
            VF_CHECK(got == want, "find %d gave index %lld, expected %lld; words %s", v, got, want, show_bits(g.mem, 0, std::min(g.N, 400)).c_str());
        }
    }
}
static void findwords_case(const ll* a) { VF_DISPATCH(a[0], findwords_t, a); }
VF_REGISTER(findwords_case);
#endif

#if VF_PROP == 13
template <class W> static bool do_equal(unsigned char* m, ll f, ll n, ll s, int how) {
    ++nevals; VF_SCATTER(cur_mem, cur_n);
    switch (how) {
        case 1: return bit::equal(cat<W>(m, f), cat<W>(m, f + n), cat<W>(m, s));
        case 2: return bit::equal(at<W>(m, f), at<W>(m, f + n), cat<W>(m, s));
        case 3: return bit::equal(cat<W>(m, f), cat<W>(m, f + n), at<W>(m, s));
        case 4: return bit::equal(at<W>(m, f), at<W>(m, f + n), at<W>(m, s), at<W>(m, s + n));
        default: return bit::equal(at<W>(m, f), at<W>(m, f + n), at<W>(m, s));
    }
}
// any content, ranges anywhere in one memory: first len second how
template <class W> static void equal_t(const ll* a) {
    G g = geo(a); ll f = a[4], n = a[5], s = a[6]; int how = (int)a[7];
    const Contents& C = contents(g.N, g.kind);
    for (auto& k : C.chunks) for (int i = 0; i < k.P; ++i) {
        const unsigned char* in = &k.packed[(size_t)i * C.stride]; memcpy(g.mem, in, g.N / 8);
        bool want = true; for (ll j = 0; j < n && want; ++j) want = getb(in, f + j) == getb(in, s + j);
        bool got = do_equal<W>(g.mem, f, n, s, how);
        VF_CHECK(got == want, "equal gave %d, expected %d; content %s", got, want, show_bits(in, 0, std::min(g.N, 300)).c_str());
        VF_GATHER(cur_mem, cur_n); VF_CHECK(!memcmp(g.mem, in, g.N / 8), "equal changed the memory");
    }
}
static void equal_case(const ll* a) { VF_DISPATCH(a[0], equal_t, a); }
VF_REGISTER(equal_case);
// separate ranges with equal bits, everything around different; then one difference at every place: first len second how
template <class W> static void equalat_t(const ll* a) {
    G g = geo(a); ll f = a[4], n = a[5], s = a[6]; int how = (int)a[7];
    for (int c = 0; c < 4; ++c) {
        for (int b = 0; b < g.N / 8; ++b) g.mem[b] = c == 0 ? 0 : c == 1 ? 0xff : (unsigned char)mix(seed * 77 + b * 4 + c);
        ll before = std::min(std::min(f, s), (ll)g.W), after = std::min(std::min(g.N - f - n, g.N - s - n), (ll)g.W);
        bool f_first = f < s;
        for (ll j = -before; j < n + after; ++j) {
            bool x = getb(g.mem, f + j); bool y = j < 0 || j >= n ? !x : x;
            ll t = s + j; bool inside_first = t >= f && t < f + n;     // never touch the first range
            if (inside_first) continue;
            if (getb(g.mem, t) != y) flipb(g.mem, t);
        }
        (void)f_first;
        bool want = true; for (ll j = 0; j < n && want; ++j) want = getb(g.mem, f + j) == getb(g.mem, s + j);
        bool got = do_equal<W>(g.mem, f, n, s, how);
        VF_CHECK(got == want, "equal gave %d, expected %d (bits around the ranges differ)", got, want);
        if (!want) continue;
        for (ll j = 0; j < n; ++j) for (int side = 0; side < 2; ++side) {
            flipb(g.mem, (side ? s : f) + j);
            bool r = do_equal<W>(g.mem, f, n, s, how);
            VF_CHECK(!r, "equal gave true although bit %lld differs", j);
            flipb(g.mem, (side ? s : f) + j);
        }
    }
}
static void equalat_case(const ll* a) { VF_DISPATCH(a[0], equalat_t, a); }
VF_REGISTER(equalat_case);
// two differences, in the same place of two words: first len second
template <class W> static void equaltwo_t(const ll* a) {
    G g = geo(a); ll f = a[4], n = a[5], s = a[6]; constexpr ll D = dig<W>();
    for (int c = 0; c < 3; ++c) {
        for (int b = 0; b < g.N / 8; ++b) g.mem[b] = c == 0 ? 0 : c == 1 ? 0xff : (unsigned char)mix(seed * 79 + b);
        for (ll j = 0; j < n; ++j) if (getb(g.mem, f + j) != getb(g.mem, s + j)) flipb(g.mem, s + j);
        for (ll j = 0; j < n; ++j) for (ll k = j + D; k < n; k += D) for (int how : {0, 1, 2}) {
            // flip both on one side, or one on each
            ll x = how == 2 ? s + j : f + j, y = how == 0 ? f + k : s + k; if (how == 1) y = s + k; 
            flipb(g.mem, x); flipb(g.mem, y);
            VF_CHECK(!do_equal<W>(g.mem, f, n, s, 0), "equal gave true although bits %lld and %lld differ", j, k);
            flipb(g.mem, x); flipb(g.mem, y);
        }
    }
}
static void equaltwo_case(const ll* a) { VF_DISPATCH(a[0], equaltwo_t, a); }
VF_REGISTER(equaltwo_case);
// ranges of different length: first len1 second len2 (four-iterator form)
template <class W> static void equallen_t(const ll* a) {
    G g = geo(a); ll f = a[4], n = a[5], s = a[6], n2 = a[7];
    for (int c = 0; c < 2; ++c) { memset(g.mem, c ? 0xff : 0, g.N / 8); ++nevals; VF_SCATTER(cur_mem, cur_n);
        bool got = bit::equal(at<W>(g.mem, f), at<W>(g.mem, f + n), at<W>(g.mem, s), at<W>(g.mem, s + n2));
        VF_CHECK(got == (n == n2), "equal of ranges of %lld and %lld equal bits gave %d", n, n2, got); }
}
static void equallen_case(const ll* a) { VF_DISPATCH(a[0], equallen_t, a); }
VF_REGISTER(equallen_case);
#endif

struct Block { int W, words, align, kind; bool allpos; };
static std::vector<ll> idx(const Block& b, ll lo, ll hi) {
    std::vector<ll> v; auto pos = positions(b.W, b.allpos); std::vector<char> ok(b.W); for (int p : pos) ok[p] = 1;
    for (ll i = lo; i <= hi; ++i) if (ok[i % b.W]) v.push_back(i);
    return v;
}
template <class F> static void pairs(const Block& b, F f) { auto v = idx(b, 0, (ll)b.W * b.words); for (ll x : v) for (ll y : v) if (x <= y) f(x, y); }
static int maxwords_long(int W) { return W == 8 ? 150 : W == 16 ? 80 : W == 32 ? 44 : W == 64 ? 26 : 14; }
#define GEO b.W, b.words, b.align, b.kind
void vf::enumerate() {
#if VF_PROP == 11
    for (Block b : {Block{8, 2, 0, -1, true}, Block{16, 1, 0, -1, true}}) pairs(b, [&](ll f, ll l) { RUN(count_case, GEO, f, l, 0); RUN(count_case, GEO, f, l, 1); });
    for (int W : VF_WORDS) { Block b{W, W == 8 ? 12 : W == 128 ? 4 : 6, 0, 10, true}; pairs(b, [&](ll f, ll l) { RUN(count_case, GEO, f, l, 0); RUN(count_case, GEO, f, l, 1); sample(fmt("count width=%d words=%d range=[%lld,%lld)", W, b.words, f, l)); }); }
    // every number of whole words up to beyond twice the largest block of the bulk kernels, at several borders
    for (int W : VF_WORDS) {
        int bytes = thorough ? 3400 : 2300; int words = (bytes * 8) / W + 4;
        for (int al : {0, W / 8, 32, 64 - W / 8}) {
            Block b{W, words, al, 3, false};
            std::vector<int> fp = {0, 1, W - 1}, lp = {0, 1, W - 1};
            for (int w = 0; w <= words - 3; ++w) for (int p : fp) for (int q : lp) if (al == 0 || p == 1 || thorough) RUN(count_case, GEO, (ll)W + p, (ll)W * (1 + w + 1) + q, 0);
            // and ranges in the middle of the memory, word by word
            for (int w : {8 * 64 / W, 8 * 512 / W, 8 * 1024 / W}) for (int o = -2; o <= 2; ++o) for (int s0 = 0; s0 < 64 * 8 / W; ++s0) if (s0 + w + o + 1 < words && w + o > 0) RUN(count_case, GEO, (ll)W * s0, (ll)W * (s0 + w + o), 1);
        }
        for (int kb : {300, 530, 1040, thorough ? 2600 : 1100}) { int nw = kb * 8 / W; Block b{W, nw + 2, 0, 0, false}; for (int p : {0, 3}) for (int q : {0, 5}) RUN(countone_case, GEO, (ll)W + p, (ll)W * (nw) + q); }
    }
#if VF_ITER < 2
    for (int W : VF_WORDS) for (ll kb : {16, 64, 128, 256, 512, 1024, 2048, thorough ? 16384 : 3072}) for (ll o : {-1, 0, 1, 4}) for (int p : {0, 3}) RUN(countrun_case, W, kb * 1024 + o * 64, p, p ? 5 : 0);
#endif
#elif VF_PROP == 12
    for (int W : VF_WORDS) {
        int per = 64 * 8 / W;
        for (int lead : {0, 1, 2, 3, per / 4, per / 2, per - 1, per, per + 1, 2 * per + 1}) for (int n = 1; n <= (thorough ? 4 : lead <= 1 || lead == per ? 4 : 3); ++n) for (int tail : {0, per}) for (int al : {0, 1}) {
            if (n == 4 && tail && !thorough) continue;
            // the words of the alphabet at the end, or followed by words without a match
            Block b{W, lead + n + tail + 2, al * W / 8, 0, false};
            RUN(findwords_case, GEO, (ll)lead, (ll)n, 0ll, tail ? -(ll)tail * W : 0ll); RUN(findwords_case, GEO, (ll)lead, (ll)n, 1ll, tail ? -(ll)tail * W : 1ll);
        }
    }
    for (Block b : {Block{8, 2, 0, -1, true}, Block{16, 1, 0, -1, true}}) pairs(b, [&](ll f, ll l) { RUN(find_case, GEO, f, l, 0); RUN(find_case, GEO, f, l, 1); });
    for (int W : VF_WORDS) { Block b{W, W == 8 ? 12 : W == 128 ? 3 : 6, 0, 16, true}; pairs(b, [&](ll f, ll l) { RUN(find_case, GEO, f, l, 0); RUN(findat_case, GEO, f, l, 0); if ((f + l) % 3 == 0) RUN(findat_case, GEO, f, l, 1); sample(fmt("find width=%d words=%d range=[%lld,%lld)", W, b.words, f, l)); }); }
    for (int W : VF_WORDS) {
        int per = 64 * 8 / W, mw = maxwords_long(W);
        std::vector<int> fp = W == 8 ? std::vector<int>{0, 1, 7} : std::vector<int>{0, 1, W - 1};
        for (int al = 0; al < per; ++al) {
            if (!thorough && per > 16 && !(al < 2 || al >= per - 2 || al % 16 <= 1)) continue;
            for (int w = 1; w <= mw; ++w) {
                if (!thorough && per > 16 && !(w < 6 || w % 16 <= 1 || w % 16 == 15 || w >= mw - 1)) continue;
                for (int p : fp) for (int q : fp) { Block b{W, w + 4, al * W / 8, 0, false}; RUN(findat_case, GEO, (ll)W + p, (ll)W * (w + 1) + q, 0); }
                if (w <= 40 || w == mw) { Block b{W, w + 4, al * W / 8, 0, false}; if (al < 3 || al == per - 1 || thorough) RUN(findval_case, GEO, (ll)W, (ll)W * (w + 1) + (w % 2 ? W - 1 : 0)); }
            }
        }
    }
#elif VF_PROP == 13
    auto within = [&](const Block& b) {
        ll N = (ll)b.W * b.words; auto v = idx(b, 0, N);
        for (ll f : v) for (ll s : v) for (ll n = 0; f + n <= N && s + n <= N; ++n) { for (int how : {0, 1}) RUN(equal_case, GEO, f, n, s, how); }
    };
    within({8, 2, 0, -1, true}); within({16, 1, 0, -1, true});
    auto apart = [&](int W, int rw, bool allpos, int hows) {
        Block b{W, 2 * rw, 0, 0, allpos}; ll R = (ll)W * rw;
        for (int p : positions(W, allpos)) for (int q : positions(W, allpos)) for (ll n = 0; n + std::max(p, q) <= R; ++n)
            for (int how = 0; how < hows; ++how) { if (how && W > 8 && (p * 7 + q * 3 + n + how) % 5) continue;
                RUN(equalat_case, GEO, (ll)p, n, R + q, how); if (how == 0) RUN(equalat_case, GEO, R + q, n, (ll)p, how); sample(fmt("equal width=%d words=%d starts=(%d,%lld) length=%lld", W, b.words, p, R + q, n)); }
    };
    apart(8, 3, true, 5); apart(8, thorough ? 9 : 6, true, 5); apart(16, thorough ? 5 : 3, true, 5); apart(32, thorough ? 5 : 3, thorough, 5); apart(64, thorough ? 5 : 3, false, 5);
#ifdef VF_WIDE
    apart(128, 3, false, 5);
#endif
    if (thorough) apart(64, 3, true, 1);
    for (int W : VF_WORDS) for (int n : {2, 3, 4, 5, 9}) {
        Block b{W, 2 * n + 4, 0, 0, false};
        for (int p : {0, 1, W - 1}) for (int q : {0, 1, W / 2}) for (int e : {0, W - 1}) RUN(equaltwo_case, GEO, (ll)p, (ll)n * W + e, (ll)(n + 2) * W + q);
    }
    for (int W : VF_WORDS) {
        Block b{W, 6, 0, 0, false};
        for (int p : {0, 3}) for (int q : {0, 3, W - 1}) for (ll n = 0; n <= 2 * W + 1; ++n) for (ll n2 : {0ll, n - 1, n, n + 1, n + W}) if (n2 >= 0 && q + n2 <= 3 * W) RUN(equallen_case, GEO, (ll)p, n, (ll)3 * W + q, n2);
        int mw = maxwords_long(W);
        for (int al : {0, W / 8, 32, 64 - W / 8}) for (int w = 3; w <= mw; ++w) {
            if (!thorough && W == 8 && !(w % 16 <= 1 || w % 16 == 15)) continue;
            for (int p : {0, W - 1}) for (int q : {0, 1, W / 2}) for (int e : {0, 1, W - 1}) { ll n = (ll)w * W + e; Block c{W, 2 * w + 8, al, 0, false}; RUN(equalat_case, c.W, c.words, c.align, c.kind, (ll)W + p, n, (ll)W * (w + 4) + q, 0); }
        }
    }
#endif
}
VF_MAIN
