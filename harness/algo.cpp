// Range algorithms that move, set or combine bits (C01..C10): every geometry
// within the bounds, every content of the chosen set, against bit-plane models.
// Select with -DVF_PROP=<number>.
#include <climits>
#include "planes.hpp"
#include "bits.hpp"
#include <functional>
#include <algorithm>
using namespace vf;

// A case is: width, words, align, kind, followed by the geometry.
//  words: size of the memory in words; align: byte offset of the memory from a
//  64-byte boundary (multiple of the word size); kind: content set.
struct G { int W, words, align, kind, N; unsigned char* mem; };
static G geo(const ll* a) { G g; g.W = (int)a[0]; g.words = (int)a[1]; g.align = (int)a[2]; g.kind = (int)a[3]; g.N = g.W * g.words; g.mem = area() + g.align; return g; }

// ---- models ---------------------------------------------------------------
static void m_move(Plane* d, const Plane* s, ll n) { memmove(d, s, n * sizeof(Plane)); }

// ---- one case function per algorithm ---------------------------------------
template <class W> static void copy_t(const ll* a) {    // first last d which
    G g = geo(a); ll f = a[4], l = a[5], d = a[6];
    bool mv = a[7];
    explore(g.N, g.kind, g.mem,
        [&] { return index<W>(g.mem, mv ? bit::move(at<W>(g.mem, f), at<W>(g.mem, l), at<W>(g.mem, d)) : bit::copy(at<W>(g.mem, f), at<W>(g.mem, l), at<W>(g.mem, d))); },
        [&](Plane* p, unsigned char*) { m_move(p + d, p + f, l - f); return d + (l - f); });
}
static void copy_case(const ll* a) { VF_DISPATCH(a[0], copy_t, a); }
template <class W> static void copyb_t(const ll* a) {    // first last dlast
    G g = geo(a); ll f = a[4], l = a[5], d = a[6];
    explore(g.N, g.kind, g.mem,
        [&] { return index<W>(g.mem, bit::copy_backward(at<W>(g.mem, f), at<W>(g.mem, l), at<W>(g.mem, d))); },
        [&](Plane* p, unsigned char*) { m_move(p + d - (l - f), p + f, l - f); return d - (l - f); });
}
static void copy_backward_case(const ll* a) { VF_DISPATCH(a[0], copyb_t, a); }
template <class W> static void fill_t(const ll* a) {    // first last value
    G g = geo(a); ll f = a[4], l = a[5]; bool v = a[6];
    explore(g.N, g.kind, g.mem,
        [&] { bit::fill(at<W>(g.mem, f), at<W>(g.mem, l), bv(v)); return 0ll; },
        [&](Plane* p, unsigned char*) { for (ll i = f; i < l; ++i) p[i] = v ? ~0ull : 0; return 0ll; });
}
static void fill_case(const ll* a) { VF_DISPATCH(a[0], fill_t, a); }
template <class W> static void shl_t(const ll* a) {    // first last n
    G g = geo(a); ll f = a[4], l = a[5], n = a[6];
    explore(g.N, g.kind, g.mem,
        [&] { return index<W>(g.mem, bit::shift_left(at<W>(g.mem, f), at<W>(g.mem, l), n)); },
        [&](Plane* p, unsigned char* dc) {
            if (n <= 0) return l;
            if (n >= l - f) { for (ll i = f; i < l; ++i) dc[i] = 1; return f; }
            m_move(p + f, p + f + n, l - f - n); for (ll i = l - n; i < l; ++i) dc[i] = 1; return l - n; });
}
static void shift_left_case(const ll* a) { VF_DISPATCH(a[0], shl_t, a); }
template <class W> static void shr_t(const ll* a) {    // first last n
    G g = geo(a); ll f = a[4], l = a[5], n = a[6];
    explore(g.N, g.kind, g.mem,
        [&] { return index<W>(g.mem, bit::shift_right(at<W>(g.mem, f), at<W>(g.mem, l), n)); },
        [&](Plane* p, unsigned char* dc) {
            if (n <= 0) return f;
            if (n >= l - f) { for (ll i = f; i < l; ++i) dc[i] = 1; return l; }
            m_move(p + f + n, p + f, l - f - n); for (ll i = f; i < f + n; ++i) dc[i] = 1; return f + n; });
}
static void shift_right_case(const ll* a) { VF_DISPATCH(a[0], shr_t, a); }
template <class W> static void rotate_t(const ll* a) {    // first mid last
    G g = geo(a); ll f = a[4], m = a[5], l = a[6];
    explore(g.N, g.kind, g.mem,
        [&] { return index<W>(g.mem, bit::rotate(at<W>(g.mem, f), at<W>(g.mem, m), at<W>(g.mem, l))); },
        [&](Plane* p, unsigned char*) {
            static std::vector<Plane> t; t.assign(p + f, p + l);
            ll len = l - f, k = m - f; for (ll i = 0; i < len; ++i) p[f + i] = t[i + k < len ? i + k : i + k - len];
            return f + (l - m); });
}
static void rotate_case(const ll* a) { VF_DISPATCH(a[0], rotate_t, a); }
template <class W> static void reverse_t(const ll* a) {    // first last twice
    G g = geo(a); ll f = a[4], l = a[5];
    int times = a[6] ? 2 : 1;
    explore(g.N, g.kind, g.mem,
        [&] { for (int i = 0; i < times; ++i) bit::reverse(at<W>(g.mem, f), at<W>(g.mem, l)); return 0ll; },
        [&](Plane* p, unsigned char*) { if (times == 1) for (ll i = 0; i < (l - f) / 2; ++i) { Plane t = p[f + i]; p[f + i] = p[l - 1 - i]; p[l - 1 - i] = t; } return 0ll; });
}
static void reverse_case(const ll* a) { VF_DISPATCH(a[0], reverse_t, a); }
template <class W> static void swap_t(const ll* a) {    // first1 last1 first2
    G g = geo(a); ll f = a[4], l = a[5], s = a[6];
    explore(g.N, g.kind, g.mem,
        [&] { return index<W>(g.mem, bit::swap_ranges(at<W>(g.mem, f), at<W>(g.mem, l), at<W>(g.mem, s))); },
        [&](Plane* p, unsigned char*) { for (ll i = 0; i < l - f; ++i) { Plane t = p[f + i]; p[f + i] = p[s + i]; p[s + i] = t; } return s + (l - f); });
}
static void swap_ranges_case(const ll* a) { VF_DISPATCH(a[0], swap_t, a); }
// unary functions of one bit: 0 zero, 1 not (lambda), 2 identity, 3 one, 4 std::bit_not
template <class W> static void tru_t(const ll* a) {    // first last d op
    G g = geo(a); ll f = a[4], l = a[5], d = a[6]; int op = (int)a[7];
    explore(g.N, g.kind, g.mem,
        [&] {
            auto F = at<W>(g.mem, f), L = at<W>(g.mem, l), D = at<W>(g.mem, d);
            switch (op) {
                case 0: return index<W>(g.mem, bit::transform(F, L, D, [](W) { return (W)0; }));
                case 1: return index<W>(g.mem, bit::transform(F, L, D, [](W x) { return (W)~x; }));
                case 2: return index<W>(g.mem, bit::transform(F, L, D, [](W x) { return x; }));
                case 3: return index<W>(g.mem, bit::transform(F, L, D, [](W) { return (W)~(W)0; }));
                default: return index<W>(g.mem, bit::transform(F, L, D, std::bit_not<W>()));
            } },
        [&](Plane* p, unsigned char*) {
            static std::vector<Plane> t; t.assign(p + f, p + l);
            for (ll i = 0; i < l - f; ++i) { Plane x = t[i]; p[d + i] = op == 0 ? 0 : op == 2 ? x : op == 3 ? ~0ull : ~x; }
            return d + (l - f); });
}
static void transform1_case(const ll* a) { VF_DISPATCH(a[0], tru_t, a); }
// binary functions of two bits by truth table: result for (x,y) is bit 2x+y of op; 16.. = std functors
struct TT { int op; template <class T> T operator()(T x, T y) const {
    T r = 0; if (op & 1) r |= (T)~x & (T)~y; if (op & 2) r |= (T)~x & y; if (op & 4) r |= x & (T)~y; if (op & 8) r |= x & y; return r; } };
template <class W> static void trb_t(const ll* a) {    // first1 len first2 d op
    G g = geo(a); ll f = a[4], n = a[5], s = a[6], d = a[7]; int op = (int)a[8];
    int tt = op < 16 ? op : op == 16 ? 8 : op == 17 ? 14 : 6;
    explore(g.N, g.kind, g.mem,
        [&] {
            auto F = at<W>(g.mem, f), L = at<W>(g.mem, f + n), S = at<W>(g.mem, s), D = at<W>(g.mem, d);
            switch (op) {
                case 16: return index<W>(g.mem, bit::transform(F, L, S, D, std::bit_and<W>()));
                case 17: return index<W>(g.mem, bit::transform(F, L, S, D, std::bit_or<W>()));
                case 18: return index<W>(g.mem, bit::transform(F, L, S, D, std::bit_xor<W>()));
                default: return index<W>(g.mem, bit::transform(F, L, S, D, [op](W x, W y) { return TT{op}.template operator()<W>(x, y); }));
            } },
        [&](Plane* p, unsigned char*) {
            static std::vector<Plane> t, u; t.assign(p + f, p + f + n); u.assign(p + s, p + s + n);
            for (ll i = 0; i < n; ++i) p[d + i] = TT{tt}.operator()<Plane>(t[i], u[i]);
            return d + n; });
}
static void transform2_case(const ll* a) { VF_DISPATCH(a[0], trb_t, a); }
VF_REGISTER(copy_case); VF_REGISTER(copy_backward_case); VF_REGISTER(fill_case); VF_REGISTER(shift_left_case); VF_REGISTER(shift_right_case);
VF_REGISTER(rotate_case); VF_REGISTER(reverse_case); VF_REGISTER(swap_ranges_case); VF_REGISTER(transform1_case); VF_REGISTER(transform2_case);

// ---- bounds -----------------------------------------------------------------
// A memory block explored with all or with selected positions.
struct Block { int W, words, align, kind; bool allpos; };
// exhaustive: all positions of the block (margins included).  quick / thorough.
static std::vector<Block> small_blocks() {
    // kind -1 (every content) is decided on 2 words of 8 bits and one of 16
    std::vector<Block> b{{8, 2, 0, -1, true}, {16, 1, 0, -1, true}};
    return b;
}
// range candidates inside a block for two-index algorithms etc.
static std::vector<ll> idx(const Block& b, ll lo, ll hi) {
    std::vector<ll> v; auto pos = positions(b.W, b.allpos); std::vector<char> ok(b.W); for (int p : pos) ok[p] = 1;
    for (ll i = lo; i <= hi; ++i) if (ok[i % b.W]) v.push_back(i);
    return v;
}
static std::vector<ll> counts(const Block& b, ll len) {   // shift counts
    std::vector<ll> v{-1, 0};
    if (b.allpos && len <= 300) for (ll i = 1; i <= len + 1; ++i) v.push_back(i);
    else {
        for (ll w = 0; w * b.W <= len + b.W; w = w < 4 ? w + 1 : w * 2 + 1) for (ll o : {0, 1, 2, 3, b.W / 2 - 1, b.W / 2, b.W - 2, b.W - 1}) { ll n = w * b.W + o; if (n >= 1 && n <= len + 1) v.push_back(n); }
        for (ll o = -3; o <= 1; ++o) if (len + o > 0) v.push_back(len + o);
        for (ll o : {-(ll)b.W - 1, -(ll)b.W, -(ll)b.W + 1}) if (len + o > 0) v.push_back(len + o);
        if (len > 3) { v.push_back(len / 2); v.push_back(len / 2 + 1); v.push_back(len / 3); v.push_back(2 * len / 3 + 1); }
    }
    v.push_back(len + 5 * b.W); v.push_back(-(ll)b.W - 3);
    if (b.words <= 3) for (ll n : {(ll)INT32_MIN - 1, (ll)INT32_MAX + 2, 1ll << 40, LLONG_MAX / 8, LLONG_MAX, -LLONG_MAX, LLONG_MIN}) v.push_back(n);   // far beyond the range
    uniq(v); return v;
}
// long ranges: (first, last) pairs with chosen borders, at every alignment modulo 64 bytes
template <class F> static void long_ranges(int W, int maxwords, bool dense, F f) {
    int bytes = W / 8, per = 64 / bytes;                       // words per 64 bytes
    std::vector<int> al; for (int i = 0; i < per; ++i) if (dense || per <= 8 || i < 2 || i >= per - 2 || i == per / 2 || i == per / 4 || i == per / 4 + 1 || i == per / 2 - 1) al.push_back(i);
    std::vector<int> lens; for (int w = 3; w <= maxwords; ++w) if (dense || w < 6 || w >= maxwords - 1 || w % per <= 1 || w % per >= per - 1 || (w % per == per / 2) || (w % per == per / 4)) lens.push_back(w);
    std::vector<int> fp = positions(W, false), lp = fp;
    if (!dense) { fp = W == 8 ? std::vector<int>{0, 1, 3, 4, 7} : std::vector<int>{0, 1, W / 2, W - 1}; lp = fp; }
    for (int al0 : al) for (int w : lens) for (int p : fp) for (int q : lp) {
        int words = w + 4; if (words * W % 8) ++words;
        Block b{W, words, al0 * bytes, 4, false};
        f(b, (ll)W + p, (ll)W + (ll)w * W + q);              // one word of margin in front
    }
    // sizes around powers of two and of ten, up to thousands of words
    std::vector<int> hw{64, 65, 100, 128, 129, 200, 256, 257, 300, 512, 513, 1000, 1024, 1025}; if (thorough) for (int w : {63, 127, 255, 511, 1023, 1500, 2047, 2048, 2049, 4096, 4097}) hw.push_back(w);
    const int border[3][2] = {{0, 0}, {1, W - 1}, {W / 2, 1}};
    for (int w : hw) for (int al0 : {0, 1}) for (auto& e : border) {
        if (w * W > 132000) continue;
        if (!dense && !thorough && al0 && e[0] == 0) continue;
        Block b{W, (w + 4 + 7) / 8 * 8, al0 * bytes, 0, false};
        f(b, (ll)W + e[0], (ll)W + (ll)w * W + e[1]);
    }
}
static int maxwords_long(int W) { return W == 8 ? 150 : W == 16 ? 80 : W == 32 ? 44 : W == 64 ? 26 : 14; }   // > 2 registers of 64 bytes, plus an alignment prologue

static void sample_case(const char* n, const Block& b, ll x, ll y, ll z) { if (samples().size() < 4 && nevals % 7 == 0) sample(fmt("%s width=%d words=%d align=%d positions=(%lld,%lld,%lld)", n, b.W, b.words, b.align, x, y, z)); }

// Three-index exhaustive blocks: words chosen so that all positions are affordable
static std::vector<Block> exact_blocks() {
    std::vector<Block> b = small_blocks();
#ifdef VF_WIDE
    b = {{128, 2, 0, 1, true}, {128, 4, 0, 4, false}, {128, 6, 0, 2, false}}; if (thorough) b.push_back({128, 3, 0, 4, true});
    return b;
#endif
    b.push_back({8, 4, 0, 8, true}); b.push_back({16, 4, 0, 8, true}); b.push_back({32, 3, 0, 6, true});
    if (thorough) { b.push_back({8, 13, 0, 12, true}); b.push_back({16, 7, 0, 8, true}); b.push_back({32, 5, 0, 8, true}); b.push_back({64, 4, 0, 6, true}); }
    else { b.push_back({8, 9, 0, 6, true}); b.push_back({32, 5, 0, 4, false}); b.push_back({64, 3, 0, 4, true}); b.push_back({64, 5, 0, 4, false}); }
    return b;
}
template <class F> static void pairs(const Block& b, F f) { auto v = idx(b, 0, (ll)b.W * b.words); for (ll x : v) for (ll y : v) if (x <= y) f(x, y); }

#define GEO b.W, b.words, b.align, b.kind
void vf::enumerate() {
#if VF_PROP == 1 || VF_PROP == 2
    // separate ranges: source in the lower part of the block, destination in the upper part, and vice versa
    auto two = [&](const Block& b, int srcwords, bool fwd) {
        ll N = (ll)b.W * b.words, S = (ll)b.W * srcwords;
        auto v = idx(b, 0, S);
        for (ll x : v) for (ll y : v) if (x <= y) {
            ll len = y - x;
            for (int p : positions(b.W, b.allpos)) for (int side = 0; side < 2; ++side) {
                ll sf = side ? N - S + x : x, sl = side ? N - S + y : y;       // source
                ll d = side ? p : S + p;                                       // destination start
                if (d + len > N || (side && d + len > N - S)) continue;
                if (fwd) { RUN(copy_case, GEO, sf, sl, d, 0); RUN(copy_case, GEO, sf, sl, d, 1); }
                else RUN(copy_backward_case, GEO, sf, sl, d + len);
                sample_case("separate", b, sf, sl, d);
            }
        }
    };
    bool fwd = VF_PROP == 1;
    two({8, 2, 0, -1, true}, 1, fwd);
    two({8, 6, 0, 6, true}, 3, fwd); two({16, 6, 0, 6, true}, 3, fwd);
    two({32, 6, 0, 4, thorough}, 3, fwd); two({64, 6, 0, 4, thorough}, 3, fwd);
#ifdef VF_WIDE
    two({128, 6, 0, 4, false}, 3, fwd);
#endif
    if (thorough) { two({8, 12, 0, 6, true}, 6, fwd); two({64, 10, 0, 4, false}, 5, fwd); two({32, 10, 0, 4, false}, 5, fwd); two({16, 10, 0, 4, true}, 5, fwd); }
    // one range shifted onto itself: destination before (copy) or behind (copy_backward) the source
    auto overlap = [&](const Block& b) {
        ll N = (ll)b.W * b.words;
        pairs(b, [&](ll f, ll l) {
            for (ll d : idx(b, 0, N)) {
                if (fwd ? (d < f) : (d > l)) {
                    if (fwd) { RUN(copy_case, GEO, f, l, d, 0); RUN(copy_case, GEO, f, l, d, 1); }
                    else RUN(copy_backward_case, GEO, f, l, d);
                    sample_case("overlapping", b, f, l, d);
                }
            }
        });
    };
    overlap({8, 2, 0, -1, true}); overlap({8, 5, 0, 4, true}); overlap({16, 4, 0, 4, true}); overlap({32, 4, 0, 4, false}); overlap({64, 4, 0, 4, false});
#ifdef VF_WIDE
    overlap({128, 4, 0, 4, false});
#endif
    if (thorough) { overlap({8, 9, 0, 6, true}); overlap({16, 6, 0, 4, true}); overlap({32, 4, 0, 4, true}); overlap({64, 3, 0, 4, true}); }
    // long ranges
    for (int W : VF_WORDS) long_ranges(W, thorough ? maxwords_long(W) : maxwords_long(W) / 2, false, [&](Block b, ll f, ll l) {
        ll len = l - f, gap = ((l / W) + 2) * (ll)W;
        b.words = (int)((gap + len) / W + 3);
        for (int p : W == 8 ? std::vector<int>{0, 1, 4, 7} : std::vector<int>{0, 1, W / 2, W - 1}) {
            if (fwd) { RUN(copy_case, GEO, f, l, gap + p, 0); RUN(copy_case, GEO, f, l, gap + p, 1); } else RUN(copy_backward_case, GEO, f, l, gap + p + len);
            ll o = fwd ? f - p - 1 : l + p + 1;                 // overlapping by a short offset
            if (o >= 0) { if (fwd) { RUN(copy_case, GEO, f, l, o, 0); RUN(copy_case, GEO, f, l, o, 1); } else RUN(copy_backward_case, GEO, f, l, o); }
        }
        // overlapping by a few bits only, by half, and not at all but next to each other
        for (ll ov : {(ll)0, (ll)1, (ll)3, (ll)W / 2, (ll)W - 1, (ll)W, (ll)W + 1, (ll)2 * W + W / 2, len / 2}) if (ov < len) {
            Block c = b; c.words = (int)((2 * len + f) / W + 3); ll x = fwd ? f + len - ov : f, y = x + len;   // source
            if (fwd) { RUN(copy_case, c.W, c.words, c.align, c.kind, x, y, x - len + ov, 0); RUN(copy_case, c.W, c.words, c.align, c.kind, x, y, x - len + ov, 1); }
            else RUN(copy_backward_case, c.W, c.words, c.align, c.kind, x, y, y + len - ov);
        }
    });
#elif VF_PROP == 3
    for (auto b : exact_blocks()) pairs(b, [&](ll f, ll l) { for (int v = 0; v < 2; ++v) RUN(fill_case, GEO, f, l, v); sample_case("fill", b, f, l, 0); });
    for (int W : VF_WORDS) { Block b{W, W == 128 ? 4 : 8, 0, 8, true}; pairs(b, [&](ll f, ll l) { for (int v = 0; v < 2; ++v) RUN(fill_case, GEO, f, l, v); }); }
    for (int W : VF_WORDS) long_ranges(W, maxwords_long(W), true, [&](const Block& b, ll f, ll l) { for (int v = 0; v < 2; ++v) RUN(fill_case, GEO, f, l, v); });
#elif VF_PROP == 4 || VF_PROP == 5
#if VF_PROP == 4
#define SHIFT shift_left_case
#else
#define SHIFT shift_right_case
#endif
    for (auto b : exact_blocks()) pairs(b, [&](ll f, ll l) { for (ll n : counts(b, l - f)) { RUN(SHIFT, GEO, f, l, n); sample_case("shift", b, f, l, n); } });
    for (int W : VF_WORDS) long_ranges(W, maxwords_long(W), thorough, [&](const Block& b, ll f, ll l) { for (ll n : counts(b, l - f)) if (n > 0) RUN(SHIFT, GEO, f, l, n); });
#elif VF_PROP == 6
    for (auto b : exact_blocks()) pairs(b, [&](ll f, ll l) {
        if (b.allpos) { for (ll m = f; m <= l; ++m) { RUN(rotate_case, GEO, f, m, l); sample_case("rotate", b, f, m, l); } }
        else for (ll n : counts(b, l - f)) if (n >= 0 && n <= l - f) RUN(rotate_case, GEO, f, f + n, l);
    });
    // ranges long enough for repeated block exchange: every middle
    for (int W : VF_WORDS) {
        int words = thorough ? 24 : W == 8 ? 18 : 9; Block b{W, words, 0, 2, false};
        for (int p : W == 8 ? std::vector<int>{0, 3} : std::vector<int>{0, W / 2 + 1}) for (ll l = (ll)(words - 3) * W; l <= (ll)(words - 1) * W; l += W == 8 ? 1 : (thorough ? 5 : 13)) for (ll m = p; m <= l; m += (thorough || W <= 16 ? 1 : 3)) RUN(rotate_case, GEO, p, m, l);
    }
    for (int W : VF_WORDS) long_ranges(W, maxwords_long(W), thorough, [&](const Block& b, ll f, ll l) { for (ll n : counts(b, l - f)) if (n > 0 && n <= l - f) RUN(rotate_case, GEO, f, f + n, l); });
#elif VF_PROP == 7
    for (auto b : exact_blocks()) pairs(b, [&](ll f, ll l) { RUN(reverse_case, GEO, f, l, 0); RUN(reverse_case, GEO, f, l, 1); sample_case("reverse", b, f, l, 0); });
    for (int W : VF_WORDS) { Block b{W, W == 128 ? 4 : 9, 0, 16, true}; pairs(b, [&](ll f, ll l) { RUN(reverse_case, GEO, f, l, 0); RUN(reverse_case, GEO, f, l, 1); }); }
    for (int W : VF_WORDS) long_ranges(W, maxwords_long(W), true, [&](const Block& b, ll f, ll l) { RUN(reverse_case, GEO, f, l, 0); });
#elif VF_PROP == 8
    auto sw = [&](const Block& b) {
        ll N = (ll)b.W * b.words; auto v = idx(b, 0, N);
        pairs(b, [&](ll f, ll l) { for (ll s : v) if (s + (l - f) <= N && (s >= l || s + (l - f) <= f)) { RUN(swap_ranges_case, GEO, f, l, s); sample_case("swap", b, f, l, s); } });
    };
    for (auto b : small_blocks()) sw(b);
    sw({8, 9, 0, 6, true}); sw({16, 6, 0, 4, true}); sw({32, 4, 0, 4, true}); sw({32, 7, 0, 4, false}); sw({64, 7, 0, 4, false});
#ifdef VF_WIDE
    sw({128, 5, 0, 4, false});
#endif
    if (thorough) { sw({8, 14, 0, 8, true}); sw({16, 8, 0, 4, true}); sw({32, 6, 0, 4, true}); sw({64, 4, 0, 4, true}); sw({64, 9, 0, 4, false}); }
    else sw({64, 3, 0, 2, true});
    for (int W : VF_WORDS) long_ranges(W, maxwords_long(W) / 2, thorough, [&](Block b, ll f, ll l) {
        ll len = l - f;
        for (int p : W == 8 ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{0, 1, W / 2, W - 1}) { ll s = (l / W + 1) * W + p; b.words = (int)((s + len) / W + 3); RUN(swap_ranges_case, GEO, f, l, s); RUN(swap_ranges_case, GEO, s, s + len, f); }
        b.words = (int)((l + len) / W + 3); RUN(swap_ranges_case, GEO, f, l, l);
    });
#elif VF_PROP == 9
    auto un = [&](const Block& b, int srcwords) {
        ll N = (ll)b.W * b.words, S = (ll)b.W * srcwords; auto v = idx(b, 0, S);
        for (ll x : v) for (ll y : v) if (x <= y) {
            ll len = y - x;
            for (int op = 0; op < 5; ++op) {
                for (int p : positions(b.W, b.allpos)) {
                    if (S + p + len <= N) { RUN(transform1_case, GEO, x, y, S + p, op); sample_case("unary", b, x, y, S + p); }
                    if (p + len <= N - S) RUN(transform1_case, GEO, N - S + x, N - S + y, p, op);
                    ll d = y + p; if (op == 1 && d + len <= N) RUN(transform1_case, GEO, x, y, d, op);    // directly behind, sharing a word
                    d = x - p - len; if (op == 1 && d >= 0) RUN(transform1_case, GEO, x, y, d, op);
                }
                RUN(transform1_case, GEO, x, y, x, op);        // in place
            }
        }
    };
    un({8, 2, 0, -1, true}, 1); un({8, 8, 0, 6, true}, 4); un({16, 6, 0, 4, true}, 3); un({32, 8, 0, 4, false}, 4); un({64, 8, 0, 4, false}, 4);
#ifdef VF_WIDE
    un({128, 6, 0, 4, false}, 3);
#endif
    if (thorough) { un({8, 14, 0, 6, true}, 7); un({16, 8, 0, 4, true}, 4); un({32, 6, 0, 4, true}, 3); un({64, 4, 0, 2, true}, 2); }
    for (int W : VF_WORDS) long_ranges(W, maxwords_long(W), false, [&](Block b, ll f, ll l) {
        ll len = l - f;
        for (int op : {1, 4}) {
            RUN(transform1_case, GEO, f, l, f, op);
            for (int p : W == 8 ? std::vector<int>{0, 1, 7} : std::vector<int>{0, 1, W - 1}) for (int extra = 0; extra < (thorough ? 5 : 2); ++extra) {
                Block c = b; ll d = (l / W + 2 + extra) * W + p; c.words = (int)((d + len) / W + 3);
                RUN(transform1_case, c.W, c.words, c.align, c.kind, f, l, d, op);
            }
        }
    });
#elif VF_PROP == 10
    // three separate regions of the block; positions of all three starts independent
    auto bin = [&](int W, int rw, int kind, bool allpos, std::vector<int> ops, ll maxlen, bool alllen) {
        Block b{W, 3 * rw, 0, kind, allpos}; ll R = (ll)W * rw;
        auto pos = positions(W, allpos);
        for (int order = 0; order < 3; ++order) for (int p : pos) for (int q : pos) for (int r : pos) for (ll n = 0; n <= maxlen; ++n) {
            if (!alllen && n > 2 && (n + p) % W > 1 && (n + q) % W > 1 && (n + r) % W > 1 && (n + p) % W < W - 1 && n != maxlen) continue;
            if (p + n > R || q + n > R || r + n > R) continue;
            ll f = (order == 0 ? 0 : order == 1 ? R : 2 * R) + p, s = (order == 0 ? R : order == 1 ? 2 * R : 0) + q, d = (order == 0 ? 2 * R : order == 1 ? 0 : R) + r;
            for (int op : ops) {
                if (order == 0 || op == ops[0]) { RUN(transform2_case, GEO, f, n, s, d, op); sample_case("binary", b, f, s, d); }
                if (order == 0 && r == pos[0]) { RUN(transform2_case, GEO, f, n, s, f, op); RUN(transform2_case, GEO, f, n, s, s, op); if (q == pos[0]) RUN(transform2_case, GEO, f, n, f, d, op); }
            }
        }
    };
    std::vector<int> all; for (int i = 0; i < 19; ++i) all.push_back(i);
    bin(8, 2, 16, true, all, 16, true);
    bin(8, 4, 24, true, {14, 2, 12, 10, 16, 18, 9}, 32, true);
    bin(16, 3, 16, thorough, {6, 2, 12, 10, 17}, 48, true);
    bin(32, 3, 12, false, thorough ? all : std::vector<int>{6, 11, 12, 10, 16}, 96, thorough);
    bin(64, 3, 12, false, thorough ? all : std::vector<int>{6, 11, 12, 10, 16}, 192, thorough);
#ifdef VF_WIDE
    bin(128, 3, 8, false, thorough ? all : std::vector<int>{6, 11, 12, 10, 16}, 384, thorough);
#endif
    if (thorough) { bin(8, 7, 24, true, all, 56, true); bin(16, 5, 24, false, all, 80, true); bin(64, 5, 12, false, {6, 11, 12, 10}, 320, false); }
    for (int W : VF_WORDS) long_ranges(W, maxwords_long(W) / 2, false, [&](Block b, ll f, ll l) {
        ll len = l - f; if (b.kind) b.kind = 16;
        for (int q : {0, W / 2 + 1}) for (int r : {0, W - 1}) { ll s = (l / W + 1) * W + q, d = ((s + len) / W + 1) * W + r; b.words = (int)((d + len) / W + 3); for (int op : {6, 11}) RUN(transform2_case, GEO, f, len, s, d, op); }
    });
#endif
}
VF_MAIN
