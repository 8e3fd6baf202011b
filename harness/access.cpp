// Which memory the algorithms touch (C14).
//
// Built with -DVF_LOG and -fsanitize=thread (own hooks, no runtime library):
// every load and store of the compiled algorithms is reported, and each one into
// the work area must fall into words that hold a bit of an argument range (for a
// store: of a range the algorithm is documented to modify).
// Built without: the ranges lie flush against inaccessible pages, at the back or
// at the front, in one or in separate mappings, read-only where only read, and
// empty ranges lie in inaccessible pages altogether.
#ifdef VF_LOG
#include "tsan.hpp"
#endif
#include "cpu.hpp"
#include "vf.hpp"
#include "bits.hpp"
#include <functional>
#include <algorithm>
using namespace vf;

enum { COPY, MOVE, COPYB, FILL0, FILL1, SHL, SHR, ROT, REV, SWAP, TR1, TR2, COUNT0, COUNT1, FIND0, FIND1, EQ, NKIND };
static const char* names[] = {"copy", "move", "copy_backward", "fill 0", "fill 1", "shift_left", "shift_right", "rotate", "reverse", "swap_ranges", "transform unary", "transform binary", "count 0", "count 1", "find 0", "find 1", "equal"};
struct Rg { ll f, l; bool w; };
// ranges of an operation: x is the start of a second range, the shift count, or the middle; y the start of a third range
static int ranges(int k, ll f, ll l, ll x, ll y, Rg* r) {
    ll n = l - f; int c = 0;
    switch (k) {
        case COPY: case MOVE: case COPYB: case TR1: r[c++] = {f, l, false}; r[c++] = {x, x + n, true}; break;
        case FILL0: case FILL1: case SHL: case SHR: case ROT: case REV: r[c++] = {f, l, true}; break;
        case SWAP: r[c++] = {f, l, true}; r[c++] = {x, x + n, true}; break;
        case TR2: r[c++] = {f, l, false}; r[c++] = {x, x + n, false}; r[c++] = {y, y + n, true}; break;
        case EQ: r[c++] = {f, l, false}; r[c++] = {x, x + n, false}; break;
        default: r[c++] = {f, l, false};
    }
    return c;
}
static bool two(int k) { return k == COPY || k == MOVE || k == COPYB || k == TR1 || k == SWAP || k == EQ; }
// run on three base addresses (one per range)
template <class W> static void call(int k, unsigned char* A, unsigned char* B, unsigned char* C, ll f, ll l, ll x, ll y) {
    typedef It<W> I; I F = at<W>(A, f), L = at<W>(A, l); ll n = l - f; volatile ll sink; (void)sink;
    auto cI = [](unsigned char* m, ll i) {       // constant iterator, for the operations that only read
        typedef const W* P; constexpr ll d = dig<W>(); ll w = i / d, r = i % d; if (r < 0) { r += d; --w; }
        return bit::bit_iterator<P>((P)(reinterpret_cast<W*>(m)) + w, (std::size_t)r); };
    switch (k) {
        case COPY: bit::copy(F, L, at<W>(B, x)); break;
        case MOVE: bit::move(F, L, at<W>(B, x)); break;
        case COPYB: bit::copy_backward(F, L, at<W>(B, x + n)); break;
        case FILL0: bit::fill(F, L, bit::bit0); break;
        case FILL1: bit::fill(F, L, bit::bit1); break;
        case SHL: bit::shift_left(F, L, x); break;
        case SHR: bit::shift_right(F, L, x); break;
        case ROT: bit::rotate(F, at<W>(A, x), L); break;
        case REV: bit::reverse(F, L); break;
        case SWAP: bit::swap_ranges(F, L, at<W>(B, x)); break;
        case TR1: bit::transform(F, L, at<W>(B, x), [](W v) { return (W)~v; }); break;
        case TR2: bit::transform(F, L, at<W>(B, x), at<W>(C, y), [](W v, W w) { return (W)(v ^ w); }); break;
        case COUNT0: sink = bit::count(F, L, bit::bit0); break;
        case COUNT1: sink = bit::count(cI(A, f), cI(A, l), bit::bit1); break;
        case FIND0: { auto i = bit::find(cI(A, f), cI(A, l), bit::bit0); sink = (ll)i.position(); } break;
        case FIND1: { auto i = bit::find(F, L, bit::bit1); sink = (ll)i.position(); } break;
        case EQ: sink = bit::equal(F, L, at<W>(B, x)); break;
    }
}
// contents: 0 zeros, 1 ones, 2 pseudo-random, 3 periodic (so that both ranges of equal agree when congruent)
static unsigned char pat(int c, size_t i) { return c == 0 ? 0 : c == 1 ? 0xff : c == 2 ? (unsigned char)(mixc(i >> 3) >> (8 * (i & 7))) : 0xA5; }
static int ncont(int k) { return k == EQ || k == FIND0 || k == FIND1 ? 4 : k == COUNT0 || k == COUNT1 ? 1 : 2; }
static ll fdiv(ll a, ll b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
static std::string show(int k, int W, const Rg* r, int nr) { std::string s = fmt("%s on %d-bit words,", names[k], W); for (int i = 0; i < nr; ++i) s += fmt(" range %d [%lld,%lld)%s", i + 1, r[i].f, r[i].l, r[i].w ? " modified" : ""); return s; }

#ifdef VF_LOG
// ---- logging mode -------------------------------------------------------------
static unsigned char *lo, *hi, *mem0; static volatile bool logging; static int wsh;
static unsigned char* base; static unsigned char* physm;
static const ll MARG = 512;                                   // bytes around the window
static unsigned char flagR[1 << 14], flagW[1 << 14];          // per word from lo
static struct Bad { bool set, write; ll word; std::size_t size; ll off; } bad;
static ull naccess;
// the hooks are declared leaf functions to the compiler: keep it from assuming that they leave our variables alone
#define FENCE asm volatile("" ::: "memory")
VF_NOTSAN static inline void vf_access(const void* p, std::size_t n, bool write) {
    if (__builtin_expect(!logging, 1)) return;
    const unsigned char *a = (const unsigned char*)p, *e = a + n;
#if VF_ITER == 2                                              // words in separate blocks: back to the image the ranges are given in
    const std::size_t off = (std::size_t)(a - physm); if (off >= Seg::NB * Seg::STEP) return;
    const std::size_t r = off % Seg::STEP; a = base + (Seg::NB - 1 - off / Seg::STEP) * VF_SEG + r; e = a + n;
    if (r + n > VF_SEG && a > lo - VF_SEG && a < hi) { if (!bad.set) bad = {true, write, -1000, n, a - mem0}; return; }
#endif
    if (e <= lo || a >= hi) return;
    ++naccess;
    const unsigned char* ok = write ? flagW : flagR;
    if (a < lo) a = lo; if (e > hi) e = hi;
    ll w0 = (a - lo) >> wsh, w1 = (e - 1 - lo) >> wsh;
    for (ll w = w0; w <= w1; ++w) if (!ok[w] && !bad.set) bad = {true, write, w, n, (const unsigned char*)p - mem0};
}
// width kind words f l x y : window of that many words
template <class W> static void log_t(const ll* a) {
    int k = (int)a[1], words = (int)a[2]; ll f = a[3], l = a[4], x = a[5], y = a[6]; int align = (int)a[7];
    if (!base) base = (unsigned char*)aligned_alloc(4096, 1 << 15);
#if VF_ITER == 2
    Seg::flat() = base; physm = Seg::phys();
#endif
    constexpr int B = sizeof(W); mem0 = base + 1024 + align; lo = mem0 - MARG / B * B; hi = mem0 + (ll)words * B + MARG / B * B; wsh = __builtin_ctz(B);
    Rg r[3]; int nr = ranges(k, f, l, x, y, r);
    ll nw = (hi - lo) / B, m0 = (mem0 - lo) / B;
    memset(flagR, 0, nw); memset(flagW, 0, nw);
    for (int i = 0; i < nr; ++i) if (r[i].f < r[i].l) for (ll w = fdiv(r[i].f, dig<W>()); w <= fdiv(r[i].l - 1, dig<W>()); ++w) { flagR[m0 + w] = 1; if (r[i].w) flagW[m0 + w] = 1; }
    for (int c = 0; c < ncont(k); ++c) {
        for (unsigned char* p = lo; p < hi; ++p) *p = pat(c, p - lo);
        VF_SCATTER(lo, hi - lo);
        bad.set = false; FENCE; logging = true; FENCE; call<W>(k, mem0, mem0, mem0, f, l, x, y); FENCE; logging = false; FENCE; ++nevals;
        if (bad.set) fail(show(k, dig<W>(), r, nr) + fmt(": %s of %zu bytes at byte %lld touches %s %lld", bad.write ? "write" : "read", bad.size, bad.off, bad.word == -1000 ? "memory between two blocks, near word" : "word", bad.word == -1000 ? bad.off / B : bad.word - m0));
    }
}
static void log_case(const ll* a) { VF_DISPATCH(a[0], log_t, a); }
VF_REGISTER(log_case);
#else
// ---- guard mode ---------------------------------------------------------------
struct Area {     // three pages accessible at most, between inaccessible ones
    unsigned char* base; static const int P = 4096, N = 3;
    Area() { base = (unsigned char*)mmap(nullptr, (N + 2) * P, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) abort(); mprotect(base + P, N * P, PROT_READ | PROT_WRITE); }
    unsigned char* front() { return base + P; }
    unsigned char* end() { return base + (N + 1) * P; }
    void readonly(bool r) { mprotect(base + P, N * P, r ? PROT_READ : PROT_READ | PROT_WRITE); }
};
static std::string what; static std::string hook() { return what; }
// width kind f l x y mode : mode 0 one mapping flush at the back, 1 flush at the front, 2/3 separate mappings, 4 empty ranges in no man's land, 5 empty ranges at null
template <class W> static void guard_t(const ll* a) {
    int k = (int)a[1]; ll f = a[2], l = a[3], x = a[4], y = a[5]; int mode = (int)a[6]; constexpr int B = sizeof(W); constexpr ll D = dig<W>();
    static Area area[3]; Rg r[3]; int nr = ranges(k, f, l, x, y, r);
    what = show(k, (int)D, r, nr) + fmt(", layout %d", mode); describe_hook = hook;
    if (mode == 4 || mode == 5) { unsigned char* p = mode == 5 ? nullptr : area[0].end() + 1024; call<W>(k, p, p, p, f, l, x, y); ++nevals; return; }
    ll ws[3], we[3];      // first and end word of each range; an empty one takes no word
    for (int i = 0; i < nr; ++i) { ws[i] = fdiv(r[i].f, D); we[i] = r[i].f == r[i].l ? ws[i] : fdiv(r[i].l - 1, D) + 1; }
    unsigned char* b[3]; bool back = mode % 2 == 0;
    if (mode < 2) { ll s = ws[0], e = we[0]; for (int i = 1; i < nr; ++i) { s = std::min(s, ws[i]); e = std::max(e, we[i]); } for (int i = 0; i < 3; ++i) b[i] = back ? area[0].end() - e * B : area[0].front() - s * B; }
    else for (int i = 0; i < 3; ++i) { int j = i < nr ? i : 0; b[i] = back ? area[j].end() - we[j] * B : area[j].front() - ws[j] * B; }
    for (int c = 0; c < ncont(k); ++c) {
        for (int i = 0; i < nr; ++i) for (unsigned char* p = b[i] + ws[i] * B; p < b[i] + we[i] * B; ++p) *p = pat(c, p - b[i]);
        if (mode >= 2) for (int i = 0; i < nr; ++i) if (!r[i].w) area[i].readonly(true);
        call<W>(k, b[0], b[1], b[2], f, l, x, y); ++nevals;
        if (mode >= 2) for (int i = 0; i < nr; ++i) if (!r[i].w) area[i].readonly(false);
    }
}
static void guard_case(const ll* a) { VF_DISPATCH(a[0], guard_t, a); }
VF_REGISTER(guard_case);
#endif
static ull& counter(const char* n) { return counters()[n]; }
static void one(int W, int k, int words, ll f, ll l, ll x, ll y, int align, bool longr) {
    bool overlap = false; Rg r[3]; int nr = ranges(k, f, l, x, y, r);
    for (int i = 0; i < nr; ++i) for (int j = i + 1; j < nr; ++j) if (r[i].f < r[j].l && r[j].f < r[i].l) overlap = true;
    bool shareword = false; for (int i = 0; i < nr; ++i) for (int j = i + 1; j < nr; ++j) if (fdiv(r[i].f, W) <= fdiv(r[j].l - 1, W) && fdiv(r[j].f, W) <= fdiv(r[i].l - 1, W)) shareword = true;
#ifdef VF_LOG
    (void)longr; (void)overlap; (void)shareword;
    RUN(log_case, W, k, words, f, l, x, y, align);
    counter("states") = nevals; counter("transitions") = naccess;
#else
    (void)words; (void)align;
    if (f == l) { RUN(guard_case, W, k, f, l, x, y, 4); if (f == 0 && (x == 0 || !two(k))) RUN(guard_case, W, k, f, l, x, y, 5); return; }
    RUN(guard_case, W, k, f, l, x, y, 0); RUN(guard_case, W, k, f, l, x, y, 1);
    if (nr > 1 && !overlap && !shareword) { RUN(guard_case, W, k, f, l, x, y, 2); RUN(guard_case, W, k, f, l, x, y, 3); }
#endif
    if (samples().size() < 4 && nevals % 977 == 5) sample(show(k, W, r, nr));
}
// all x (and y) of one source range; window [0, N)
static void others(int W, int k, int words, ll f, ll l, const std::vector<ll>& v, int align, bool longr) {
    ll N = (ll)W * words, n = l - f;
    if (k == SHL || k == SHR) {
        std::vector<ll> c{0, -1, n, n + 1, n + 3 * W};
        if (longr) { for (ll o : {1, 2, W / 2, W - 1, W, W + 1, 2 * W, 3 * W - 1, 5 * W}) if (o <= n) c.push_back(o); for (ll o : {1, 2, W - 1, W, W + 1, 2 * W}) if (n - o > 0) c.push_back(n - o); c.push_back(n / 2); }
        else for (ll i = 1; i <= n; ++i) if (W <= 16 || i < 4 || i % W < 3 || i % W > W - 3 || i % (W / 2) < 2 || n - i < 3 || (n - i) % W < 2) c.push_back(i);
        uniq(c); for (ll x : c) one(W, k, words, f, l, x, 0, align, longr);
    } else if (k == ROT) {
        if (longr) { std::vector<ll> c; for (ll o : {0, 1, 2, W / 2, W - 1, W, W + 1, 2 * W, 3 * W - 1, 5 * W}) { if (o <= n) { c.push_back(f + o); c.push_back(l - o); } } c.push_back(f + n / 2); c.push_back(f + n / 3); uniq(c); for (ll x : c) one(W, k, words, f, l, x, 0, align, longr); }
        else for (ll x : v) if (x >= f && x <= l) one(W, k, words, f, l, x, 0, align, longr);
    } else if (k == TR2) {
        // second and third range: in place, behind, at every offset within the word
        for (ll x : v) if (x + n <= N) for (ll y : {f, x, (N - n)}) {
            auto clash = [&](ll d, ll s) { return d != s && d < s + n && s < d + n; };   // partly overlapping destination
            if (!clash(y, f) && !clash(y, x)) one(W, k, words, f, l, x, y, align, longr);
        }
    } else if (two(k)) {
        for (ll x : v) {
            if (x + n > N) continue;
            if ((k == COPY || k == MOVE) && x > f && x < l) continue;                 // not allowed
            if ((k == COPY || k == MOVE) && x == f) continue;
            if (k == COPYB && x + n < l && x + n > f) continue;
            if (k == COPYB && x + n == l) continue;
            if (k == TR1 && x != f && x < l && f < x + n) continue;
            if (k == SWAP && x < l && f < x + n && n) continue;
            one(W, k, words, f, l, x, 0, align, longr);
        }
    } else one(W, k, words, f, l, 0, 0, align, longr);
}
void vf::enumerate() {
    for (int W : VF_WORDS) {
        int words = (W == 8 ? 5 : 3) + (thorough && W <= 16 ? (W == 8 ? 3 : 2) : 0); ll N = (ll)W * words; bool all = W == 8 || (thorough && W == 16);
        std::vector<ll> v; auto pos = positions(W, all); for (ll i = 0; i <= N; ++i) if (all || std::count(pos.begin(), pos.end(), (int)(i % W))) v.push_back(i);
        for (int k = 0; k < NKIND; ++k) for (ll f : v) for (ll l : v) if (f <= l) others(W, k, words, f, l, v, 0, false);
    }
    // long ranges (word loops, vector loops) at several alignments
    for (int W : VF_WORDS) {
        int bytes = W / 8, per64 = 64 / bytes;
        std::vector<int> lens; int mx = W == 8 ? 150 : W == 16 ? 80 : W == 32 ? 44 : 26; for (int w = 4; w <= mx; ++w) if (thorough || w < 6 || w >= mx - 1 || w % per64 <= 1 || w % per64 >= per64 - 1 || w % per64 == per64 / 2 || w % (per64 / 4 + 1) == 0) lens.push_back(w);
        std::vector<int> als; for (int i = 0; i < per64; ++i) if (thorough || i < 2 || i == per64 - 1 || i == per64 / 2) als.push_back(i);
        std::vector<int> ps{0, 1, W / 2, W - 1};
        for (int k = 0; k < NKIND; ++k) for (int w : lens) for (int al : als) for (int p : ps) for (int q : ps) {
            ll f = p, l = (ll)(w - 1) * W + q; if (l <= f) continue;
            std::vector<ll> xs; int words = w;
            if (two(k) || k == TR2) { words = 2 * w + 3; for (int r : ps) { xs.push_back((ll)(w + 1) * W + r); } if (k == COPY || k == MOVE) if (p) xs.push_back(p - 1); if (k == TR1) xs.push_back(f); }
            others(W, k, words, f, l, xs, al * bytes, true);
        }
    }
}
VF_MAIN
