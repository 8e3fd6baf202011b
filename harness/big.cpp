// Long sequences (C28): the sizes around 2^24, 2^31 and 2^32 bits (and, thorough,
// 2^31 and 2^32 words).  The model of a sequence is the list of its runs of ones;
// after every operation the whole memory is read back as runs and compared.
#ifndef VF_MEM_GB
#define VF_MEM_GB 12
#endif
#include "vf.hpp"
#include "bits.hpp"
#include <algorithm>
#include <stdexcept>
using namespace vf;
typedef unsigned long long u64;

// ---- sequences as runs of ones ------------------------------------------------
struct Seq {
    u64 n = 0; std::vector<std::pair<u64, u64>> r;      // sorted, disjoint, not touching
    void add(u64 a, u64 b) { if (a >= b) return; if (!r.empty() && r.back().second == a) r.back().second = b; else r.push_back({a, b}); }
    void append(const Seq& s) { for (auto& x : s.r) add(n + x.first, n + x.second); n += s.n; }
    Seq sub(u64 a, u64 b) const { Seq s; s.n = b - a; for (auto& x : r) { u64 p = std::max(a, x.first), q = std::min(b, x.second); if (p < q) s.add(p - a, q - a); } return s; }
    Seq inv() const { Seq s; s.n = n; u64 p = 0; for (auto& x : r) { s.add(p, x.first); p = x.second; } s.add(p, n); return s; }
    Seq rev() const { Seq s; s.n = n; for (size_t i = r.size(); i--;) s.add(n - r[i].second, n - r[i].first); return s; }
    u64 ones() const { u64 c = 0; for (auto& x : r) c += x.second - x.first; return c; }
    bool get(u64 i) const { for (auto& x : r) if (i >= x.first && i < x.second) return true; return false; }
    u64 find(bool v) const { if (v) return r.empty() ? n : r[0].first; if (r.empty() || r[0].first) return n ? 0 : 0; return r[0].second < n ? r[0].second : n; }
};
static Seq constant(u64 n, bool v) { Seq s; s.n = n; if (v) s.add(0, n); return s; }
static Seq cat(Seq a, const Seq& b) { a.append(b); return a; }
static Seq cat(Seq a, const Seq& b, const Seq& c) { a.append(b); a.append(c); return a; }
static Seq patch(const Seq& s, u64 at, const Seq& t) { return cat(s.sub(0, at), t, s.sub(at + t.n, s.n)); }
static Seq exor(const Seq& a, const Seq& b) {
    std::vector<u64> e; for (auto& x : a.r) { e.push_back(x.first); e.push_back(x.second); } for (auto& x : b.r) { e.push_back(x.first); e.push_back(x.second); }
    std::sort(e.begin(), e.end()); Seq s; s.n = a.n; bool on = false; u64 p = 0;
    for (u64 x : e) { if (on) s.add(p, x); p = x; on = !on; } return s;
}
// marks at places that betray truncated lengths and positions
static Seq marked(u64 n, bool inverted, int salt) {
    std::vector<std::pair<u64, u64>> m; auto put = [&](u64 a, u64 l) { if (a < n) m.push_back({a, std::min(n, a + l)}); };
    put(1, 1); put(4, 3); put(70, 130); put(5000, 1);
    for (int b : {20, 23, 24, 25, 28, 30, 31, 32, 33, 34, 35}) for (int o : {-40, -3, 0, 2, 61}) put((u64)((ll)(1ull << b) + o + salt), (u64)(o == -40 ? 20 : 1));
    for (int i = 0; i < 40; ++i) put(mixc(i + 100 * salt) % n, 1 + i % 5 * (i % 3) * 37);
    if (n > 100) { put(n - 70, 9); put(n - 3, 1); put(n - 1, 1); }
    std::sort(m.begin(), m.end()); Seq s; s.n = n; u64 e = 0;
    for (auto x : m) { x.first = std::max(x.first, e); if (x.first < x.second) { s.add(x.first, x.second); e = x.second; } }
    return inverted ? s.inv() : s;
}
static std::string show(const Seq& s, u64 around = 0) { std::string t = fmt("%llu bits, ones:", (ull)s.n); int k = 0; for (auto& x : s.r) if (x.second + 200 >= around && k++ < 6) t += fmt(" [%llu,%llu)", (ull)x.first, (ull)x.second); return t; }

// ---- memory ---------------------------------------------------------------------
// bits [a,b) of memory := v
static void setbits(unsigned char* m, u64 a, u64 b, bool v) {
    for (; a < b && a % 8; ++a) if (v) m[a / 8] |= (unsigned char)(1 << a % 8); else m[a / 8] &= (unsigned char)~(1 << a % 8);
    if (b - a >= 8 && a < b) { memset(m + a / 8, v ? 0xff : 0, (b - a) / 8); a += (b - a) / 8 * 8; }
    for (; a < b; ++a) if (v) m[a / 8] |= (unsigned char)(1 << a % 8); else m[a / 8] &= (unsigned char)~(1 << a % 8);
}
static void store(unsigned char* m, u64 off, const Seq& s) {
    u64 ones = s.ones(); if (ones * 2 > s.n) { setbits(m, off, off + s.n, true); for (auto& x : s.inv().r) setbits(m, off + x.first, off + x.second, false); }
    else { setbits(m, off, off + s.n, false); for (auto& x : s.r) setbits(m, off + x.first, off + x.second, true); }
}
static Seq load(const unsigned char* m, u64 off, u64 n) {
    Seq s; s.n = n; bool on = false; u64 p = 0, i = 0;
    auto bit = [&](u64 j) { return (m[(off + j) / 8] >> ((off + j) % 8)) & 1; };
    while (i < n) {
        if ((off + i) % 64 == 0 && i + 64 <= n) {
            const u64* w = (const u64*)(m + (off + i) / 8); const u64 same = on ? ~0ull : 0; u64 k = 0, kmax = (n - i) / 64;
            while (k + 8 <= kmax && ((w[k] ^ same) | (w[k + 1] ^ same) | (w[k + 2] ^ same) | (w[k + 3] ^ same) | (w[k + 4] ^ same) | (w[k + 5] ^ same) | (w[k + 6] ^ same) | (w[k + 7] ^ same)) == 0) k += 8;
            while (k < kmax && w[k] == same) ++k;
            if (k) { i += 64 * k; continue; }
            u64 t = w[0] ^ same; int z = __builtin_ctzll(t); if (on) s.add(p, i + z); p = i + z; on = !on; i = p; if (s.r.size() > 200000) break;
            // finish this word bit by bit
            u64 e = (i / 1 + 64) ; e = i + (64 - (off + i) % 64); for (; i < e && i < n; ++i) if (bit(i) != on) { if (on) s.add(p, i); p = i; on = !on; }
            continue;
        }
        if (bit(i) != on) { if (on) s.add(p, i); p = i; on = !on; } ++i;
    }
    if (on) s.add(p, n); return s;
}
static void same(const Seq& got, const Seq& want, const char* what) {
    if (got.n != want.n) fail(fmt("%s: %llu bits instead of %llu", what, (ull)got.n, (ull)want.n));
    if (got.r != want.r) { size_t i = 0; while (i < got.r.size() && i < want.r.size() && got.r[i] == want.r[i]) ++i; u64 at = std::min(i < got.r.size() ? got.r[i].first : ~0ull, i < want.r.size() ? want.r[i].first : ~0ull); fail(fmt("%s: differs around bit %llu: ", what, (ull)at) + show(got, at) + " instead of " + show(want, at)); }
}
static u64 size_of(int c, int delta) {     // size classes
    switch (c) { case 0: return (1ull << 24) + delta; case 1: return (1ull << 31) + delta; case 2: return (1ull << 32) + delta; case 3: return (1ull << 34) + delta; default: return (1ull << 35) + delta; }
}
static const int deltas[] = {-1, 0, 1, 5, 77, 32, 1000};

// ---- vectors ----------------------------------------------------------------------
template <class W> using V = bit::bit_vector<W>;
template <class W> static void verify(V<W>& v, const Seq& want, const char* what) {
    const u64 D = dig<W>();
    VF_CHECK(v.size() == want.n, "%s: size %llu instead of %llu", what, (ull)v.size(), (ull)want.n);
    VF_CHECK((u64)(v.end() - v.begin()) == want.n, "%s: end - begin is %lld", what, (ll)(v.end() - v.begin()));
    VF_CHECK(v.capacity() >= want.n, "%s: capacity %llu below size", what, (ull)v.capacity());
    VF_CHECK((u64)(v.end().base() - v.begin().base()) == want.n / D, "%s: end lies in word %lld", what, (ll)(v.end().base() - v.begin().base()));
    ++nevals; tick(); same(load((const unsigned char*)v.data(), 0, want.n), want, what); tick();
}
template <class W> static V<W> make(const Seq& s) { V<W> v(s.n); tick(); store((unsigned char*)v.data(), 0, s); tick(); return v; }
static std::vector<u64> places(u64 n, bool full) { std::vector<u64> p{0, n, n - 1}; if (full) { p.push_back(1); p.push_back(n / 2 + 3); } for (u64 x : {(1ull << 24) + 3, (1ull << 31) + 7, (1ull << 32) + 1}) if (x < n) p.push_back(x); std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end()); return p; }
enum { CTOR, ACCESS, ITERS, GROW, CUT, PUSH, POP, INS1, INSN, INSR, ERA1, ERAR, RESERVE, COPYV, RANGE, NVOP };
static const char* vname[] = {"construct", "access", "iterators", "resize up", "resize down", "push_back", "pop_back", "insert one", "insert many", "insert range", "erase one", "erase range", "reserve and shrink", "copy and move", "construct from range"};
template <class W> static void vec_t(const ll* a) {      // width class delta op arg
    u64 n = size_of((int)a[1], (int)a[2]); int o = (int)a[3]; u64 x = (u64)a[4]; const u64 D = dig<W>();
    auto must = [&](u64 got, u64 want, const char* what) { VF_CHECK(got == want, "%s: %s is %llu instead of %llu", vname[o], what, (ull)got, (ull)want); };
    if (o == CTOR) { { V<W> v(n); verify(v, constant(n, false), "count constructor"); VF_CHECK(v.capacity() / D <= n / D + 1, "capacity %llu for %llu bits", (ull)v.capacity(), (ull)n); } V<W> v(n, bit::bit1); verify(v, constant(n, true), "count and value constructor"); return; }
    const Seq s = marked(n, x & 1, 0); V<W> v = make<W>(s);
    switch (o) {
        case ACCESS: {
            const V<W>& c = v; for (u64 i : places(n, true)) for (int d = -4; d < 5; ++d) { u64 j = i + d; if (j >= n) continue; bool w = s.get(j); VF_CHECK(bool(v[j]) == w && bool(c[j]) == w && bool(v.at(j)) == w && bool(c.at(j)) == w && bool(v.begin()[j]) == w, "bit %llu read wrong", (ull)j); ++nevals; }
            for (u64 j : {n, n + 1, n + D, 2 * n, n + (1ull << 32), ~0ull}) { bool t = false; try { (void)v.at(j); } catch (const std::out_of_range&) { t = true; } VF_CHECK(t, "at(%llu) does not throw", (ull)j); t = false; try { (void)c.at(j); } catch (const std::out_of_range&) { t = true; } VF_CHECK(t, "constant at(%llu) does not throw", (ull)j); }
            VF_CHECK(bool(v.front()) == s.get(0) && bool(v.back()) == s.get(n - 1), "front or back wrong");
            Seq t = s; for (u64 i : places(n, true)) if (i < n) { v[i] = bit::bit1; t = patch(t, i, constant(1, true)); } verify(v, t, "element writes"); break; }
        case ITERS: {
            auto b = v.begin(), e = v.end();
            for (u64 i : places(n, true)) for (u64 j : places(n, true)) { auto p = b + (ll)i, q = b + (ll)j; ll d = (ll)j - (ll)i; ++nevals;
                VF_CHECK(q - p == d && p + d == q && q - d == p && (p < q) == (i < j) && (p <= q) == (i <= j) && (p == q) == (i == j) && (e - p) == (ll)(n - i), "iterators %llu and %llu", (ull)i, (ull)j);
                if (i < j) VF_CHECK((ll)bit::distance(p, q) == d && std::distance(p, q) == d, "distance %lld", (ll)bit::distance(p, q));
                if (i < n && j < n) { VF_CHECK((&*q) - (&*p) == d && (&*p) + d == &*q && bool(p[d]) == s.get(j), "pointers %llu and %llu", (ull)i, (ull)j); } }
            break; }
        case GROW: { u64 m = size_of((int)x / 2 % 3, (int)(x / 6 % 3) * 40 - 1); if (m <= n) m = n + 100 + x * 7; bool val = x & 1; if (val) v.resize(m, bit::bit1); else v.resize(m); verify(v, cat(s, constant(m - n, val)), "resize up"); break; }
        case CUT: { u64 m = x ? n - 1000 - x : n / 2 + 1; v.resize(m); verify(v, s.sub(0, m), "resize down"); v.resize(m + 500); verify(v, cat(s.sub(0, m), constant(500, false)), "resize up again"); break; }
        case PUSH: { Seq t = s; for (int i = 0; i < 150; ++i) { bool bb = i % 3 == 0; v.push_back(bb ? bit::bit1 : bit::bit0); t.append(constant(1, bb)); } verify(v, t, "push_back"); break; }
        case POP: { for (int i = 0; i < 150; ++i) v.pop_back(); verify(v, s.sub(0, n - 150), "pop_back"); break; }
        case INS1: { auto it = v.insert(v.begin() + (ll)x, bit::bit1); must((u64)(it - v.begin()), x, "returned position"); verify(v, cat(s.sub(0, x), constant(1, true), s.sub(x, n)), "insert one"); break; }
        case INSN: { for (u64 k : {(u64)70, (u64)1 << 20}) { Seq b = load((unsigned char*)v.data(), 0, v.size()); auto it = v.insert(v.begin() + (ll)x, k, bit::bit1); must((u64)(it - v.begin()), x, "returned position"); verify(v, cat(b.sub(0, x), constant(k, true), b.sub(x, b.n)), "insert many"); } break; }
        case INSR: { Seq q = marked(300, false, 1); V<W> u = make<W>(q); auto it = v.insert(v.begin() + (ll)x, u.begin() + 3, u.end()); must((u64)(it - v.begin()), x, "returned position"); verify(v, cat(s.sub(0, x), q.sub(3, 300), s.sub(x, n)), "insert range"); break; }
        case ERA1: { auto it = v.erase(v.begin() + (ll)x); must((u64)(it - v.begin()), x, "returned position"); verify(v, cat(s.sub(0, x), s.sub(x + 1, n)), "erase one"); break; }
        case ERAR: { u64 k = std::min(n - x, (u64)(x ? 1000 : n - 777)); auto it = v.erase(v.begin() + (ll)x, v.begin() + (ll)(x + k)); must((u64)(it - v.begin()), x, "returned position"); verify(v, cat(s.sub(0, x), s.sub(x + k, n)), "erase range"); break; }
        case RESERVE: { v.reserve(n + 4000 + x); VF_CHECK(v.capacity() >= n + 4000 + x, "capacity %llu after reserve", (ull)v.capacity()); verify(v, s, "reserve"); v.shrink_to_fit(); verify(v, s, "shrink"); VF_CHECK(v.capacity() < n + D, "capacity %llu after shrink", (ull)v.capacity()); break; }
        case COPYV: { V<W> u(v); verify(u, s, "copy"); V<W> t(std::move(u)); verify(t, s, "move"); u = std::move(t); verify(u, s, "move assignment"); t = V<W>(); v.clear(); VF_CHECK(v.size() == 0 && v.empty(), "clear"); v = u; verify(v, s, "copy assignment"); break; }
        case RANGE: { V<W> u(v.begin() + (ll)x, v.end()); verify(u, s.sub(x, n), "construct from range"); break; }
    }
}
static void vec_case(const ll* a) { VF_DISPATCH(a[0], vec_t, a); }
VF_REGISTER(vec_case);

// ---- algorithms -----------------------------------------------------------------------
struct Mem { unsigned char* p = nullptr; u64 n = 0; Mem(u64 bytes) { n = bytes; p = (unsigned char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { printf("out of memory\n"); _exit(3); } madvise(p, n, MADV_HUGEPAGE); } ~Mem() { munmap(p, n); } Mem(const Mem&) = delete; };
enum { A_COUNT, A_FIND, A_EQUAL, A_FILL, A_COPY, A_COPYB, A_MOVE, A_SHL, A_SHR, A_ROT, A_REV, A_SWAP, A_TR1, A_TR2, NALG };
static const char* aname[] = {"count", "find", "equal", "fill", "copy", "copy_backward", "move", "shift_left", "shift_right", "rotate", "reverse", "swap_ranges", "transform", "transform of two"};
template <class W> static void alg_t(const ll* a) {      // width class delta op f arg
    u64 n = size_of((int)a[1], (int)a[2]); int o = (int)a[3]; u64 f = (u64)a[4]; u64 x = (u64)a[5];
    const u64 Mg = 192, f0 = Mg + f, l0 = f0 + n, N = (l0 + Mg + 511) / 512 * 512;
    const bool two = o == A_EQUAL || o == A_COPY || o == A_COPYB || o == A_MOVE || o == A_SWAP || o == A_TR1 || o == A_TR2;
    Mem m1(N / 8), m2(two ? N / 8 + 64 : 64), m3(o == A_TR2 ? N / 8 + 64 : 64);
    Seq s = cat(marked(f0, false, 1), marked(n, x & 1, 0), marked(N - l0, false, 2)); tick(); store(m1.p, 0, s); tick();
    auto P = [&](Mem& m, u64 i) { return at<W>(m.p, (ll)i); };
    auto ck = [&](Mem& m, const Seq& want, const char* what) { tick(); same(load(m.p, 0, want.n), want, (std::string(aname[o]) + what).c_str()); tick(); };
    auto must = [&](u64 got, u64 want, const char* what) { ++nevals; VF_CHECK(got == want, "%s: %s is %llu instead of %llu", aname[o], what, (ull)got, (ull)want); };
    const Seq r = s.sub(f0, l0); const u64 g0 = Mg + (f * 5 + x * 3) % 64, gl = g0 + n, N2 = N + 512;
    auto second = [&](Mem& m, int salt) { Seq t = cat(marked(g0, false, salt), marked(n, false, salt + 1), marked(N2 - gl, false, salt)); store(m.p, 0, t); tick(); return t; };
    switch (o) {
        case A_COUNT: must((u64)bit::count(P(m1, f0), P(m1, l0), bit::bit1), r.ones(), "number of ones"); must((u64)bit::count(P(m1, f0), P(m1, l0), bit::bit0), n - r.ones(), "number of zeros"); break;
        case A_FIND: {     // a single match far away
            for (u64 q : places(n, true)) for (int v = 0; v < 2; ++v) { tick(); setbits(m1.p, f0, l0, !v); if (q < n) setbits(m1.p, f0 + q, f0 + q + 1, v); auto it = bit::find(P(m1, f0), P(m1, l0), bv(v)); must((u64)index<W>(m1.p, it), f0 + q, "position"); must((u64)(it - P(m1, f0)), q, "distance"); }
            return; }
        case A_EQUAL: { Seq t = second(m2, 5); store(m2.p, g0, r); for (u64 q : places(n, false)) { tick(); if (q < n) { bool b = r.get(q); setbits(m2.p, g0 + q, g0 + q + 1, !b); must(bit::equal(P(m1, f0), P(m1, l0), P(m2, g0)), 0, "answer"); setbits(m2.p, g0 + q, g0 + q + 1, b); } else must(bit::equal(P(m1, f0), P(m1, l0), P(m2, g0)), 1, "answer"); } break; }
        case A_FILL: bit::fill(P(m1, f0), P(m1, l0), bv(x & 1)); ++nevals; s = patch(s, f0, constant(n, x & 1)); break;
        case A_COPY: case A_MOVE: case A_COPYB: { Seq t = second(m2, 5); auto it = o == A_COPYB ? bit::copy_backward(P(m1, f0), P(m1, l0), P(m2, gl)) : o == A_COPY ? bit::copy(P(m1, f0), P(m1, l0), P(m2, g0)) : bit::move(P(m1, f0), P(m1, l0), P(m2, g0)); must((u64)index<W>(m2.p, it), o == A_COPYB ? g0 : gl, "returned position"); ck(m2, patch(t, g0, r), " destination"); break; }
        case A_SHL: { auto it = bit::shift_left(P(m1, f0), P(m1, l0), (ll)x); u64 k = n - x; must((u64)index<W>(m1.p, it), f0 + k, "returned position"); Seq got = load(m1.p, 0, N); same(got.sub(0, f0 + k), cat(s.sub(0, f0), r.sub(x, n)), "shift_left"); same(got.sub(l0, N), s.sub(l0, N), "shift_left behind"); return; }
        case A_SHR: { auto it = bit::shift_right(P(m1, f0), P(m1, l0), (ll)x); u64 k = n - x; must((u64)index<W>(m1.p, it), f0 + x, "returned position"); Seq got = load(m1.p, 0, N); same(got.sub(f0 + x, N), cat(r.sub(0, k), s.sub(l0, N)), "shift_right"); same(got.sub(0, f0), s.sub(0, f0), "shift_right before"); return; }
        case A_ROT: { auto it = bit::rotate(P(m1, f0), P(m1, f0 + x), P(m1, l0)); must((u64)index<W>(m1.p, it), l0 - x, "returned position"); s = patch(s, f0, cat(r.sub(x, n), r.sub(0, x))); break; }
        case A_REV: bit::reverse(P(m1, f0), P(m1, l0)); ++nevals; s = patch(s, f0, r.rev()); break;
        case A_SWAP: { Seq t = second(m2, 5); auto it = bit::swap_ranges(P(m1, f0), P(m1, l0), P(m2, g0)); must((u64)index<W>(m2.p, it), gl, "returned position"); ck(m2, patch(t, g0, r), " second range"); s = patch(s, f0, t.sub(g0, gl)); break; }
        case A_TR1: { Seq t = second(m2, 5); auto it = bit::transform(P(m1, f0), P(m1, l0), P(m2, g0), [](W w) { return (W)~w; }); must((u64)index<W>(m2.p, it), gl, "returned position"); ck(m2, patch(t, g0, r.inv()), " destination"); break; }
        case A_TR2: { Seq t = second(m2, 5), u = second(m3, 8); auto it = bit::transform(P(m1, f0), P(m1, l0), P(m2, g0), P(m3, g0), [](W w, W y) { return (W)(w ^ y); }); must((u64)index<W>(m3.p, it), gl, "returned position"); ck(m2, t, " second source"); ck(m3, patch(u, g0, exor(r, t.sub(g0, gl))), " destination"); break; }
    }
    ck(m1, s, " first range");
}
static void alg_case(const ll* a) { VF_DISPATCH(a[0], alg_t, a); }
VF_REGISTER(alg_case);

static void plan(int W, int c, int delta) {
    u64 n = size_of(c, delta); bool small = c == 0;
    if (samples().size() < 4) sample(fmt("%d-bit words, %llu bits: 15 vector operations and 14 algorithms at distant positions", W, (ull)n));
#ifdef BITLIB_HWY
    const bool vectors = thorough || small;          // the vector instructions are in the algorithms
#else
    const bool vectors = true;
#endif
    auto vec = [&](int o, u64 x) { if (vectors) RUN(vec_case, W, c, delta, o, (ll)x); };
    auto alg = [&](int o, u64 f, u64 x) { RUN(alg_case, W, c, delta, o, (ll)f, (ll)x); };
    const bool dense = small || thorough;
    vec(CTOR, 0); vec(ACCESS, 0); vec(ITERS, 0); for (u64 x = 0; x < (dense ? 18 : 3); ++x) vec(GROW, dense ? x : x * 5 + 3);
    vec(CUT, 0); vec(CUT, 3); vec(PUSH, 0); vec(PUSH, 1); vec(POP, 0); vec(RESERVE, 0); vec(COPYV, 0); vec(COPYV, 1);
    for (u64 p : places(n, dense)) { if (!dense && p != 0 && p != n && p < (1ull << 31)) continue; vec(INS1, p); if (dense || p) vec(INSN, p); if (dense || !p) vec(INSR, p); if (p < n) { vec(ERA1, p); vec(ERAR, p); if (dense || p > 5) vec(RANGE, p); } }
    for (u64 f : dense ? std::vector<u64>{0, 3, 64, 61} : std::vector<u64>{3}) {
        alg(A_COUNT, f, 0); alg(A_COUNT, f, 1); alg(A_FIND, f, 0); alg(A_EQUAL, f, 1); alg(A_FILL, f, 0); alg(A_FILL, f, 1);
        for (u64 x : dense ? std::vector<u64>{0, 1, 2, 21} : std::vector<u64>{f, 1}) for (int o : {A_COPY, A_COPYB, A_MOVE, A_SWAP, A_TR1, A_TR2}) if (dense || o != A_MOVE || x == 1) alg(o, f, x);
        std::vector<u64> ns{1, 64, n / 2, n - 1, n - 64}; if (dense) { ns.push_back(n / 3); ns.push_back(n / 2 + 1); ns.push_back(1000); ns.push_back(n - 1000); } for (u64 b : {24, 31, 32}) for (int d : {0, 1}) if ((1ull << b) + d < n) ns.push_back((1ull << b) + d);
        uniq(ns); for (u64 k : ns) { alg(A_SHL, f, k); alg(A_SHR, f, k); if (dense || (W == 64 ? k % 3 : k % 64)) alg(A_ROT, f, k); }
        alg(A_REV, f, 0); alg(A_REV, f, 1);
    }
}
void vf::enumerate() {
    for (int W : VF_WORDS) if (thorough || W == 8 || W == 32) for (int i = 0; i < (thorough ? 7 : 4); ++i) plan(W, 0, deltas[i]);
    if (!thorough) { plan(8, 2, 5); plan(64, 2, 1); plan(32, 1, 1); }
    else { for (int W : VF_WORDS) for (int c : {1, 2}) for (int d : {0, 1, 77}) plan(W, c, d); }
    if (thorough) for (int c : {3, 4}) for (int o = 0; o < NALG; ++o) { ll x = o == A_SHL || o == A_SHR || o == A_ROT ? (1ll << 33) + 5 : 1; RUN(alg_case, 8, c, 5, o, 3, x); }
}
VF_MAIN
