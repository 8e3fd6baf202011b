// Single-bit views: C16 iterators, C17 pointers, C18 references and values.
// The abstract state of an iterator or pointer is its bit index; every operation is
// taken from every index (the ends included), which covers every history of them.
#include "bits.hpp"
#include <list>
#include <deque>
#include <forward_list>
#include <sstream>
#include <algorithm>
using namespace vf;

template <class W> static std::vector<W> words_of(int pattern, int n) {
    std::vector<W> v(n);
    for (int k = 0; k < n; ++k) { std::uint64_t x = 0;
        switch (pattern) { case 0: x = 0; break; case 1: x = ~0ull; break; case 2: x = 0xAAAAAAAAAAAAAAAAull; break; case 3: x = 0x5555555555555555ull; break;
            case 4: x = 1; break; case 5: return std::vector<W>(n, (W)((W)1 << (dig<W>() - 1))); default: x = (std::uint64_t)mixc(pattern * 977 + k); }
        v[k] = (W)x; }
    return v;
}
template <class W> static bool bit_of(const std::vector<W>& v, ll i) { return v[i / dig<W>()] >> (i % dig<W>()) & 1; }

#if VF_PROP == 16
// ---- sequences: how to get words, a base iterator, and back to a word number
template <class W> struct SeqVec { typedef std::vector<W> cont; cont c; SeqVec(const std::vector<W>& v) : c(v) {} typedef typename cont::iterator base; typedef typename cont::const_iterator cbase;
    base b(ll k) { return c.begin() + k; } cbase cb(ll k) { return c.cbegin() + k; } std::vector<W> get() { return c; } enum { ra = 1 }; };
template <class W> struct SeqDeq { typedef std::deque<W> cont; cont c; SeqDeq(const std::vector<W>& v) : c(v.begin(), v.end()) {} typedef typename cont::iterator base; typedef typename cont::const_iterator cbase;
    base b(ll k) { return c.begin() + k; } cbase cb(ll k) { return c.cbegin() + k; } std::vector<W> get() { return std::vector<W>(c.begin(), c.end()); } enum { ra = 1 }; };
template <class W> struct SeqPtr { std::vector<W> c; SeqPtr(const std::vector<W>& v) : c(v) {} typedef W* base; typedef const W* cbase;
    base b(ll k) { return c.data() + k; } cbase cb(ll k) { return c.data() + k; } std::vector<W> get() { return c; } enum { ra = 1 }; };
template <class W> struct SeqList { typedef std::list<W> cont; cont c; SeqList(const std::vector<W>& v) : c(v.begin(), v.end()) {} typedef typename cont::iterator base; typedef typename cont::const_iterator cbase;
    base b(ll k) { return std::next(c.begin(), k); } cbase cb(ll k) { return std::next(c.cbegin(), k); } std::vector<W> get() { return std::vector<W>(c.begin(), c.end()); } enum { ra = 0 }; };
template <class W> struct SeqFwd { typedef std::forward_list<W> cont; cont c; SeqFwd(const std::vector<W>& v) : c(v.begin(), v.end()) {} typedef typename cont::iterator base; typedef typename cont::const_iterator cbase;
    base b(ll k) { return std::next(c.begin(), k); } cbase cb(ll k) { return std::next(c.cbegin(), k); } std::vector<W> get() { return std::vector<W>(c.begin(), c.end()); } enum { ra = 0 }; };
template <class S> static bit::bit_iterator<typename S::base> mk(S& s, ll i, int d) { return bit::bit_iterator<typename S::base>(s.b(i / d), (std::size_t)(i % d)); }
template <class S> static bit::bit_iterator<typename S::cbase> mkc(S& s, ll i, int d) { return bit::bit_iterator<typename S::cbase>(s.cb(i / d), (std::size_t)(i % d)); }
// the exact representation expected for bit i
#define AT(it, s, i) VF_CHECK((it).base() == (s).b((i) / d) && (it).position() == (std::size_t)((i) % d), "%s: not at bit %lld (position %llu)", #it, (ll)(i), (ull)(it).position())
#define CAT(it, s, i) VF_CHECK((it).base() == (s).cb((i) / d) && (it).position() == (std::size_t)((i) % d), "%s: not at bit %lld (position %llu)", #it, (ll)(i), (ull)(it).position())

// random access: kind words i j
template <class W, template <class> class SQ> static void jump_s(int words, ll i, ll j) {
    typedef SQ<W> S; const int d = dig<W>(); const ll N = (ll)words * d, n = j - i;
    S s(words_of<W>(7, words)); const std::vector<W> before = s.get();
    auto a = mk(s, i, d), b = mk(s, j, d); auto ca = mkc(s, i, d), cb = mkc(s, j, d);
    nevals += 40;
    AT(a, s, i); CAT(ca, s, i);
    AT(a + n, s, j); AT(n + a, s, j); AT(a - (-n), s, j); CAT(ca + n, s, j); CAT(n + ca, s, j); CAT(ca - (-n), s, j);
    { auto t = a; auto& r = (t += n); AT(t, s, j); VF_CHECK(&r == &t, "+= returns another object"); }
    { auto t = a; auto& r = (t -= -n); AT(t, s, j); VF_CHECK(&r == &t, "-= returns another object"); }
    { auto t = ca; t += n; CAT(t, s, j); t -= n; CAT(t, s, i); }
    VF_CHECK(b - a == n, "difference %lld expected %lld", (ll)(b - a), n);
    VF_CHECK(cb - ca == n && cb - a == n && b - ca == n, "difference of constant iterators");
    if (n >= 0) VF_CHECK((ll)bit::distance(a, b) == n, "distance %lld expected %lld", (ll)bit::distance(a, b), n);
    { auto t = a; bit::advance(t, n); AT(t, s, j); auto u = bit::next(a, n); AT(u, s, j); if (i < N) AT(bit::next(a), s, i + 1); }
    if constexpr (!std::is_same<S, SeqDeq<W>>::value) if (n >= 0) {   // is_within<N>: at most N bits apart
        VF_CHECK(bit::is_within<0>(a, b) == (n <= 0) && bit::is_within<1>(a, b) == (n <= 1) && bit::is_within<5>(a, b) == (n <= 5) && bit::is_within<8>(a, b) == (n <= 8) && bit::is_within<17>(a, b) == (n <= 17) && bit::is_within<64>(a, b) == (n <= 64), "is_within");
        VF_CHECK(bit::is_within<dig<W>() - 1>(a, b) == (n <= d - 1) && bit::is_within<dig<W>()>(a, b) == (n <= d) && bit::is_within<2 * dig<W>() + 1>(a, b) == (n <= 2 * d + 1), "is_within words");
    }
    VF_CHECK((ll)std::distance(a, b) == n, "std::distance %lld expected %lld", (ll)std::distance(a, b), n);
    { auto t = a; std::advance(t, n); AT(t, s, j); auto u = std::next(a, n); AT(u, s, j); auto p = std::prev(a, -n); AT(p, s, j); }
#define CMP(x, y) do { VF_CHECK((x == y) == (i == j), #x "==" #y); VF_CHECK((x != y) == (i != j), #x "!=" #y); VF_CHECK((x < y) == (i < j), #x "<" #y); \
    VF_CHECK((x <= y) == (i <= j), #x "<=" #y); VF_CHECK((x > y) == (i > j), #x ">" #y); VF_CHECK((x >= y) == (i >= j), #x ">=" #y); } while (0)
    CMP(a, b); CMP(ca, cb); CMP(a, cb); CMP(ca, b);
    if (j < N) {
        auto r = a[n]; VF_CHECK(r.address() == std::addressof(*s.b(j / d)) && r.position() == (std::size_t)(j % d), "a[%lld] refers to another bit", n);
        auto cr = ca[n]; VF_CHECK(cr.address() == std::addressof(*s.cb(j / d)) && cr.position() == (std::size_t)(j % d), "constant a[%lld] refers to another bit", n);
        VF_CHECK((bool)r == bit_of(before, j) && (bool)cr == bit_of(before, j), "value through a[n]");
        // writing through a[n] and *(a + n) changes that bit only
        a[n].flip(); auto now = s.get(); for (ll k = 0; k < N; ++k) VF_CHECK(bit_of(now, k) == (bit_of(before, k) ^ (k == j)), "flip through a[n]: bit %lld", k);
        (*(a + n)).flip(); VF_CHECK(s.get() == before, "flip back through *(a+n)");
        (a + n)->flip(); now = s.get(); for (ll k = 0; k < N; ++k) VF_CHECK(bit_of(now, k) == (bit_of(before, k) ^ (k == j)), "flip through ->: bit %lld", k);
        (a + n)->flip();
    }
    VF_CHECK(s.get() == before, "the memory changed");
}
// stepping and lifecycle at i, any iterator category
template <class W, template <class> class SQ> static void step_s(int words, ll i, int pattern) {
    typedef SQ<W> S; const int d = dig<W>(); const ll N = (ll)words * d; typedef bit::bit_iterator<typename S::base> I; typedef bit::bit_iterator<typename S::cbase> CI;
    S s(words_of<W>(pattern, words)); const std::vector<W> before = s.get();
    I a = mk(s, i, d); AT(a, s, i); nevals += 20;
    VF_CHECK(a.mask() == (W)((W)1 << (i % d)), "mask");
    if (i % d == 0) { I t(s.b(i / d)); AT(t, s, i); }
    { I c(a); AT(c, s, i); I e; e = a; AT(e, s, i); CI k(a); CAT(k, s, i); CI m; m = a; CAT(m, s, i); CI q = k; CAT(q, s, i); q = mkc(s, 0, d); q = k; CAT(q, s, i); I mv(std::move(c)); AT(mv, s, i); }
    { I e1{}, e2{}; VF_CHECK(e1.position() == 0 && e2.position() == 0, "default position"); }
    VF_CHECK(a == a && !(a != a), "self comparison");
    if (i < N) {
        I t = a; I& r = ++t; VF_CHECK(&r == &t, "++ returns another object"); AT(t, s, i + 1); VF_CHECK(t != a && !(t == a), "++ moves");
        I u = a; I o = u++; AT(o, s, i); AT(u, s, i + 1);
        CI v(a); ++v; CAT(v, s, i + 1); CI w = v++; CAT(w, s, i + 1); (void)w;
        VF_CHECK((bool)*a == bit_of(before, i), "value at bit %lld", i);
        CI ca(a); VF_CHECK((bool)*ca == bit_of(before, i), "constant value at bit %lld", i);
        VF_CHECK((*a).address() == std::addressof(*s.b(i / d)) && (*a).position() == (std::size_t)(i % d), "* refers to another bit");
        VF_CHECK((bool)*a->operator&() == bit_of(before, i), "->");
        for (int v = 0; v < 2; ++v) {
            *a = bv(v); auto now = s.get(); for (ll k = 0; k < N; ++k) VF_CHECK(bit_of(now, k) == (k == i ? (bool)v : bit_of(before, k)), "write %d through *: bit %lld", v, k);
        }
        *a = bv(bit_of(before, i)); VF_CHECK(s.get() == before, "write back");
    }
    if constexpr (std::is_base_of<std::bidirectional_iterator_tag, typename std::iterator_traits<typename S::base>::iterator_category>::value) if (i > 0) {
        I t = a; I& r = --t; VF_CHECK(&r == &t, "-- returns another object"); AT(t, s, i - 1);
        I u = a; I o = u--; AT(o, s, i); AT(u, s, i - 1); ++u; AT(u, s, i);
        CI v(a); --v; CAT(v, s, i - 1); ++v; CAT(v, s, i); v--; CAT(v, s, i - 1);
    }
}
template <class W> static void jump_t(int k, int words, ll i, ll j) { switch (k) { case 0: jump_s<W, SeqVec>(words, i, j); break; case 1: jump_s<W, SeqDeq>(words, i, j); break; default: jump_s<W, SeqPtr>(words, i, j); } }
template <class W> static void step_t(int k, int words, ll i, int p) { switch (k) { case 0: step_s<W, SeqVec>(words, i, p); break; case 1: step_s<W, SeqDeq>(words, i, p); break; case 2: step_s<W, SeqPtr>(words, i, p); break; case 3: step_s<W, SeqList>(words, i, p); break; default: step_s<W, SeqFwd>(words, i, p); } }
static void jump(const ll* a) { VF_DISPATCH(a[0], jump_t, (int)a[1], (int)a[2], a[3], a[4]); }
static void step(const ll* a) { VF_DISPATCH(a[0], step_t, (int)a[1], (int)a[2], a[3], (int)a[4]); }
VF_REGISTER(jump); VF_REGISTER(step);
// a walk of +=: from i add x then y (checks that the state after one jump is as good as a fresh one)
template <class W> static void far_t(ll i, ll e) {   // jumps of huge distance on raw pointers (never dereferenced): bit index i, distance e
    const int d = dig<W>(); static W w; const std::uintptr_t base = 1ull << 46; (void)w;
    bit::bit_iterator<W*> a(reinterpret_cast<W*>(base), (std::size_t)i); ++nevals;
    auto b = a + e; const ll sum = i + e; ll q = sum / d, r = sum % d; if (r < 0) { r += d; --q; }
    VF_CHECK((ll)(reinterpret_cast<std::uintptr_t>(b.base()) - base) == q * (ll)sizeof(W) && (ll)b.position() == r, "jump by %lld", e);
    VF_CHECK(b - a == e && a - b == -e, "distance back %lld", (ll)(b - a)); VF_CHECK((a < b) == (e > 0) && (a > b) == (e < 0), "order");
    auto c = b - e; VF_CHECK(c == a, "and back"); c = a; c -= -e; VF_CHECK(c == b, "-=");
    auto p = a[e]; VF_CHECK(p.address() == b.base() && p.position() == b.position(), "operator[] far");
}
static void far_(const ll* a) { VF_DISPATCH(a[0], far_t, a[1], a[2]); }
VF_REGISTER(far_);
void vf::enumerate() {
    for (int W : VF_WORDS) {
        const int words = thorough ? (W == 64 ? 3 : 5) : (W <= 16 ? 4 : W == 32 ? 3 : 2); const ll N = (ll)words * W;
        for (int k = 0; k < 3; ++k) for (ll i = 0; i <= N; ++i) for (ll j = 0; j <= N; ++j) RUN(jump, W, k, words, i, j);
        for (int k = 0; k < 5; ++k) for (ll i = 0; i <= N; ++i) for (int p = 0; p < (thorough ? 40 : 12); ++p) RUN(step, W, k, words, i, p);
        for (ll i = 0; i < W; ++i) for (int k = 3; k < 43; ++k) for (ll x = -3; x <= 3; ++x) for (int sg = -1; sg <= 1; sg += 2) RUN(far_, W, i, sg * ((1ll << k) + x));
    }
    sample("jump 16 0 3 5 40: from bit 5 to bit 40 of three 16-bit words through vector iterators");
}
#endif

#if VF_PROP == 17
typedef std::uintptr_t up;
template <class W> using P = bit::bit_pointer<W>;
template <class W> static ll pindex(P<W> p, const W* m) {   // the bit a pointer denotes, through the public interface
    auto r = *p; return ((ll)((up)r.address() - (up)m)) / (ll)sizeof(W) * dig<W>() + (ll)r.position();
}
// everything between bits i and j
template <class W> static void ptr_t(int words, ll i, ll j) {
    const int d = dig<W>(); const ll N = (ll)words * d, n = j - i; std::vector<W> store = words_of<W>(8, words + 1); store.back() = 0; const std::vector<W> before = store; W* m = store.data(); typedef const W C;
    P<W> a(m + i / d, (std::size_t)(i % d)), b(m + j / d, (std::size_t)(j % d)); P<C> ca(static_cast<C*>(m) + i / d, (std::size_t)(i % d)), cb(b);
    nevals += 40;
#define IS(p, x) VF_CHECK(pindex(p, m) == (x), "%s is at bit %lld, expected %lld", #p, pindex(p, m), (ll)(x))
#define CIS(p, x) VF_CHECK(pindex<C>(p, m) == (x), "%s is at bit %lld, expected %lld", #p, pindex<C>(p, m), (ll)(x))
    IS(a, i); IS(b, j); CIS(ca, i); CIS(cb, j);
    IS(a + n, j); IS(n + a, j); IS(a - (-n), j); CIS(ca + n, j); CIS(ca - (-n), j);
    { P<W> t = a; P<W>& r = (t += n); IS(t, j); VF_CHECK(std::addressof(r) == std::addressof(t), "+= returns another object"); t -= n; IS(t, i); }
    { P<C> t = ca; t += n; CIS(t, j); t -= n; CIS(t, i); }
    VF_CHECK(b - a == n && cb - ca == n && cb - a == n && b - ca == n, "difference %lld expected %lld", (ll)(b - a), n);
#define CMP(x, y) do { VF_CHECK((x == y) == (i == j), #x "==" #y); VF_CHECK((x != y) == (i != j), #x "!=" #y); VF_CHECK((x < y) == (i < j), #x "<" #y); \
    VF_CHECK((x <= y) == (i <= j), #x "<=" #y); VF_CHECK((x > y) == (i > j), #x ">" #y); VF_CHECK((x >= y) == (i >= j), #x ">=" #y); } while (0)
    CMP(a, b); CMP(ca, cb); CMP(a, cb); CMP(ca, b);
    // obtained from references and iterators
    if (j < N) {
        bit::bit_reference<W> rj(m[j / d], (std::size_t)(j % d)); IS(&rj, j); VF_CHECK(&rj == b, "address of a reference");
        bit::bit_reference<C> cj(static_cast<C&>(m[j / d]), (std::size_t)(j % d)); CIS(&cj, j); CIS(P<C>(&rj), j);
        IS(&a[n], j); IS(&*(a + n), j); IS(&*bit::bit_iterator<W*>(m + j / d, (std::size_t)(j % d)), j);
        IS(bit::bit_iterator<W*>(m + j / d, (std::size_t)(j % d)).operator->(), j);
        VF_CHECK((bool)a[n] == bit_of(before, j) && (bool)ca[n] == bit_of(before, j) && (bool)*b == bit_of(before, j) && (bool)*cb == bit_of(before, j), "value read");
        auto only = [&](const char* what, ll bit, bool v) { for (ll k = 0; k < N + d; ++k) VF_CHECK(bit_of(store, k) == (k == bit ? v : bit_of(before, k)), "%s: bit %lld", what, k); };
        for (int v = 0; v < 2; ++v) {
            *b = bv(v); only("*p = v", j, v); store = before; m = store.data(); b = P<W>(m + j / d, (std::size_t)(j % d)); a = P<W>(m + i / d, (std::size_t)(i % d));
            a[n] = bv(v); only("p[n] = v", j, v); store = before; m = store.data(); b = P<W>(m + j / d, (std::size_t)(j % d)); a = P<W>(m + i / d, (std::size_t)(i % d));
            b->set(v); only("p->set(v)", j, v); store = before; m = store.data(); b = P<W>(m + j / d, (std::size_t)(j % d)); a = P<W>(m + i / d, (std::size_t)(i % d));
        }
        b->flip(); only("p->flip()", j, !bit_of(before, j)); b->flip(); only("p->flip() twice", j, bit_of(before, j));
    }
    // rebinding leaves the bits alone
    { P<W> t = a; t = b; IS(t, j); IS(b, j); P<C> u = ca; u = cb; CIS(u, j); u = a; CIS(u, i); P<C> w(b); CIS(w, j); VF_CHECK(t == b && w == b, "equal after assignment"); VF_CHECK(store == before, "assigning pointers changed bits"); t = P<W>(a); IS(t, i);
      P<W> self = a; self = *std::addressof(self); IS(self, i); std::swap(t, self); t = a; P<W> x = b; std::swap(t, x); IS(t, j); IS(x, i); VF_CHECK(store == before, "swapping pointers changed bits"); }
    VF_CHECK((bool)a && (bool)b && (bool)ca, "a pointer to a bit converts to true");
}
template <class W> static void pstep_t(int words, ll i) {
    const int d = dig<W>(); const ll N = (ll)words * d; std::vector<W> store = words_of<W>(9, words + 1); W* m = store.data(); typedef const W C; nevals += 8; const std::vector<W> before = store;
    auto go = [&](auto a) { typedef decltype(a) Q; typedef typename Q::word_type X;
        auto idx = [&](Q p) { return pindex<X>(p, m); };
        if (i < N) { Q t = a; Q& r = ++t; VF_CHECK(std::addressof(r) == std::addressof(t) && idx(t) == i + 1, "++ from %lld reaches %lld", i, idx(t)); Q u = a; Q o = u++; VF_CHECK(idx(o) == i && idx(u) == i + 1, "postfix ++"); VF_CHECK(t == u && t - a == 1 && t == a + 1, "after ++"); --t; VF_CHECK(idx(t) == i && t == a, "++ then --"); }
        if (i > 0) { Q t = a; Q& r = --t; VF_CHECK(std::addressof(r) == std::addressof(t) && idx(t) == i - 1, "-- from %lld reaches %lld", i, idx(t)); Q u = a; Q o = u--; VF_CHECK(idx(o) == i && idx(u) == i - 1, "postfix --"); VF_CHECK(t == u && a - t == 1 && t == a - 1, "after --"); ++t; VF_CHECK(idx(t) == i && t == a, "-- then ++"); } };
    go(P<W>(m + i / d, (std::size_t)(i % d))); go(P<C>(static_cast<C*>(m) + i / d, (std::size_t)(i % d)));
    if (i % d == 0) { go(P<W>(m + i / d)); go(P<C>(static_cast<C*>(m) + i / d)); }
    VF_CHECK(store == before, "moving pointers changed bits");
}
// null pointers, however obtained, against bit i
template <class W> static void null_t(int words, ll i) {
    const int d = dig<W>(); std::vector<W> store = words_of<W>(9, words); W* m = store.data(); const std::vector<W> before = store; typedef const W C;
    P<W> bitp(m + i / d, (std::size_t)(i % d)); P<W> assigned = bitp; assigned = nullptr; P<W> copied = bitp; copied = P<W>(nullptr);
    P<W> n[] = {P<W>(), P<W>(nullptr), P<W>(static_cast<W*>(nullptr)), assigned, copied};
    P<C> cassigned = bitp; cassigned = nullptr; P<C> frommut(assigned); P<C> casg = bitp; casg = assigned;
    P<C> c[] = {P<C>(), P<C>(nullptr), P<C>(static_cast<C*>(nullptr)), cassigned, frommut, casg};
    auto chk = [&](auto x, auto y) { ++nevals; VF_CHECK(x == y && !(x != y), "two null pointers are unequal"); VF_CHECK(x <= y && x >= y && !(x < y) && !(x > y), "order of null pointers"); VF_CHECK(!(bool)x, "null converts to true"); };
    for (auto& x : n) { for (auto& y : n) chk(x, y); for (auto& y : c) { chk(x, y); chk(y, x); } VF_CHECK(x != bitp && !(x == bitp) && bitp != x, "null equals a bit's address"); }
    for (auto& x : c) { for (auto& y : c) chk(x, y); VF_CHECK(x != bitp && !(x == bitp) && bitp != x, "null equals a bit's address"); }
    for (auto& x : n) { P<W> t = x; t = bitp; VF_CHECK(t == bitp && pindex(t, m) == i, "rebind from null"); }
    VF_CHECK(store == before, "null pointers changed bits");
}
template <class W> static void pfar_t(ll i, ll e) {
    const int d = dig<W>(); const up base = 1ull << 46; P<W> a(reinterpret_cast<W*>(base), (std::size_t)i); ++nevals; auto b = a + e; const ll sum = i + e; ll q = sum / d, r = sum % d; if (r < 0) { r += d; --q; }
    auto rb = *b; VF_CHECK((ll)((up)rb.address() - base) == q * (ll)sizeof(W) && (ll)rb.position() == r, "jump by %lld", e);
    VF_CHECK(b - a == e && a - b == -e && (a < b) == (e > 0) && (a > b) == (e < 0) && b - e == a, "distance or order over %lld", e);
    auto p = a[e]; VF_CHECK(p.address() == rb.address() && p.position() == rb.position(), "operator[] far");
}
static void ptr(const ll* a) { VF_DISPATCH(a[0], ptr_t, (int)a[1], a[2], a[3]); }
static void pstep(const ll* a) { VF_DISPATCH(a[0], pstep_t, (int)a[1], a[2]); }
static void null(const ll* a) { VF_DISPATCH(a[0], null_t, (int)a[1], a[2]); }
static void pfar(const ll* a) { VF_DISPATCH(a[0], pfar_t, a[1], a[2]); }
VF_REGISTER(ptr); VF_REGISTER(pstep); VF_REGISTER(null); VF_REGISTER(pfar);
void vf::enumerate() {
    for (int W : VF_WORDS) {
        const int words = thorough ? 5 : (W <= 16 ? 4 : W == 32 ? 3 : 3); const ll N = (ll)words * W;
        for (ll i = 0; i <= N; ++i) for (ll j = 0; j <= N; ++j) RUN(ptr, W, words, i, j);
        for (ll i = 0; i <= N; ++i) RUN(pstep, W, words, i);
        for (ll i = 0; i < N; ++i) RUN(null, W, words, i);
        for (ll i = 0; i < W; ++i) for (int k = 3; k < 43; ++k) for (ll x = -3; x <= 3; ++x) for (int sg = -1; sg <= 1; sg += 2) RUN(pfar, W, i, sg * ((1ll << k) + x));
    }
    sample("ptr 8 4 3 20: pointers to bits 3 and 20 of four bytes, all operations between them");
}
#endif

#if VF_PROP == 18
// The state is (words, target bit, operand); every operation is applied to every state.
// Operations with an operand bit o (0/1): effect on a boolean x
enum { OPS = 30 };
template <class W> using R = bit::bit_reference<W>;
// apply operation k to the reference r with operand given as: kind 0 bit_value, 1 reference of the same word type, 2 constant reference, 3 reference of another word type
template <class W, class O> static void assign_op(int k, R<W>& r, O o) {
    switch (k) {
    case 0: { auto& q = (r = o); VF_CHECK(std::addressof(q) == std::addressof(r), "= returns another object"); break; }
    case 1: { auto& q = (r &= o); VF_CHECK(std::addressof(q) == std::addressof(r), "&= returns another object"); break; }
    case 2: { auto& q = (r |= o); VF_CHECK(std::addressof(q) == std::addressof(r), "|= returns another object"); break; }
    case 3: { auto& q = (r ^= o); VF_CHECK(std::addressof(q) == std::addressof(r), "^= returns another object"); break; }
    }
}
static bool assign_model(int k, bool x, bool o) { return k == 0 ? o : k == 1 ? (x && o) : k == 2 ? (x || o) : (x != o); }
template <class W> struct Mem { W w[2]; bool get(int i) const { return w[i / dig<W>()] >> (i % dig<W>()) & 1; } };
template <class W> static Mem<W> content(int i, int pat) {   // all 256 patterns of the byte around bit i, under 3 backgrounds
    Mem<W> m; const int bg = pat >> 8; for (int k = 0; k < 2; ++k) m.w[k] = bg == 0 ? (W)0 : bg == 1 ? (W)~(W)0 : (W)mixc(pat + 31 * i + k);
    const int sh = (i % dig<W>()) / 8 * 8; m.w[i / dig<W>()] = (W)((m.w[i / dig<W>()] & ~((W)0xff << sh)) | ((W)(pat & 255) << sh)); return m;
}
template <class W> static void expect(const Mem<W>& m, const Mem<W>& b, int i, bool v, const char* what, int j = -1, bool vj = false) {
    ++nevals;
    for (int k = 0; k < 2 * dig<W>(); ++k) { bool e = k == i ? v : k == j ? vj : b.get(k); if (m.get(k) != e) fail(fmt("%s: bit %d is %d, expected %d", what, k, m.get(k), e)); }
}
template <class W> static R<W> ref(Mem<W>& m, int i) { return R<W>(m.w[i / dig<W>()], (std::size_t)(i % dig<W>())); }
template <class W> static R<const W> cref(const Mem<W>& m, int i) { return R<const W>(m.w[i / dig<W>()], (std::size_t)(i % dig<W>())); }
template <class W> static void bound(const R<W>& r, const Mem<W>& m, int i, const char* what) { VF_CHECK(r.address() == &m.w[i / dig<W>()] && r.position() == (std::size_t)(i % dig<W>()) && r.mask() == (W)((W)1 << (i % dig<W>())), "%s: the reference is bound to another bit", what); }

template <class W> static void one_t(int i, int pat) {
    const Mem<W> b = content<W>(i, pat); const bool x = b.get(i); Mem<W> m = b;
    { R<W> r = ref(m, i); bound(r, m, i, "construction"); VF_CHECK((bool)r == x, "read"); VF_CHECK((bool)cref(m, i) == x, "constant read"); R<W> c(r); bound(c, m, i, "copy"); R<const W> k(r); VF_CHECK((bool)k == x && k.address() == r.address() && k.position() == r.position(), "conversion to constant");
      if (i % dig<W>() == 0) { R<W> a(m.w[i / dig<W>()]); bound(a, m, i, "aligned construction"); } bit::bit_value v = r; VF_CHECK((bool)v == x, "value of reference"); bit::bit_value u; u = r; VF_CHECK((bool)u == x, "assign reference to value");
      VF_CHECK((bool)~r == !x, "~"); expect(m, b, i, x, "reading"); }
#define DO(expr, res) do { m = b; R<W> r = ref(m, i); auto& q = (expr); VF_CHECK(std::addressof(q) == std::addressof(r), #expr " returns another object"); bound(r, m, i, #expr); expect(m, b, i, (res), #expr); } while (0)
    DO(r.set(), true); DO(r.reset(), false); DO(r.flip(), !x); DO(r.set(true), true); DO(r.set(false), false);
    for (int o = 0; o < 2; ++o) {
        DO(r.assign((W)(0xAA & ~1) | (W)o), (bool)o); DO(r.assign((W)o), (bool)o);
        for (int p = 0; p < dig<W>(); ++p) { const W w = (W)((W)o << p), nw = (W)~(W)((W)(1 - o) << p); DO(r.assign(w, p), (bool)o); DO(r.assign(nw, p), (bool)o); }
        for (int k = 0; k < 4; ++k) { m = b; R<W> r = ref(m, i); assign_op<W>(k, r, bv(o)); bound(r, m, i, "assignment operator"); expect(m, b, i, assign_model(k, x, o), k == 0 ? "= value" : k == 1 ? "&= value" : k == 2 ? "|= value" : "^= value"); }
        { m = b; R<W> r = ref(m, i); bit::bit_value v = bv(o); r.swap(v); VF_CHECK((bool)v == x, "r.swap(v): value"); expect(m, b, i, o, "r.swap(v)"); }
        { m = b; R<W> r = ref(m, i); bit::bit_value v = bv(o); v.swap(r); VF_CHECK((bool)v == x, "v.swap(r): value"); expect(m, b, i, o, "v.swap(r)"); }
        { m = b; bit::bit_value v = bv(o); swap(ref(m, i), v); VF_CHECK((bool)v == x, "swap(r, v): value"); expect(m, b, i, o, "swap(r, v)"); }
        { m = b; bit::bit_value v = bv(o); swap(v, ref(m, i)); VF_CHECK((bool)v == x, "swap(v, r): value"); expect(m, b, i, o, "swap(v, r)"); }
        { m = b; R<W> r = ref(m, i); bit::bit_value v = bv(o); VF_CHECK((r == v) == (x == o) && (r != v) == (x != o) && (r < v) == (x < o) && (r <= v) == (x <= o) && (r > v) == (x > o) && (r >= v) == (x >= o) && (v == r) == (x == o) && (v < r) == (o < x), "comparison");
          VF_CHECK((bool)(r & v) == (x && o) && (bool)(r | v) == (x || o) && (bool)(r ^ v) == (x != o) && (bool)(v & r) == (x && o), "bitwise operators"); expect(m, b, i, x, "operators"); }
    }
    { m = b; std::ostringstream os; os << ref(m, i); VF_CHECK(os.str() == (x ? "1" : "0"), "<< wrote '%s'", os.str().c_str()); expect(m, b, i, x, "<<"); std::istringstream is(os.str()); Mem<W> z = b; R<W> rz = ref(z, i); rz.flip(); is >> rz; VF_CHECK(!is.fail(), ">> failed"); expect(z, b, i, x, ">> of what << wrote"); }
}
// two references: bits i and j of two words (j may equal i)
template <class W, class V> static void two_t(int i, int j, int pat) {
    const Mem<W> b = content<W>(i, pat); Mem<V> c{}; const bool same = std::is_same<W, V>::value; bool x = b.get(i);
    const int jj = j;
    if (!same) c = content<V>(jj, pat ^ (pat >> 3) ^ 0x5a);
    const Mem<V> c0 = c; Mem<W> m = b;
    auto other = [&]() -> R<V> { if constexpr (std::is_same<W, V>::value) return ref(m, jj); else return ref(c, jj); };
    auto cother = [&]() -> R<const V> { if constexpr (std::is_same<W, V>::value) return cref(m, jj); else return cref(c, jj); };
    bool o; if constexpr (std::is_same<W, V>::value) o = b.get(jj); else o = c.get(jj);
    auto check = [&](bool v, bool vo, const char* what) { if (same) { if (i == jj) VF_CHECK(v == vo || true, "-"); expect(m, b, i, v, what, i == jj ? -1 : jj, vo); } else { expect(m, b, i, v, what); expect(c, c0, jj, vo, what); } };
    for (int k = 0; k < 4; ++k) {
        m = b; c = c0; { R<W> r = ref(m, i); R<V> s = other(); assign_op<W>(k, r, s); bound(r, m, i, "assignment from a reference"); VF_CHECK(s.position() == (std::size_t)(jj % dig<V>()), "operand rebound"); check(assign_model(k, x, o), same && i == jj ? assign_model(k, x, o) : o, "assignment operator with reference"); }
        m = b; c = c0; { R<W> r = ref(m, i); assign_op<W>(k, r, cother()); bound(r, m, i, "assignment from a constant reference"); check(assign_model(k, x, o), o, "assignment operator with constant reference"); }
    }
    m = b; c = c0; { R<W> r = ref(m, i); R<V> s = other(); swap(r, s); check(o, x, "swap(r, s)"); }
    m = b; c = c0; { ref(m, i).swap(other()); check(o, x, "r.swap(s)"); }
    if constexpr (std::is_same<W, V>::value) { using std::swap; m = b; auto a = bit::bit_iterator<W*>(m.w) + i, e = bit::bit_iterator<W*>(m.w) + jj; std::iter_swap(a, e); check(o, x, "std::iter_swap"); }
    m = b; c = c0; { R<W> r = ref(m, i); R<V> s = other(); VF_CHECK((r == s) == (x == o) && (r != s) == (x != o) && (r < s) == (x < o) && (r > s) == (x > o) && (r <= s) == (x <= o) && (r >= s) == (x >= o), "comparison of references"); VF_CHECK((bool)(r & s) == (x && o) && (bool)(r | s) == (x || o) && (bool)(r ^ s) == (x != o), "bitwise operators of references"); check(x, o, "operators"); }
    // copy, then change the source: the target keeps the copied bit
    m = b; c = c0; if (!(same && i == jj)) { R<W> r = ref(m, i); R<V> s = other(); r = s; s.flip(); check(o, !o, "r = s; s.flip()"); r.flip(); check(!o, !o, "then r.flip()"); }
}
// all pairs of operations on one reference, against a boolean
template <class W> static void hist_t(int i, int x0, int k1, int k2) {
    Mem<W> b = content<W>(i, x0 ? 0xff : 0x00); b.w[1] = (W)0x3c; Mem<W> m = b; R<W> r = ref(m, i); bool x = b.get(i); bit::bit_value v = bv(x);
    for (int k : {k1, k2}) {
        switch (k) {
        case 0: r.set(); v.set(); x = true; break;       case 1: r.reset(); v.reset(); x = false; break;
        case 2: r.flip(); v.flip(); x = !x; break;       case 3: r.set(true); v.set(true); x = true; break;
        case 4: r.set(false); v.set(false); x = false; break;
        case 5: r = bit::bit1; v = bit::bit1; x = true; break; case 6: r = bit::bit0; v = bit::bit0; x = false; break;
        case 7: r &= bit::bit0; v &= bit::bit0; x = false; break; case 8: r &= bit::bit1; v &= bit::bit1; break;
        case 9: r |= bit::bit0; v |= bit::bit0; break;   case 10: r |= bit::bit1; v |= bit::bit1; x = true; break;
        case 11: r ^= bit::bit1; v ^= bit::bit1; x = !x; break; case 12: r ^= bit::bit0; v ^= bit::bit0; break;
        case 13: r = ~r; v = ~v; x = !x; break;          case 14: { R<W> s(r); r = s; v = r; break; }
        case 15: r ^= r; v ^= v; x = false; break;       case 16: r &= r; r |= r; v &= v; v |= v; break;
        case 17: r.swap(r); swap(r, r); { bit::bit_value u = v; v.swap(u); v.swap(v); } break;
        case 18: r.assign((W)2, 1); v.assign((W)2, 1); x = true; break; case 19: r.assign((W)2); v.assign((W)2); x = false; break;
        }
        bound(r, m, i, "history"); VF_CHECK((bool)v == x, "value history: %d expected %d", (bool)v, x); expect(m, b, i, x, "reference history");
    }
}
// bit values alone
template <class W> static void value_t(int pat) {
    const W w = (W)mixc(pat); nevals += 4; VF_CHECK((bool)bit::bit_value(w) == (w & 1), "construct from word"); VF_CHECK((bool)bit::bit_value() == false, "default value");
    for (int p = 0; p < dig<W>(); ++p) { bool e = w >> p & 1; VF_CHECK((bool)bit::bit_value(w, p) == e, "construct from word and position %d", p); for (int x = 0; x < 2; ++x) { bit::bit_value v = bv(x); auto& q = v.assign(w, p); VF_CHECK(&q == &v && (bool)v == e, "assign(word, %d)", p); v = bv(x); v.assign((W)(w >> p)); VF_CHECK((bool)v == e, "assign(word)"); } }
    for (int x = 0; x < 2; ++x) for (int o = 0; o < 2; ++o) { bit::bit_value a = bv(x), b = bv(o); VF_CHECK((bool)bit::bit_value((bool)x) == x, "bool");
        VF_CHECK((a == b) == (x == o) && (a != b) == (x != o) && (a < b) == (x < o) && (a <= b) == (x <= o) && (a > b) == (x > o) && (a >= b) == (x >= o) && (bool)(a & b) == (x & o) && (bool)(a | b) == (x | o) && (bool)(a ^ b) == (x ^ o) && (bool)~a == !x, "operators of values");
        { auto c = a, d = b; c.swap(d); VF_CHECK((bool)c == o && (bool)d == x, "swap of values"); std::swap(c, d); VF_CHECK((bool)c == x && (bool)d == o, "std::swap of values"); } }
    VF_CHECK((bool)bit::bit1 && (bool)bit::bit_on && !(bool)bit::bit0 && !(bool)bit::bit_off, "constants");
}
// reading text: n characters of an alphabet, from value x; formatted input of one character
template <class C, class X> static void read_one(const std::basic_string<C>& t, bool x, bool skip, X&& get, const char* what) {
    size_t k = 0; if (skip) while (k < t.size() && (t[k] == ' ' || t[k] == '\n' || t[k] == '\t')) ++k;
    bool ok = k < t.size() && (t[k] == '0' || t[k] == '1'), want = ok ? t[k] == '1' : x; ++nevals;
    std::basic_istringstream<C> is(t); if (!skip) is >> std::noskipws;
    bool got = get(is, x);
    VF_CHECK(got == want, "%s: value %d expected %d", what, got, want); VF_CHECK(is.fail() == !ok, "%s: fail state %d", what, is.fail()); VF_CHECK(ok || k < t.size() || is.eof(), "%s: end of text not reported", what);
    if (ok || k < t.size()) { is.clear(); typename std::char_traits<C>::int_type nx = is.get(); size_t at = ok ? k + 1 : k; VF_CHECK(at < t.size() ? nx == std::char_traits<C>::to_int_type(t[at]) : nx == std::char_traits<C>::eof(), "%s: wrong number of characters consumed", what); }
}
static void text(const ll* a) {   // code length word-position
    static const char al[] = "01 2\nx"; std::string s; ll c = a[0]; for (int i = 0; i < a[1]; ++i) { s += al[c % 6]; c /= 6; } std::wstring ws(s.begin(), s.end());
    for (int x = 0; x < 2; ++x) for (int skip = 0; skip < 2; ++skip) {
        read_one<char>(s, x, skip, [](std::istream& is, bool x) { bit::bit_value v = bv(x); is >> v; return (bool)v; }, "value");
        read_one<wchar_t>(ws, x, skip, [](std::wistream& is, bool x) { bit::bit_value v = bv(x); is >> v; return (bool)v; }, "wide value");
        for (int p : {0, 3, 7}) for (int bg = 0; bg < 2; ++bg) {
            auto f = [&](auto& is, bool x) { std::uint8_t w = bg ? 0xff : 0, b; bit::bit_reference<std::uint8_t> r(w, p); r = bv(x); b = w; is >> r; VF_CHECK(((w ^ b) & ~(1 << p)) == 0, "reading a bit changed others"); return (bool)r; };
            read_one<char>(s, x, skip, f, "reference"); read_one<wchar_t>(ws, x, skip, f, "wide reference"); }
    }
    // consecutive extraction equals the characters
    { std::istringstream is(s); bit::bit_value v; std::string got; while (is >> v) got += (bool)v ? '1' : '0'; std::string e; for (char ch : s) { if (ch == '0' || ch == '1') e += ch; else if (ch == ' ' || ch == '\n') continue; else break; } VF_CHECK(got == e, "sequence read '%s' expected '%s'", got.c_str(), e.c_str()); }
    { std::wostringstream os; for (char ch : s) if (ch == '0' || ch == '1') os << bv(ch == '1'); std::wstring e; for (char ch : s) if (ch == '0' || ch == '1') e += (wchar_t)ch; VF_CHECK(os.str() == e, "wide output"); }
    { std::ostringstream os; std::uint16_t w = 0; for (char ch : s) if (ch == '0' || ch == '1') { bit::bit_reference<std::uint16_t> r(w, 9); r = bv(ch == '1'); os << r << bit::bit_value(r); } std::string e; for (char ch : s) if (ch == '0' || ch == '1') { e += ch; e += ch; } VF_CHECK(os.str() == e, "output"); }
}
static void one(const ll* a) { VF_DISPATCH(a[0], one_t, (int)a[1], (int)a[2]); }
template <class W> static void two_d(int V, int i, int j, int p) { switch (V) {
#ifdef VF_WIDE
    case 128: two_t<W, Wide>(i, j, p); break;
#endif
    case 8: two_t<W, std::uint8_t>(i, j, p); break; case 16: two_t<W, std::uint16_t>(i, j, p); break; case 32: two_t<W, std::uint32_t>(i, j, p); break; default: two_t<W, Word64>(i, j, p); } }
static void two(const ll* a) { VF_DISPATCH(a[0], two_d, (int)a[1], (int)a[2], (int)a[3], (int)a[4]); }
static void hist(const ll* a) { VF_DISPATCH(a[0], hist_t, (int)a[1], (int)a[2], (int)a[3], (int)a[4]); }
static void value(const ll* a) { VF_DISPATCH(a[0], value_t, (int)a[1]); }
VF_REGISTER(one); VF_REGISTER(two); VF_REGISTER(hist); VF_REGISTER(value); VF_REGISTER(text);
void vf::enumerate() {
    for (int W : VF_WORDS) {
        for (int i = 0; i < 2 * W; ++i) for (int p = 0; p < 768; ++p) { if (!thorough && W > 8 && p >= 256 && p % 5) continue; RUN(one, W, i, p); }
        for (int V : {8, 16, 32, 64, 128}) if (V < 128 || W == 128) for (int i = 0; i < 2 * W; ++i) for (int j = 0; j < 2 * V; ++j) for (int p : {0x00, 0x1ff, 0x2a5, 0x25a}) { if (!thorough && (V != W || W == 128) && (i % 3 != j % 3)) continue; if (W == 128 && V == 128 && !thorough && (i + j) % 5) continue; RUN(two, W, V, i, j, p); }
        for (int i = 0; i < W; ++i) for (int x = 0; x < 2; ++x) for (int k = 0; k < 20; ++k) for (int l = 0; l < 20; ++l) RUN(hist, W, i, x, k, l);
        for (int p = 0; p < 256; ++p) RUN(value, W, p);
    }
    for (int n = 0, c = 1; n <= (thorough ? 6 : 4); ++n, c *= 6) for (int k = 0; k < c; ++k) RUN(text, k, n);
    sample("one 16 9 165: every operation on bit 9 of a 16-bit word whose second byte is 10100101, against one boolean");
}
#endif
VF_MAIN
