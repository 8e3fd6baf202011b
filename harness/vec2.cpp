// C20 constructors, C26 text form.
#include "vecmodel.hpp"
#include <deque>
#include <utility>

template <class W> using V_ = bit::bit_vector<W>;
#if VF_PROP == 20
template <class W> static void same(const V_<W>& v, const Seq& s, const char* what) {
    ++nevals;
    VF_CHECK(v.size() == (std::size_t)s.n && v.empty() == !s.n, "%s: size %llu expected %d", what, (ull)v.size(), s.n);
    int i = 0; for (auto it = v.begin(); i < s.n; ++it, ++i) if ((bool)*it != (bool)s.b[i]) fail(fmt("%s: bit %d is %d; expected %s", what, i, (int)(bool)*it, show(s).c_str()));
    VF_CHECK(v.end() - v.begin() == s.n && v.capacity() >= v.size(), "%s: extent", what);
}
// build with constructor `which` from the bits of s (source words at offset off), into *p
template <class W, std::size_t... I> static void list_bool(void* p, const Seq& s, std::index_sequence<I...>) { new (p) V_<W>(std::initializer_list<bool>{(bool)s.b[I]...}); }
template <class W, std::size_t... I> static void list_bit(void* p, const Seq& s, std::index_sequence<I...>) { new (p) V_<W>(std::initializer_list<bit::bit_value>{bit::bit_value((bool)s.b[I])...}); }
template <class W, std::size_t... I> static void list_word(void* p, const std::vector<W>& w, std::index_sequence<I...>) { new (p) V_<W>(std::initializer_list<W>{w[I]...}); }
template <std::size_t N, class F> static bool nth(int n, F f) { if ((int)N == n) { f(std::make_index_sequence<N>()); return true; } if constexpr (N > 0) return nth<N - 1>(n, f); return false; }
enum { COUNT, COUNTV, BITS, CBITS, PBITS, CPBITS, BOOLP, VBOOL, DBOOL, CBOOLP, WORDP, WORDV, CWORDP, LBOOL, LBIT, LWORD, TEXT, COPY, MOVE, COPYA, MOVEA, DFLT, ALLOC, NCTOR };
static const char* cname[] = {"(count)", "(count, value)", "(bit range)", "(constant bit range)", "(bit range over pointers)", "(bit range over constant pointers)", "(bool pointers)", "(vector<bool> range)", "(deque<bool> range)", "(constant bool pointers)", "(word pointers)", "(word range)", "(constant word pointers)", "{bools}", "{bits}", "{words}", "(text)", "(copy)", "(move)", "(copy, allocator)", "(move, allocator)", "()", "(allocator)"};
// false if the constructor cannot express s
template <class W> static bool build(void* p, int which, const Seq& s, int off) {
    typedef V_<W> V; const int d = dig<W>(), n = s.n; std::vector<W> w((n + off + d - 1) / d + 1, (W)mixc(n + off)); auto set = [&](int i, bool b) { w[i / d] = (W)((w[i / d] & ~((W)1 << (i % d))) | ((W)b << (i % d))); }; for (int i = 0; i < n; ++i) set(off + i, s.b[i]);
    std::vector<unsigned char> bools(s.b, s.b + n); bools.push_back(0); bool* bp = reinterpret_cast<bool*>(bools.data());
    bool uniform = true; for (int i = 1; i < n; ++i) uniform &= s.b[i] == s.b[0]; const W* cw = w.data();
    auto seqv = [&] { V v; for (int i = 0; i < n; ++i) v.push_back(bv(s.b[i])); return v; };
    switch (which) {
    case COUNT: if (!uniform || (n && s.b[0]) || off) return false; new (p) V((std::size_t)n); return true;
    case COUNTV: if (!uniform || off) return false; new (p) V((std::size_t)n, bv(n && s.b[0])); return true;
    case BITS: { bit::bit_iterator<typename std::vector<W>::iterator> b(w.begin()); new (p) V(b + off, b + off + n); return true; }
    case CBITS: { bit::bit_iterator<typename std::vector<W>::const_iterator> b(w.cbegin()); new (p) V(b + off, b + off + n); return true; }
    case PBITS: { bit::bit_iterator<W*> b(w.data()); new (p) V(b + off, b + off + n); return true; }
    case CPBITS: { bit::bit_iterator<const W*> b(cw); new (p) V(b + off, b + off + n); return true; }
    case BOOLP: if (off) return false; new (p) V(bp, bp + n); return true;
    case CBOOLP: if (off) return false; new (p) V((const bool*)bp, (const bool*)bp + n); return true;
    case VBOOL: { std::vector<bool> v(off, true); v.insert(v.end(), bp, bp + n); v.push_back(1); new (p) V(v.begin() + off, v.begin() + off + n); return true; }
    case DBOOL: { if (off > 3) return false; std::deque<bool> v(off, true); v.insert(v.end(), bp, bp + n); v.push_back(1); new (p) V(v.begin() + off, v.begin() + off + n); return true; }
    case WORDP: if (off || n % d) return false; new (p) V(w.data(), w.data() + n / d); return true;
    case CWORDP: if (off || n % d) return false; new (p) V(cw, cw + n / d); return true;
    case WORDV: if (off || n % d) return false; new (p) V(w.begin(), w.begin() + n / d); return true;
    case LBOOL: return !off && n <= 70 && nth<70>(n, [&](auto q) { list_bool<W>(p, s, q); });
    case LBIT: return !off && n <= 70 && nth<70>(n, [&](auto q) { list_bit<W>(p, s, q); });
    case LWORD: return !off && n % d == 0 && nth<6>(n / d, [&](auto q) { list_word<W>(p, w, q); });
    case TEXT: { std::string t; static const char* sep[] = {"", " ", ".", "x", "_ ", "2", "\n", "-+"}; const char* e = sep[off % 8]; t += e; for (int i = 0; i < n; ++i) { t += s.b[i] ? '1' : '0'; if (off >= 8 ? i % (off - 6) == 0 : true) t += e; } new (p) V(std::string_view(t)); return true; }
    case COPY: if (off) return false; { V v = seqv(); new (p) V(v); return true; }
    case MOVE: if (off) return false; { V v = seqv(); new (p) V(std::move(v)); return true; }
    case COPYA: if (off) return false; { V v = seqv(); new (p) V(v, std::allocator<W>()); return true; }
    case MOVEA: if (off) return false; { V v = seqv(); new (p) V(std::move(v), std::allocator<W>()); return true; }
    case DFLT: if (off || n) return false; new (p) V(); return true;
    case ALLOC: if (off || n) return false; new (p) V(std::allocator<W>()); return true;
    }
    return false;
}
// all contents of n <= 10 bits or the coded contents: word which n off content (-1: all of them)
template <class W, class F> static void each(int n, F f) { Seq s; if (n <= (dig<W>() == 8 ? 10 : 8)) for (int c = 0; c < (1 << n); ++c) { s.n = n; for (int i = 0; i < n; ++i) s.b[i] = c >> i & 1; f(s); } else { for (int p = 0; p < npat(n) + 2; ++p) { content(s, n, p < npat(n) ? p : p - npat(n) + 17); f(s); } } }
template <class W> static void ctor_t(const ll* a) {
    const int which = (int)a[1], n = (int)a[2], off = (int)a[3]; alignas(64) static unsigned char st[sizeof(V_<W>)];
    each<W>(n, [&](const Seq& s) { memset(st, 0xEE, sizeof st); if (!build<W>(st, which, s, off)) return; V_<W>& v = *std::launder(reinterpret_cast<V_<W>*>(st));
        try { same(v, s, cname[which]); V_<W> c(v); same(c, s, "copy of it"); v.~V_<W>(); same(c, s, "copy after the original is gone"); } catch (const Fail& f) { fail(fmt("from %s offset %d :: ", show(s).c_str(), off) + f.msg); } });
}
// one operation on the result: word which n off op...
template <class W> static void then_t(const ll* a) {
    typedef V_<W> V; const int which = (int)a[1], n = (int)a[2], off = (int)a[3]; const Op o{(int)a[4], (int)a[5], (int)a[6], (int)a[7]}; alignas(64) static unsigned char st[sizeof(V)]; (void)sources<W>();
    for (int p : {0, 1, 5, 17}) { Seq s; content(s, n, p); if (!build<W>(st, which, s, off)) continue; V& v = *std::launder(reinterpret_cast<V*>(st)); Seq e = s; const ll wr = step_model(e, o, dig<W>()); memset(arena::meta.size, 0, sizeof arena::meta.size);
        { // run on a twin whose memory is watched
            ll gr; { gr = step_real(v, o); } arena::on = false;
            if (wr != gr) fail(fmt("%s from %s then %s: returned %lld expected %lld", cname[which], show(s).c_str(), show(o).c_str(), gr, wr)); same(v, e, "after one operation"); v.~V(); } }
}
template <class W> static void text_t(const ll* a) {   // every text over {0,1,space,x} of a length
    const int n = (int)a[1]; static const char al[] = "01 x"; std::string t(n, '0'); ll c = a[2]; for (int i = 0; i < n; ++i) { t[i] = al[c & 3]; c >>= 2; } Seq s; for (char ch : t) if (ch == '0' || ch == '1') s.b[s.n++] = ch == '1';
    V_<W> v{std::string_view(t)}; same(v, s, "text"); V_<W> w(std::string_view(t.data(), t.size())); same(w, s, "text view"); v.push_back(bit::bit1); s.b[s.n++] = 1; same(v, s, "text, then push_back"); v.resize(s.n + 9); for (int i = 0; i < 9; ++i) s.b[s.n++] = 0; same(v, s, "text, then resize");
}
static void ctor(const ll* a) { VF_DISPATCH(a[0], ctor_t, a); }
static void then(const ll* a) { VF_DISPATCH(a[0], then_t, a); }
static void text(const ll* a) { VF_DISPATCH(a[0], text_t, a); }
VF_REGISTER(ctor); VF_REGISTER(then); VF_REGISTER(text);
void vf::enumerate() {
    for (int W : VF_WORDS) {
        const int N = thorough ? 4 * W + 2 : W <= 16 ? 3 * W + 2 : 2 * W + 2;
        for (int k = 0; k < NCTOR; ++k) for (int n = 0; n <= N; ++n) for (int off = 0; off < W + 2; ++off) { if (off && !((k >= BITS && k <= CPBITS) || k == VBOOL || k == DBOOL || k == TEXT)) continue; if (k == VBOOL && off > 9) continue; if (k == TEXT && off > 16) continue; if (!thorough && W >= 32 && n > 4 && (n + off) % 3 && n % W > 1 && n % W < W - 1) continue; RUN(ctor, W, k, n, off); }
        for (int k = 0; k < NCTOR; ++k) for (int n = 0; n <= (W <= 16 ? 2 * W + 1 : W + 2); ++n) { const int r = n % W; if (!(r <= 1 || r >= W - 1 || r == W / 2 || n < 4)) continue;
            const int off = (k >= BITS && k <= CPBITS) ? (n * 5 + k) % W : k == TEXT ? n % 8 : 0;
            for (auto& o : alphabet(n, n + W + 2, W, false)) RUN(then, W, k, n, off, o.k, o.a, o.b, o.c); }
        for (int n = 0; n <= (W == 8 ? (thorough ? 10 : 8) : 6); ++n) for (ll c = 0; c < (1ll << (2 * n)); ++c) RUN(text, W, n, c);
    }
    sample("ctor 16 2 37 11: construction from the 37 bits at offset 11 of 16-bit words, coded contents");
    sample("text 8 8 *: all texts of 8 characters over 0, 1, blank and x");
}
#endif

#if VF_PROP == 26
static std::string oracle(const Seq& s, int f, int l, int d) { std::string r; for (int i = f; i < l; ++i) { const int k = i - f; if (k && k % d == 0) r += ' '; else if (k && k % 8 == 0) r += '.'; r += s.b[i] ? '1' : '0'; } return r; }
template <class W> static void one(V_<W>& v, const Seq& s, bool sub) {
    const V_<W>& c = v; const int d = dig<W>(); ++nevals; const std::string e = oracle(s, 0, s.n, d);
    VF_CHECK(v.debug_string() == e && c.debug_string() == e, "text form of %s is '%s'", show(s).c_str(), v.debug_string().c_str());
    VF_CHECK(c.debug_string(c.cbegin(), c.cend()) == e && v.debug_string(v.begin(), v.end()) == e, "text form of the whole range");
    V_<W> b{std::string_view(e)}; VF_CHECK(b.size() == v.size(), "reading back: size %llu expected %d", (ull)b.size(), s.n); for (int i = 0; i < s.n; ++i) VF_CHECK((bool)b[i] == (bool)s.b[i], "reading back: bit %d", i);
    VF_CHECK(b.debug_string() == e, "text of the vector read back");
    if (sub) for (int f = 0; f <= s.n; ++f) for (int l = f; l <= s.n; ++l) { ++nevals; std::string t = c.debug_string(c.cbegin() + f, c.cbegin() + l), x = oracle(s, f, l, d); VF_CHECK(t == x, "text form of bits [%d,%d) of %s is '%s', expected '%s'", f, l, show(s).c_str(), t.c_str(), x.c_str()); V_<W> z{std::string_view(t)}; VF_CHECK(z.size() == (std::size_t)(l - f), "reading back a part: size"); for (int i = f; i < l; ++i) VF_CHECK((bool)z[i - f] == (bool)s.b[i], "reading back a part: bit %d", i); }
    VF_CHECK(v.size() == (std::size_t)s.n, "size"); for (int i = 0; i < s.n; ++i) VF_CHECK((bool)c[i] == (bool)s.b[i], "the vector changed");
}
// word n how content-block
template <class W> static void form_t(const ll* a) {
    const int n = (int)a[1]; Seq s; auto go = [&](bool sub) { V_<W> v; memset(arena::meta.size, 0, sizeof arena::meta.size); { Seq t = s; make(v, t, (int)a[2]); } one(v, s, sub); { arena::Scope t; v = V_<W>(); } };
    if (a[3] >= 0) { for (ll c = a[3] << 6; c < (a[3] + 1) << 6 && c < (1ll << n); ++c) { s.n = n; for (int i = 0; i < n; ++i) s.b[i] = c >> i & 1; go(n <= 9); } }
    else for (int p = 0; p < npat(n) + 2; ++p) { content(s, n, p < npat(n) ? p : p - npat(n) + 17); go((n <= 80 && p == npat(n)) || thorough && n < 140 && p % 3 == 1); }
}
static void form(const ll* a) { VF_DISPATCH(a[0], form_t, a); }
VF_REGISTER(form);
void vf::enumerate() {
    for (int W : VF_WORDS) {
        for (int n = 0; n <= (thorough ? 18 : 14); ++n) for (ll c = 0; c < std::max<ll>(1, (1ll << n) >> 6); ++c) for (int how = 0; how < 6; ++how) { if (n > 9 && how != (int)(c % 6)) continue; RUN(form, W, n, how, c); }
        for (int n = 0; n <= 3 * W + 2; ++n) for (int how = 0; how < 6; ++how) RUN(form, W, n, how, -1);
    }
    sample("form 16 40 2 -1: text of 40 bits in 16-bit words after a shrinking resize, all sub-ranges, coded contents, read back");
}
#endif
VF_MAIN
