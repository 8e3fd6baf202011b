// C29: word-level building blocks against their definitions, bit by bit.
#include "vf.hpp"
#include <bitlib/bitlib.hpp>
#include <deque>
#include <list>
#include <tuple>
#include <utility>
using namespace vf;
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
#ifdef VF_U128
typedef unsigned __int128 big;
#else
typedef u64 big;
#endif
typedef unsigned __int128 wide;
template <class T> constexpr int D = sizeof(T) * 8;
template <class T> static std::string hex(T v) { std::string s; for (int i = (int)sizeof(T) - 1; i >= 0; --i) s += fmt("%02x", (unsigned)(v >> (8 * i)) & 255); return "0x" + s; }
template <class T> static inline bool bit_of(T v, int i) { return (v >> i) & 1; }
template <class T> static inline T low(int n) { return n >= D<T> ? (T)~(T)0 : (T)(((T)1 << n) - 1); }

// operands: every value of 8 bits; otherwise every run of ones and its complement, byte ramps, alternations and pseudo-random values
template <class T> static const std::vector<T>& ops(int rich) {
    static std::vector<T> s[3]; auto& o = s[rich]; if (!o.empty()) return o;
    if (sizeof(T) == 1) { for (int i = 0; i < 256; ++i) o.push_back((T)i); return o; }
    if (sizeof(T) == 2 && rich == 2) { for (int i = 0; i < 65536; ++i) o.push_back((T)i); return o; }
    const int d = D<T>, st = rich ? 1 : d / 16;
    for (int i = 0; i < d; i += st) for (int j = i; j <= d; j += st) { T r = (T)(low<T>(j) & ~low<T>(i)); o.push_back(r); if (rich) o.push_back((T)~r); }
    for (int k = 1; k < d; k *= 2) { T a = 0; for (int i = 0; i < d; ++i) if (i / k % 2) a |= (T)1 << i; o.push_back(a); o.push_back((T)~a); }
    for (int i = 0; i < d; i += 1) { o.push_back((T)((T)1 << i)); o.push_back((T)~((T)1 << i)); if (i) { o.push_back((T)(((T)1 << i) - 1)); o.push_back((T)(((T)1 << i) + 1)); } }
    T ramp = 0; for (int i = 0; i < (int)sizeof(T); ++i) ramp |= (T)(i + 1) << (8 * i); o.push_back(ramp); o.push_back((T)~ramp);
    for (int i = 0; i < (rich ? 200 : 24); ++i) { T r = (T)mixc(i); if (sizeof(T) > 8) r = (T)((wide)r << 63 << 1 | mixc(i + 1000)); o.push_back(r); T t = (T)mixc(i + 500); if (sizeof(T) > 8) t = (T)((wide)t << 64); o.push_back((T)(r & t)); }
    return o;
}
#define EQ(T, got, want, what, ...) do { ++nevals; T g_ = (T)(got), w_ = (T)(want); if (g_ != w_) fail(fmt(what " is %s, expected %s", ##__VA_ARGS__, hex<T>(g_).c_str(), hex<T>(w_).c_str())); } while (0)
#define H(x) hex(x).c_str()

// ---- functions of one word -------------------------------------------------
template <class T> static T def_pop(T v) { int n = 0; for (int i = 0; i < D<T>; ++i) n += bit_of(v, i); return (T)n; }
template <class T> static void one(T v) {
    int pop = 0, lz = 0, tz = 0; T bytes = 0, bits = 0;
    for (int i = 0; i < D<T>; ++i) { pop += bit_of(v, i); if (bit_of(v, i)) bits |= (T)1 << (D<T> - 1 - i); }
    while (lz < D<T> && !bit_of(v, D<T> - 1 - lz)) ++lz;
    while (tz < D<T> && !bit_of(v, tz)) ++tz;
    for (int i = 0; i < (int)sizeof(T); ++i) bytes |= (T)((v >> (8 * i)) & 255) << (8 * ((int)sizeof(T) - 1 - i));
#ifndef NO_popcnt
    EQ(T, bit::_popcnt(v), pop, "population count of %s", H(v));
#endif
#ifndef NO_popcnt
    EQ(T, bit::_popcnt(v, std::ignore), pop, "portable population count of %s", H(v));
#endif
#ifndef NO_popcnt
    EQ(T, bit::_popcnt<T>(v), pop, "population count<> of %s", H(v));
#endif
#ifndef NO_lzcnt
    EQ(T, bit::_lzcnt(v), lz, "leading zeros of %s", H(v));
#endif
#ifndef NO_lzcnt
    EQ(T, bit::_lzcnt(v, std::ignore), lz, "portable leading zeros of %s", H(v));
#endif
#ifndef NO_tzcnt
    EQ(T, bit::_tzcnt(v), tz, "trailing zeros of %s", H(v));
#endif
#ifndef NO_tzcnt
    EQ(T, bit::_tzcnt(v, std::ignore), tz, "portable trailing zeros of %s", H(v));
#endif
#ifndef NO_byteswap
    EQ(T, bit::_byteswap(v), bytes, "byte reversal of %s", H(v));
#endif
#ifndef NO_byteswap
    EQ(T, bit::_byteswap(v, std::ignore), bytes, "portable byte reversal of %s", H(v));
#endif
#ifndef NO_bitswap
    EQ(T, bit::_bitswap(v), bits, "bit reversal of %s", H(v));
#endif
#ifndef NO_bitswap
    EQ(T, bit::_bitswap<T>(v), bits, "bit reversal<> of %s", H(v));
#endif
    counters()["unary operands"]++;
}
// one operand, every position and length: field extraction
template <class T> static void field(T v) {
    const int top = sizeof(T) == 1 ? 255 : D<T> + 1;
    for (int s = 0; s <= D<T>; ++s) for (int l = 0; l <= (s < D<T> ? top : D<T>); ++l) {
        if (sizeof(T) > 1 && l > D<T>) continue;
        T want = s >= D<T> ? (T)0 : (T)((T)(v >> s) & low<T>(l));
#ifndef NO_bextr
        EQ(T, bit::_bextr(v, (T)s, (T)l), want, "field of %s at %d, %d bits", H(v), s, l);
#endif
#ifndef NO_bextr
        EQ(T, bit::_bextr(v, (T)s, (T)l, std::ignore), want, "portable field of %s at %d, %d bits", H(v), s, l);
#endif
    }
}
// two operands
template <class T> static void two(T a, T b) {
    T dep = 0, ext = 0; int k = 0;
    for (int i = 0; i < D<T>; ++i) if (bit_of(b, i)) { if (bit_of(a, k)) dep |= (T)1 << i; if (bit_of(a, i)) ext |= (T)1 << k; ++k; }
#ifndef NO_pdep
    EQ(T, bit::_pdep(a, b), dep, "deposit of %s to %s", H(a), H(b));
#endif
#ifndef NO_pdep
    EQ(T, bit::_pdep(a, b, std::ignore), dep, "portable deposit of %s to %s", H(a), H(b));
#endif
#ifndef NO_pext
    EQ(T, bit::_pext(a, b), ext, "extract of %s by %s", H(a), H(b));
#endif
#ifndef NO_pext
    EQ(T, bit::_pext(a, b, std::ignore), ext, "portable extract of %s by %s", H(a), H(b));
#endif
    // product, schoolbook in halves
    constexpr int h = D<T> / 2; T lo = 0, hi = 0;
    { T a0 = a & low<T>(h), a1 = a >> h, b0 = b & low<T>(h), b1 = b >> h;
      // column sums of half words, each below 4 * 2^h: keep them as (carry, half)
      T p00 = (T)((wide)a0 * b0), p01 = (T)((wide)a0 * b1), p10 = (T)((wide)a1 * b0), p11 = (T)((wide)a1 * b1);
      T c1 = (T)((T)(p00 >> h) + (T)(p01 & low<T>(h))); T carry = c1 >> h; c1 = (T)((T)(c1 & low<T>(h)) + (T)(p10 & low<T>(h))); carry = (T)(carry + (c1 >> h));
      lo = (T)((T)(p00 & low<T>(h)) | (T)((T)(c1 & low<T>(h)) << h));
      hi = (T)(p11 + (T)(p01 >> h) + (T)(p10 >> h) + carry); }
#ifndef NO_mulx
    T g = 0x5a; T r = bit::_mulx(a, b, &g);
    EQ(T, r, lo, "low half of %s * %s", H(a), H(b)); EQ(T, g, hi, "high half of %s * %s", H(a), H(b));
    g = 0x5a; r = bit::_mulx(a, b, &g, std::ignore);
    EQ(T, r, lo, "low half (portable) of %s * %s", H(a), H(b)); EQ(T, g, hi, "high half (portable) of %s * %s", H(a), H(b));
#endif
    for (int c = 0; c < 2; ++c) {
        // sum and difference bit by bit would be slow: compare through halves
        T s = (T)(a + b); bool co = s < a; T s2 = (T)(s + (T)c); co |= s2 < s;
        T d = (T)(a - b); bool bo = a < b; T d2 = (T)(d - (T)c); bo |= d < (T)c;
        auto carries = [&](auto kind, int cin) {
            typedef decltype(kind) C; T out = 0x33; const C ci = (C)cin;
            C x;
#ifndef NO_addcarry
            x = bit::_addcarry(ci, a, b, &out); EQ(T, out, s2, "sum %s + %s + %d", H(a), H(b), c); VF_CHECK((bool)x == co, "carry of %s + %s + %d is %d", H(a), H(b), c, (int)(bool)x);
#endif
#ifndef NO_addcarry
            out = 0x33; x = bit::_addcarry(ci, a, b, &out, std::ignore); EQ(T, out, s2, "portable sum %s + %s + %d", H(a), H(b), c); VF_CHECK((bool)x == co, "portable carry of %s + %s + %d is %d", H(a), H(b), c, (int)(bool)x);
#endif
#ifndef NO_subborrow
            out = 0x33; x = bit::_subborrow(ci, a, b, &out); EQ(T, out, d2, "difference %s - %s - %d", H(a), H(b), c); VF_CHECK((bool)x == bo, "borrow of %s - %s - %d is %d", H(a), H(b), c, (int)(bool)x);
#endif
#ifndef NO_subborrow
            out = 0x33; x = bit::_subborrow(ci, a, b, &out, std::ignore); EQ(T, out, d2, "portable difference %s - %s - %d", H(a), H(b), c); VF_CHECK((bool)x == bo, "portable borrow of %s - %s - %d is %d", H(a), H(b), c, (int)(bool)x);
#endif
            // result written over an operand's storage
#ifndef NO_addcarry
            T x0 = a; bit::_addcarry(ci, x0, b, &x0); EQ(T, x0, s2, "sum in place %s + %s + %d", H(a), H(b), c);
#endif
        };
        carries((unsigned char)0, c); carries(false, c); carries(0u, c);
    }
    counters()["operand pairs"]++;
}
// two operands with positions
template <class T> static void shifts(T a, T b) {
    for (int n = 0; n <= 2 * D<T> && n <= (sizeof(T) == 1 ? 255 : 2 * D<T>); ++n) {
        T l, r;
        if (n == 0) { l = r = a; }
        else if (n < D<T>) { l = (T)((T)(a << n) | (T)(b >> (D<T> - n))); r = (T)((T)(a >> n) | (T)(b << (D<T> - n))); }
        else if (n < 2 * D<T>) { l = (T)(b << (n - D<T>)); r = (T)(b >> (n - D<T>)); }
        else l = r = 0;
#ifndef NO_shld
        EQ(T, bit::_shld(a, b, (T)n), l, "double shift left of %s, %s by %d", H(a), H(b), n);
#endif
#ifndef NO_shrd
        EQ(T, bit::_shrd(a, b, (T)n), r, "double shift right of %s, %s by %d", H(a), H(b), n);
#endif
    }
}
template <class T, class S> static void exch_len(T a, T b, int s, int l) {
    const T m = (T)(low<T>(l) << s), ea = (T)((a & ~m) | (b & m)), eb = (T)((b & ~m) | (a & m));
#ifndef NO_bitexch
    T x = a, y = b; bit::_bitexch(x, y, (S)s, (S)l); EQ(T, x, ea, "exchange at %d, %d bits: first of %s, %s", s, l, H(a), H(b)); EQ(T, y, eb, "exchange at %d, %d bits: second of %s, %s", s, l, H(a), H(b));
#endif
}
template <class T, class S> static void exch_pos(T a, T b, int s0, int s1, int l) {
    const T f0 = (T)((a >> s0) & low<T>(l)), f1 = (T)((b >> s1) & low<T>(l));
    const T ea = (T)((a & ~(T)(low<T>(l) << s0)) | (T)(f1 << s0)), eb = (T)((b & ~(T)(low<T>(l) << s1)) | (T)(f0 << s1));
#ifndef NO_bitexch
    T x = a, y = b; bit::_bitexch(x, y, (S)s0, (S)s1, (S)l);
    EQ(T, x, ea, "exchange of %d bits at %d and %d: first of %s, %s", l, s0, s1, H(a), H(b)); EQ(T, y, eb, "exchange of %d bits at %d and %d: second of %s, %s", l, s0, s1, H(a), H(b));
#endif
}
template <class T> static void fields(T a, T b) {
    for (int s = 0; s <= D<T>; ++s) for (int l = 0; l <= D<T> - s || l == D<T>; ++l) {
        const T m = s < D<T> ? (T)(low<T>(l) << s) : (T)0;
#ifndef NO_bitblend
        EQ(T, bit::_bitblend(a, b, (T)s, (T)l), (T)((a & ~m) | (b & m)), "blend of %s, %s at %d, %d bits", H(a), H(b), s, l);
#endif
#ifndef NO_bitblend
        EQ(T, bit::_bitblend<T>(a, b, (T)s, (T)l), (T)((a & ~m) | (b & m)), "blend<> of %s, %s at %d, %d bits", H(a), H(b), s, l);
#endif
        if (s < D<T> && l <= D<T> - s) { exch_len<T, std::size_t>(a, b, s, l); exch_len<T, int>(a, b, s, l); exch_len<T, T>(a, b, s, l); }
        if (l >= D<T> - s) break;
    }
}
template <class T> static void positions(T a, T b) {
#ifndef NO_bitcmp
    T same = bit::_bitcmp(a, a, (T)0, (T)0, (T)D<T>);
#endif
    for (int s0 = 0; s0 < D<T>; ++s0) for (int s1 = 0; s1 < D<T>; ++s1) {
        const int top = D<T> - std::max(s0, s1);
        for (int l = 0; l <= top; l = (D<T> <= 16 || l < 3 || l >= top - 2) ? l + 1 : std::min(l + 7, top - 2)) {
            exch_pos<T, std::size_t>(a, b, s0, s1, l); if (D<T> <= 16 || !l) exch_pos<T, T>(a, b, s0, s1, l);
            const bool e = ((a >> s0) & low<T>(l)) == ((b >> s1) & low<T>(l)); ++nevals;
#ifndef NO_bitcmp
            if (!e || (l && l <= D<T>)) VF_CHECK((bit::_bitcmp(a, b, (T)s0, (T)s1, (T)l) == same) == e, "comparison of %d bits of %s at %d with %s at %d does not tell equal from different", l, H(a), s0, H(b), s1);
#endif
        }
    }
}
template <class T> static void masks(T a, T b, T m) {
    const T ea = (T)((a & ~m) | (b & m)), eb = (T)((b & ~m) | (a & m));
#ifndef NO_bitblend
    EQ(T, bit::_bitblend(a, b, m), ea, "blend of %s, %s by %s", H(a), H(b), H(m));
#endif
#ifndef NO_bitexch
    T x = a, y = b; bit::_bitexch(x, y, m); EQ(T, x, ea, "exchange by %s: first of %s, %s", H(m), H(a), H(b)); EQ(T, y, eb, "exchange by %s: second of %s, %s", H(m), H(a), H(b));
#endif
}

#define WT(w, F, ...) do { if ((w) == 8) F<u8>(__VA_ARGS__); else if ((w) == 16) F<u16>(__VA_ARGS__); else if ((w) == 32) F<u32>(__VA_ARGS__); else if ((w) == 64) F<u64>(__VA_ARGS__); else F<big>(__VA_ARGS__); } while (0)
// case: word width, kind, block of the first operand
template <class T> static void block(int kind, int blk, int of) {
    auto each = [&](int rich, auto f) { auto& o = ops<T>(rich); for (std::size_t i = blk; i < o.size(); i += of) { f(o[i], i); tick(); } };
    switch (kind) {
    case 0: each(2, [](T v, std::size_t) { one(v); });
            if (sizeof(T) == 4) for (u64 v = blk; v < (1ull << 32); v += of * (thorough ? 1 : 61)) { one((T)v); if (!(v & 4095)) tick(); } break;
    case 1: each(sizeof(T) > 2 && !thorough ? 0 : 1, [](T v, std::size_t) { field(v); }); break;
    case 2: each(thorough && sizeof(T) == 2 ? 2 : sizeof(T) > 8 && !thorough ? 0 : 1, [](T v, std::size_t) { for (T y : ops<T>(sizeof(T) == 2 ? 2 : sizeof(T) > 8 && !thorough ? 0 : 1)) { two(v, y); if (sizeof(T) == 2 && !thorough) two(y, v); } }); break;
    case 3: each(sizeof(T) <= 2 ? 1 : 0, [](T v, std::size_t) { for (T y : ops<T>(sizeof(T) <= 2 ? 1 : 0)) shifts(v, y); }); break;
    case 4: each(0, [](T v, std::size_t i) { auto& o = ops<T>(0); const int st = sizeof(T) == 1 ? 1 : sizeof(T) > 8 ? 61 : thorough ? 1 : 7; for (std::size_t j = (i * 7 + 3) % st; j < o.size(); j += st) fields(v, o[j]); fields(v, (T)~v); }); break;
    case 5: each(0, [](T v, std::size_t i) { auto& o = ops<T>(0); const int st = sizeof(T) == 1 ? 1 : sizeof(T) > 8 ? 997 : thorough ? 7 : 61; for (std::size_t j = (i * 7 + 3) % st; j < o.size(); j += st) positions(v, o[j]); positions(v, (T)~v); positions(v, v); }); break;
    case 6: each(0, [](T v, std::size_t i) { auto& o = ops<T>(0); const int st = sizeof(T) == 1 ? 1 : sizeof(T) > 8 ? 61 : thorough ? 5 : 17; for (std::size_t j = i % st; j < o.size(); j += st) for (T m : ops<T>(1)) masks(v, o[j], m); }); break;
    }
}
static void op_block(const ll* a) { WT(a[0], block, (int)a[1], (int)a[2], (int)a[3]); }
VF_REGISTER(op_block);

// ---- words at any bit position of a sequence --------------------------------
// read len <= digits(T) bits at bit p of a sequence of W; read with padding; write len bits; distance comparisons
template <class W, class It> static void seq_case(It first, std::vector<W>& mem, int p, int len, u64 val) {
    const int d = D<W>; bit::bit_iterator<It> b(first);
    auto bitm = [&](int i) { return bit_of(mem[i / d], i % d); };
#ifndef NO_get_word
    auto got = bit::get_word<W>(b + p, (std::size_t)len); ++nevals;
    for (int i = 0; i < len; ++i) VF_CHECK(bit_of(got, i) == bitm(p + i), "word of %d bits read at bit %d: bit %d is %d", len, p, i, (int)bit_of(got, i));
#endif
    std::vector<W> before(mem);
#ifndef NO_write_word
    bit::write_word<W>((W)val, b + p, (W)len); ++nevals;
#endif
    for (int i = 0; i < (int)mem.size() * d; ++i) { bool want = i >= p && i < p + len ? bit_of((W)val, i - p) : bit_of(before[i / d], i % d); VF_CHECK(bitm(i) == want, "word %s of %d bits written at bit %d: bit %d of the sequence is %d", H((W)val), len, p, i, (int)bitm(i)); }
    mem = before;
}
template <class W> static void seqs(int content) {
    const int d = D<W>; std::vector<W> mem(4); for (int i = 0; i < 4; ++i) mem[i] = content == 0 ? 0 : content == 1 ? (W)~(W)0 : (W)mixc(i + content * 10);
    for (int p = 0; p < 2 * d; ++p) for (int len = 1; len <= d; ++len) for (int v = 0; v < 3; ++v) {
        // the iterator kinds of the value copy are checked on the same memory
        seq_case<W>(mem.data(), mem, p, len, v == 0 ? 0 : v == 1 ? ~0ull : mixc(p * 100 + len));
#ifndef NO_get_word
        if (v == 2) { auto s = mem; bit::bit_iterator<typename std::vector<W>::iterator> b(s.begin()); ++nevals; auto g = bit::get_word<W>(b + p, (std::size_t)len), h = bit::get_word<W>(bit::bit_iterator<W*>(mem.data()) + p, (std::size_t)len); VF_CHECK((W)(g & low<W>(len)) == (W)(h & low<W>(len)), "word read through a vector iterator differs"); }
#endif
        tick();
    }
    counters()["sequence geometries"] += 2ull * d * d;
}
// a word of another type than those of the sequence
template <class T, class W> static void mixed() {
    const int d = D<W>, t = D<T>; std::vector<W> mem(3 * t / d + 3); for (std::size_t i = 0; i < mem.size(); ++i) mem[i] = (W)mixc(i + 5);
    const int total = (int)mem.size() * d;
    auto bitm = [&](int i) { return bit_of(mem[i / d], i % d); };
    for (int p = 0; p < 2 * d; ++p) for (int len = 1; len <= t; ++len) {
        bit::bit_iterator<W*> b(mem.data());
#ifndef NO_get_word
        T got = bit::get_word<T>(b + p, (std::size_t)len); ++nevals;
        for (int i = 0; i < len; ++i) VF_CHECK(bit_of(got, i) == bitm(p + i), "%d-bit word of %d bits read at bit %d of %d-bit words: bit %d is %d", t, len, p, d, i, (int)bit_of(got, i));
#endif
        for (int v = 0; v < 3; ++v) {
            std::vector<W> before(mem); const T val = v == 0 ? (T)0 : v == 1 ? (T)~(T)0 : (T)mixc(p * 100 + len);
#ifndef NO_write_word
            bit::write_word<T>(val, b + p, (T)len); ++nevals;
#endif
            for (int i = 0; i < total; ++i) { bool want = i >= p && i < p + len ? bit_of(val, i - p) : bit_of(before[i / d], i % d); VF_CHECK(bitm(i) == want, "%d-bit word %s of %d bits written at bit %d of %d-bit words: bit %d is %d", t, H(val), len, p, d, i, (int)bitm(i)); }
            std::copy(before.begin(), before.end(), mem.begin());
        }
        tick();
    }
}
template <class W> static void pads() {
#ifndef NO_padded_read
    const int d = D<W>; std::vector<W> mem(3); for (int i = 0; i < 3; ++i) mem[i] = (W)mixc(i + 5);
    for (int f = 0; f < d; ++f) for (int l = f + 1; l <= 2 * d; ++l) for (int v = 0; v < 2; ++v) {
        bit::bit_iterator<W*> b(mem.data()); W got = bit::_padded_read(b + f, b + l, v ? bit::bit1 : bit::bit0), want = 0; ++nevals;
        for (int i = 0; i < d; ++i) want |= (W)((W)(i >= f && i < l ? bit_of(mem[0], i) : v) << i);
        VF_CHECK(got == want, "padded read of bits %d to %d with %d is %s, expected %s", f, l, v, H(got), H(want));
    }
    tick();
#endif
}
template <class W, int N> static void within1() {
    const int d = D<W>; std::vector<W> mem(N / d + 5);
    bit::bit_iterator<typename std::vector<W>::iterator> b(mem.begin()); bit::bit_iterator<W*> q(mem.data());
    for (int f = 0; f < d; ++f) for (int l = f; l <= (int)mem.size() * d; ++l) {
#ifndef NO_is_within
        ++nevals; VF_CHECK((bit::is_within<N>(b + f, b + l)) == (l - f <= N), "is_within<%d> of bits %d to %d", N, f, l);
#endif
#ifndef NO_is_within
        VF_CHECK((bit::is_within<N>(q + f, q + l)) == (l - f <= N), "is_within<%d> of bits %d to %d (pointers)", N, f, l);
#endif
#ifndef NO_is_within
        VF_CHECK(bit::is_within(b + f, b + l, N) == (l - f <= N), "is_within %d of bits %d to %d", N, f, l);
#endif
    }
    tick();
}
template <class W> static void within() { constexpr int d = D<W>; within1<W, 0>(); within1<W, 1>(); within1<W, d - 1>(); within1<W, d>(); within1<W, d + 1>(); within1<W, 2 * d - 1>(); within1<W, 2 * d>(); within1<W, 2 * d + 3>(); within1<W, 3 * d>(); }
static void op_seq(const ll* a) { const int w = a[0]; if (w == 8) seqs<u8>(a[1]); else if (w == 16) seqs<u16>(a[1]); else if (w == 32) seqs<u32>(a[1]); else seqs<u64>(a[1]); }
VF_REGISTER(op_seq);
template <class W> static void help() { pads<W>(); within<W>(); mixed<u8, W>(); mixed<u16, W>(); mixed<u32, W>(); mixed<u64, W>(); }
static void op_help(const ll* a) { const int w = a[0]; if (w == 8) help<u8>(); else if (w == 16) help<u16>(); else if (w == 32) help<u32>(); else help<u64>(); }
VF_REGISTER(op_help);

// ---- widths and type selection ----------------------------------------------
template <class...> struct L {};
static void op_types(const ll*) {
    using bit::binary_digits; ++nevals;
    VF_CHECK(binary_digits<u8>::value == 8 && binary_digits<u16>::value == 16 && binary_digits<u32>::value == 32 && binary_digits<u64>::value == 64 && binary_digits<unsigned long>::value == 64 && binary_digits<const u16>::value == 16 && binary_digits<volatile u32>::value == 32 && bit::binary_digits_v<const volatile u64> == 64, "digits");
#define SAME(name, ...) VF_CHECK((std::is_same<__VA_ARGS__>::value), "selected type " name)
    SAME("narrowest of two", bit::_narrowest_type_t<u8, u32>, u8); SAME("narrowest of two", bit::_narrowest_type_t<u32, u8>, u8); SAME("narrowest of one", bit::_narrowest_type_t<u32>, u32); SAME("narrowest of three", bit::_narrowest_type_t<u64, u16, u32>, u16);
    SAME("widest of two", bit::_widest_type_t<u8, u32>, u32); SAME("widest of two", bit::_widest_type_t<u32, u8>, u32); SAME("widest of three", bit::_widest_type_t<u8, u64, u32>, u64); SAME("widest of one", bit::_widest_type_t<u8>, u8);
    VF_CHECK((binary_digits<bit::_narrower_type_t<u64>>::value == 32 && binary_digits<bit::_narrower_type_t<u32>>::value == 16 && binary_digits<bit::_narrower_type_t<u16>>::value == 8), "narrower type");
    VF_CHECK((binary_digits<bit::_wider_type_t<u8>>::value == 16 && binary_digits<bit::_wider_type_t<u16>>::value == 32 && binary_digits<bit::_wider_type_t<u32>>::value == 64 && binary_digits<bit::_wider_type_t<u64>>::value == 64), "wider type");
}
VF_REGISTER(op_types);

void vf::enumerate() {
    std::vector<int> ws = {8, 16, 32, 64};
    if (sizeof(big) > 8) ws.push_back(128);
    RUN(op_types, 0);
    for (int w : ws) for (int k = 0; k < 7; ++k) for (int b = 0; b < 64; ++b) RUN(op_block, w, k, b, 64);
    for (int w : {8, 16, 32, 64}) { RUN(op_help, w); for (int c = 0; c < (thorough ? 6 : 3); ++c) RUN(op_seq, w, c); }
    sample("operation block <width> <kind> <block>: all operand pairs and positions of the block");
    counters()["states"] = nevals;
}
VF_MAIN
