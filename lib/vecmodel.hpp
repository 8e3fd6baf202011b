// Operations on bit vectors, executed on the real container and on a plain sequence.
#pragma once
#include "arena.hpp"
#include "bits.hpp"
using namespace vf;

enum Kind : int { PUSH, POP, INS, INSN, INSR, ER, ERR, RES, RESV, CLEAR, RESERVE, SHRINK, WR, WRAT, WRIT, FLIP, FRONT, BACK, CPA, MVA, SELF, COPYBACK, MOVEBACK, WORD, INITA, FILLA, REVA, ROTA, NKIND };
static const char* kname[] = {"push_back", "pop_back", "insert", "insert_n", "insert_range", "erase", "erase_range", "resize", "resize_value", "clear", "reserve", "shrink_to_fit", "write[]", "write_at", "write_iterator", "flip", "front=", "back=", "copy_assign", "move_assign", "self_assign", "copy_and_move_back", "move_out_and_in", "write_word", "assign_list", "fill", "reverse", "rotate"};
struct Op { int k, a, b, c; };
static std::string show(const Op& o) { return fmt("%s(%d,%d,%d)", kname[o.k], o.a, o.b, o.c); }

#ifndef VF_SEQ
#define VF_SEQ 1200     // longest sequence
#endif
struct Seq { int n = 0; unsigned char b[VF_SEQ];
    void ins(int p, int c, const unsigned char* v) { memmove(b + p + c, b + p, n - p); memcpy(b + p, v, c); n += c; }
    void ers(int f, int l) { memmove(b + f, b + l, n - l); n -= l - f; } };
static std::string show(const Seq& s) { std::string r = fmt("%d:", s.n); for (int i = 0; i < s.n && i < 300; ++i) r += (char)('0' + s.b[i]); return r; }

// source bits for range insertion and assignment: a fixed irregular pattern
static bool src_bit(int i) { return (0xB5A3D1269CE74F83ull >> (i % 61)) & 1; }
template <class W> struct Sources {
    bit::bit_vector<W> range; std::vector<bit::bit_vector<W>> whole; std::vector<int> whole_len;
    Sources() { std::vector<bool> t; for (int i = 0; i < 40 * dig<W>() && i < VF_SEQ * 3 / 4; ++i) t.push_back(src_bit(i)); for (bool x : t) range.push_back(bv(x));
        for (int n : {0, 1, dig<W>() - 1, dig<W>(), dig<W>() + 1, 2 * dig<W>() + 1}) { bit::bit_vector<W> v; for (int i = 0; i < n; ++i) v.push_back(bv(src_bit(i + 3))); whole.push_back(v); whole_len.push_back(n); } }
};
template <class W> static Sources<W>& sources() { static Sources<W> s; return s; }

// --- model step; returns the index of the returned iterator, or -1
static ll step_model(Seq& s, const Op& o, int digits) {
    static unsigned char t[VF_SEQ];
    switch (o.k) {
    case PUSH: t[0] = (unsigned char)o.a; s.ins(s.n, 1, t); return -1;
    case POP: s.n--; return -1;
    case INS: t[0] = (unsigned char)o.b; s.ins(o.a, 1, t); return o.a;
    case INSN: memset(t, o.c, o.b); s.ins(o.a, o.b, t); return o.a;
    case INSR: for (int i = 0; i < o.c; ++i) t[i] = src_bit(o.b + i); s.ins(o.a, o.c, t); return o.a;
    case ER: s.ers(o.a, o.a + 1); return o.a;
    case ERR: s.ers(o.a, o.b); return o.a;
    case RES: case RESV: { bool v = o.k == RESV && o.b; while (s.n < o.a) s.b[s.n++] = v; s.n = o.a; return -1; }
    case CLEAR: s.n = 0; return -1;
    case RESERVE: case SHRINK: case SELF: case COPYBACK: case MOVEBACK: return -1;
    case WR: case WRAT: case WRIT: s.b[o.a] = (unsigned char)o.b; return -1;
    case FLIP: s.b[o.a] ^= 1; return -1;
    case FRONT: s.b[0] = (unsigned char)o.a; return -1;
    case BACK: s.b[s.n - 1] = (unsigned char)o.a; return -1;
    case CPA: case MVA: { static const int d[] = {0, 1, -1, 0, 1, 1}, m[] = {0, 0, 1, 1, 1, 2}; s.n = m[o.a] * digits + d[o.a]; for (int i = 0; i < s.n; ++i) s.b[i] = src_bit(i + 3); return -1; }
    case WORD: for (int i = 0; i < digits; ++i) if (o.a * digits + i < s.n) s.b[o.a * digits + i] = (unsigned char)((i < 64 ? mixc(o.b) >> i : 0) & 1); return -1;
    case INITA: { s.n = o.a; for (int i = 0; i < s.n; ++i) s.b[i] = (unsigned char)((o.b >> i) & 1); return -1; }
    case FILLA: for (int i = o.a; i < o.b; ++i) s.b[i] = (unsigned char)o.c; return -1;
    case REVA: std::reverse(s.b + o.a, s.b + o.b); return -1;
    case ROTA: std::rotate(s.b + o.a, s.b + o.b, s.b + o.c); return -1;
    }
    return -1;
}
// --- the real step; memory is observed while it runs.  Allocations made by the harness's own helper objects are outside the scope.
template <class W> static ll step_real(bit::bit_vector<W>& v, const Op& o) {
    typedef bit::bit_vector<W> V; Sources<W>& S = sources<W>(); typename V::iterator r; bool has = false;
    switch (o.k) {
    case PUSH: { arena::Scope t; v.push_back(bv(o.a)); } break;
    case POP: { arena::Scope t; v.pop_back(); } break;
    case INS: { arena::Scope t; r = v.insert(v.cbegin() + o.a, bv(o.b)); } has = true; break;
    case INSN: { arena::Scope t; r = v.insert(v.cbegin() + o.a, (std::size_t)o.b, bv(o.c)); } has = true; break;
    case INSR: { arena::Scope t; r = v.insert(v.cbegin() + o.a, S.range.begin() + o.b, S.range.begin() + o.b + o.c); } has = true; break;
    case ER: { arena::Scope t; r = v.erase(v.begin() + o.a); } has = true; break;
    case ERR: { arena::Scope t; r = v.erase(v.begin() + o.a, v.begin() + o.b); } has = true; break;
    case RES: { arena::Scope t; v.resize((std::size_t)o.a); } break;
    case RESV: { arena::Scope t; v.resize((std::size_t)o.a, bv(o.b)); } break;
    case CLEAR: { arena::Scope t; v.clear(); } break;
    case RESERVE: { arena::Scope t; v.reserve((std::size_t)o.a); } break;
    case SHRINK: { arena::Scope t; v.shrink_to_fit(); } break;
    case WR: v[(std::size_t)o.a] = bv(o.b); break;
    case WRAT: v.at((std::size_t)o.a) = bv(o.b); break;
    case WRIT: *(v.begin() + o.a) = bv(o.b); break;
    case FLIP: v[(std::size_t)o.a].flip(); break;
    case FRONT: v.front() = bv(o.a); break;
    case BACK: v.back() = bv(o.a); break;
    case CPA: { arena::Scope t; v = S.whole[o.a]; } break;
    case MVA: { ll fa = arena::fail_at, al = arena::allocs, ab = arena::alloc_bytes; arena::fail_at = 0; arena::on = true; V tmp(S.whole[o.a]); arena::fail_at = fa; arena::allocs = al; arena::alloc_bytes = ab; { arena::Scope t; v = std::move(tmp); } arena::on = false; } break;
    case SELF: { arena::Scope t; V& w = v; v = w; } break;
    case COPYBACK: { arena::Scope t; V c(v); v = std::move(c); } break;
    case MOVEBACK: { arena::Scope t; V c(std::move(v)); v = std::move(c); } break;
    case WORD: v.data()[o.a] = (W)mixc(o.b); break;
    case INITA: { arena::Scope t; if (o.a == 0) v = V(); else if (o.a == 1) v = V{bv(o.b & 1)}; else if (o.a == 2) v = V{bv(o.b & 1), bv(o.b >> 1 & 1)}; else v = V{bv(o.b & 1), bv(o.b >> 1 & 1), bv(o.b >> 2 & 1)}; } break;
    case FILLA: bit::fill(v.begin() + o.a, v.begin() + o.b, bv(o.c)); break;
    case REVA: bit::reverse(v.begin() + o.a, v.begin() + o.b); break;
    case ROTA: bit::rotate(v.begin() + o.a, v.begin() + o.b, v.begin() + o.c); break;
    }
    return has ? (ll)(r - v.begin()) : -1;
}
// all operations possible on n bits that keep at most L bits
static std::vector<Op> alphabet(int n, int L, int digits, bool dense) {
    std::vector<Op> v; auto add = [&](int k, int a = 0, int b = 0, int c = 0) { v.push_back(Op{k, a, b, c}); };
    auto cnt = [&](int c) { return dense || c <= 3 || c % digits <= 1 || c % digits == digits - 1; };
    for (int x = 0; x < 2; ++x) { if (n < L) add(PUSH, x); if (n) { add(FRONT, x); add(BACK, x); } }
    if (n) add(POP);
    for (int p = 0; p <= n; ++p) {
        if (n < L) { add(INS, p, 0); add(INS, p, 1); }
        for (int c = 0; n + c <= L; ++c) if (cnt(c)) { add(INSN, p, c, 0); add(INSN, p, c, 1); for (int o : {0, 5, digits - 1}) if (dense || (o + p) % 2 == 0 || c > 2) add(INSR, p, o, c); }
    }
    for (int p = 0; p < n; ++p) { add(ER, p); for (int x = 0; x < 2; ++x) { add(WR, p, x); } add(WRAT, p, 1); add(WRIT, p, 0); add(FLIP, p); }
    for (int f = 0; f <= n; ++f) for (int l = f; l <= n; ++l) add(ERR, f, l);
    for (int c = 0; c <= L; ++c) { add(RES, c); add(RESV, c, 0); add(RESV, c, 1); }
    add(CLEAR); add(SHRINK); add(SELF); add(COPYBACK); add(MOVEBACK);
    for (int c : {0, 1, n, n + 1, digits, digits + 1, 2 * digits + 1, L + 1}) add(RESERVE, c);
    static const int d[] = {0, 1, -1, 0, 1, 1}, m[] = {0, 0, 1, 1, 1, 2};
    for (int s = 0; s < 6; ++s) if (m[s] * digits + d[s] <= L) { add(CPA, s); add(MVA, s); }
    for (int w = 0; w * digits < n; ++w) add(WORD, w, w + 5);
    for (int k = 0; k <= 3; ++k) add(INITA, k, 5);
    if (n >= 2) { add(FILLA, 1, n, 1); add(FILLA, 0, n - 1, 0); add(REVA, 0, n); add(ROTA, 0, 1, n); add(ROTA, 1, n - 1, n); }
    return v;
}

// ---------------------------------------------------------------- monitors
template <class W> static void look(bit::bit_vector<W>& v, const Seq& s, bool deep) {
    const bit::bit_vector<W>& c = v;
    VF_CHECK(v.size() == (std::size_t)s.n, "size is %llu, expected %d", (ull)v.size(), s.n);
    VF_CHECK(v.empty() == (s.n == 0), "empty() is %d at size %d", (int)v.empty(), s.n);
    VF_CHECK(c.capacity() >= c.size(), "capacity %llu below size %llu", (ull)c.capacity(), (ull)c.size());
    VF_CHECK(v.end() - v.begin() == s.n, "end - begin is %lld, expected %d", (ll)(v.end() - v.begin()), s.n);
    int i = 0; for (auto it = v.begin(); i < s.n; ++it, ++i) if ((bool)*it != (bool)s.b[i]) fail(fmt("bit %d is %d; expected the sequence %s", i, (int)(bool)*it, show(s).c_str()));
    if (deep) {
        VF_CHECK(c.end() - c.begin() == s.n && c.cend() - c.cbegin() == s.n && c.cend() - v.begin() == s.n, "constant iteration");
        for (i = 0; i < s.n; ++i) VF_CHECK((bool)c[i] == (bool)s.b[i] && (bool)v[i] == (bool)s.b[i] && (bool)*(c.begin() + i) == (bool)s.b[i] && (bool)c.begin()[i] == (bool)s.b[i], "bit %d through another view", i);
        i = 0; for (auto b : c) { VF_CHECK((bool)b == (bool)s.b[i], "range for: bit %d", i); ++i; } VF_CHECK(i == s.n, "range for visits %d bits", i);
    }
}
// how the container of n bits came about: 0 exact, 1 shrunk from all ones by pop/erase, 2 shrunk by resize, 3 with reserve, 4 grown bit by bit, 5 shrunk by resize after reserve
template <class W> static void make(bit::bit_vector<W>& v, const Seq& s, int how) {
    const int d = dig<W>(), extra = 2 * d + 3; arena::Scope t;
    if (how == 3 || how == 5) v.reserve(s.n + 5 * d);
    if (how == 0 || how == 3) { if (s.n) v.resize(s.n); }
    else if (how == 4) { for (int i = 0; i < s.n; ++i) v.push_back(bv(s.b[i])); return; }
    else { v.resize(s.n + extra, bit::bit1); for (int i = 0; i < s.n + extra; ++i) v[i] = bit::bit1; if (how == 1) { for (int i = 0; i < 3; ++i) v.pop_back(); if (d) v.erase(v.begin() + s.n, v.end()); } else v.resize(s.n); }
    for (int i = 0; i < s.n; ++i) v[i] = bv(s.b[i]);
}
static void content(Seq& s, int n, int pat) { s.n = n; for (int i = 0; i < n; ++i) s.b[i] = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? i & 1 : pat < 16 ? ((i + 1) >> (pat - 3)) & 1 : (mixc(pat * 131 + i / 60) >> (i % 60)) & 1; }
static int npat(int n) { int b = 1; while ((1 << b) < n + 2) ++b; return 3 + b; }
