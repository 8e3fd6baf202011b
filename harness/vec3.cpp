// Histories over several vectors.  C21: copies independent, moves take over.
// C27: allocator instances and propagation traits.  Breadth-first over the joint
// states of the vectors (object bytes, allocators, blocks with their owners).
#include "vecmodel.hpp"
#include <utility>

#if VF_PROP == 27
#include "idalloc.hpp"
#endif

enum Kind3 { CPY, MOV, CPC, MVC, SWP, SELFA, SELFM, PUSHB, POPB, FLIP0, FLIPL, CLR, RSZ, RSV, SHR, INS0, ERS0, INSR3, APPLY, CPCA, MVCA, NEWA, TEXTC, RANGEC, NK3 };
static const char* kn3[] = {"copy_assign", "move_assign", "copy_construct", "move_construct", "swap", "self_assign", "self_move", "push_back", "pop_back", "flip_first", "flip_last", "clear", "resize", "reserve", "shrink_to_fit", "insert_front", "erase_front", "insert_from", "reverse", "copy_construct_alloc", "move_construct_alloc", "construct_alloc", "construct_text", "construct_range"};
struct Op3 { int k, i, j, b; };
static std::string show(const Op3& o) { return fmt("%s(%d,%d,%d)", kn3[o.k], o.i, o.j, o.b); }

#if VF_PROP == 27
enum { K = 2 };
template <class W, int F> using Vec = bit::bit_vector<W, IdAlloc<W, F>>;
#else
enum { K = 3 };
template <class W, int F> using Vec = bit::bit_vector<W>;
#endif
struct Model3 { Seq s[K]; int id[K]; };   // id: which allocator each vector uses

template <class W, int F> struct Ex {
    typedef Vec<W, F> V; typedef Roots<V, K> Rt; StateStore store; KeySet seen; std::vector<Op3> all; std::vector<unsigned char> tmp; std::vector<std::uint16_t> ids; int L; ull transitions = 0, evals_ = 0;
    std::string history(std::size_t n) { std::vector<std::string> h; while (store.parent[n] != ~0u) { h.push_back(show(all[store.op[n]])); n = store.parent[n]; } std::string r; for (size_t i = h.size(); i--;) r += h[i] + " "; return r; }
    static void read(const V& v, Seq& s) { s.n = (int)v.size(); if (s.n > 300) fail(fmt("size is %d", s.n)); int i = 0; for (auto it = v.begin(); i < s.n; ++it, ++i) s.b[i] = (bool)*it; }
    static V& v(int i) { return Rt::get(i); }
    void setup(int l) {
        L = l; const int d = dig<W>();
        for (int i = 0; i < K; ++i) {
            for (int j = 0; j < K; ++j) if (i != j) { for (int k : {CPY, MOV, CPC, MVC}) all.push_back({k, i, j, 0}); if (i < j) all.push_back({SWP, i, j, 0}); all.push_back({INSR3, i, j, 1});
                if (VF_PROP == 27) for (int b : {1, 2}) { all.push_back({CPCA, i, j, b}); all.push_back({MVCA, i, j, b}); } }
            all.push_back({SELFA, i, i, 0}); all.push_back({SELFM, i, i, 0}); for (int b = 0; b < 2; ++b) all.push_back({PUSHB, i, i, b});
            for (int k : {POPB, FLIP0, FLIPL, CLR, SHR, INS0, ERS0, APPLY}) all.push_back({k, i, i, 0});
            for (int n : {0, 1, d, d + 1, L}) all.push_back({RSZ, i, i, n});
            for (int n : {d + 1, 3 * d}) all.push_back({RSV, i, i, n});
            if (VF_PROP == 27) { for (int b : {1, 2}) { all.push_back({NEWA, i, i, b}); for (int k = 0; k < 9; ++k) if (!k || thorough || (k + i) % 2 == b % 2 || L < 10) all.push_back({RANGEC, i, i, b + 10 * k}); } for (int k = 0; k < 9; ++k) if (thorough || i == k % 2) all.push_back({RANGEC, i, i, 10 * k}); all.push_back({TEXTC, i, i, 0}); }
        }
    }
    // false if not applicable; effect on the model (moved-from vectors are marked unknown)
    bool model(Model3& m, const Op3& o, bool* unknown) {
        Seq& s = m.s[o.i]; Seq& t = m.s[o.j]; unsigned char x[300];
        switch (o.k) {
        case CPY: s = t; if (F & 1) m.id[o.i] = m.id[o.j]; return true;
        case MOV: s = t; unknown[o.j] = true; if (F & 2) m.id[o.i] = m.id[o.j]; return true;
        case CPC: s = t; m.id[o.i] = (F & 16) ? m.id[o.j] % 100 + 50 : m.id[o.j]; return true;
        case MVC: s = t; unknown[o.j] = true; m.id[o.i] = m.id[o.j]; return true;
        case CPCA: s = t; m.id[o.i] = o.b; return true;
        case MVCA: s = t; unknown[o.j] = true; m.id[o.i] = o.b; return true;
        case NEWA: s.n = L < 9 ? L : 9; for (int k = 0; k < s.n; ++k) s.b[k] = 1; m.id[o.i] = o.b; return true;
        // o.b: allocator (0 none given) and kind
        case RANGEC: { const int d = dig<W>(), kind = o.b / 10, id = o.b % 10; m.id[o.i] = id ? id : 100; auto bits = [&](int n) { s.n = n; for (int k = 0; k < n; ++k) s.b[k] = src_bit(k); };
            switch (kind) { case 0: bits(10); break; case 1: bits(0); break; case 2: s.n = 7; memset(s.b, 0, 7); break; case 3: bits(9); break; case 4: bits(6); break; case 5: bits(5); break; case 6: bits(d); break; case 7: bits(d); break; case 8: s.n = 8; memset(s.b, 1, 8); break; default: bits(0); } return true; }
        case TEXTC: s.n = 3; s.b[0] = 1; s.b[1] = 0; s.b[2] = 1; m.id[o.i] = 100; return true;
        case SWP: std::swap(s, t); if (F & 2) std::swap(m.id[o.i], m.id[o.j]); return true;
        case SELFA: case RSV: case SHR: return true;
        case SELFM: unknown[o.i] = true; return true;
        case PUSHB: if (s.n >= L) return false; s.b[s.n++] = (unsigned char)o.b; return true;
        case POPB: if (!s.n) return false; --s.n; return true;
        case FLIP0: if (!s.n) return false; s.b[0] ^= 1; return true;
        case FLIPL: if (!s.n) return false; s.b[s.n - 1] ^= 1; return true;
        case CLR: s.n = 0; return true;
        case RSZ: while (s.n < o.b) s.b[s.n++] = 0; s.n = o.b; return true;
        case INS0: if (s.n >= L) return false; x[0] = 1; s.ins(0, 1, x); return true;
        case ERS0: if (!s.n) return false; s.ers(0, 1); return true;
        case INSR3: { if (t.n + s.n > L) return false; Seq u = t; s.ins(s.n / 2, u.n, u.b); return true; }
        case APPLY: std::reverse(s.b, s.b + s.n); return true;
        }
        return false;
    }
    void real(const Op3& o) {
        V& a = v(o.i); V& b = v(o.j);
#if VF_PROP == 27
#define WATCH const ll news0 = arena::news
#define DONE VF_CHECK(arena::news == news0, "the global operator new was called")
        typedef IdAlloc<W, F> A;
#else
#define WATCH arena::Scope sc
#define DONE (void)0
#endif
        switch (o.k) {
        case CPY: { WATCH; a = b; DONE; } break;
        case MOV: { WATCH; a = std::move(b); DONE; } break;
        case CPC: { WATCH; a.~V(); new (&a) V(b); DONE; } break;
        case MVC: { WATCH; a.~V(); new (&a) V(std::move(b)); DONE; } break;
        case SWP: { WATCH; using std::swap; swap(a, b); DONE; } break;
        case SELFA: { WATCH; a = b; DONE; } break;
        case SELFM: { WATCH; a = std::move(b); DONE; } break;
        case PUSHB: { WATCH; a.push_back(bv(o.b)); DONE; } break;
        case POPB: { WATCH; a.pop_back(); DONE; } break;
        case FLIP0: a.front().flip(); break;
        case FLIPL: a.back().flip(); break;
        case CLR: { WATCH; a.clear(); DONE; } break;
        case RSZ: { WATCH; a.resize((std::size_t)o.b); DONE; } break;
        case RSV: { WATCH; a.reserve((std::size_t)o.b); DONE; } break;
        case SHR: { WATCH; a.shrink_to_fit(); DONE; } break;
        case INS0: { WATCH; a.insert(a.cbegin(), bit::bit1); DONE; } break;
        case ERS0: { WATCH; a.erase(a.begin()); DONE; } break;
        case INSR3: { WATCH; a.insert(a.cbegin() + (ll)a.size() / 2, b.begin(), b.end()); DONE; } break;
        case APPLY: { WATCH; bit::reverse(a.begin(), a.end()); DONE; } break;
#if VF_PROP == 27
        case CPCA: { WATCH; a.~V(); new (&a) V(b, A(o.b)); DONE; } break;
        case MVCA: { WATCH; a.~V(); new (&a) V(std::move(b), A(o.b)); DONE; } break;
        case NEWA: { WATCH; a.~V(); new (&a) V((std::size_t)(L < 9 ? L : 9), bit::bit1, A(o.b)); DONE; } break;
        case TEXTC: { WATCH; a.~V(); new (&a) V(std::string_view("1_01")); DONE; } break;
        case RANGEC: { bool x[10]; for (int k = 0; k < 10; ++k) x[k] = src_bit(k); W words[2] = {}; for (int k = 0; k < dig<W>(); ++k) words[0] |= (W)((W)src_bit(k) << k); bit::bit_iterator<W*> wb(words); auto B = [&](int k) { return bv(src_bit(k)); }; const int id = o.b % 10;
            WATCH; a.~V(); try {
            if (id) switch (o.b / 10) { case 0: new (&a) V(x, x + 10, A(id)); break; case 1: new (&a) V(A(id)); break; case 2: new (&a) V((std::size_t)7, A(id)); break; case 3: new (&a) V(wb, wb + (dig<W>() < 9 ? 8 : 9), A(id)); if (dig<W>() < 9) a.push_back(B(8)); break;
                case 4: new (&a) V(std::initializer_list<bit::bit_value>{B(0), B(1), B(2), B(3), B(4), B(5)}, A(id)); break; case 5: new (&a) V(std::initializer_list<bool>{x[0], x[1], x[2], x[3], x[4]}, A(id)); break;
                case 6: new (&a) V(std::initializer_list<W>{words[0]}, A(id)); break; case 7: new (&a) V(words, words + 1, A(id)); break; default: new (&a) V((std::size_t)8, bit::bit1, A(id)); }
            else switch (o.b / 10) { case 0: new (&a) V(x, x + 10); break; case 1: new (&a) V(); break; case 2: new (&a) V((std::size_t)7); break; case 3: new (&a) V(wb, wb + (dig<W>() < 9 ? 8 : 9)); if (dig<W>() < 9) a.push_back(B(8)); break;
                case 4: new (&a) V(std::initializer_list<bit::bit_value>{B(0), B(1), B(2), B(3), B(4), B(5)}); break; case 5: new (&a) V(std::initializer_list<bool>{x[0], x[1], x[2], x[3], x[4]}); break;
                case 6: new (&a) V(std::initializer_list<W>{words[0]}); break; case 7: new (&a) V(words, words + 1); break; default: new (&a) V((std::size_t)8, bit::bit1); }
            } catch (...) { new (&a) V(A(9)); throw; } DONE; } break;
#endif
        }
    }
    Op3 cur{}; std::size_t curid = 0;
    void check(const Model3& m, const bool* unknown, Model3& after) {
        VF_CHECK(!arena::error, "%s", arena::error); VF_CHECK(arena::guards_ok(), "memory outside the allocated words was written");
#if VF_PROP == 27
        VF_CHECK(!alloc_error, "%s", alloc_error);
#endif
        int owned = 0; int slot[K];
        for (int i = 0; i < K; ++i) {
            const V& c = v(i); slot[i] = -1; after.id[i] = m.id[i];
            if (!unknown[i]) {
                VF_CHECK(c.size() == (std::size_t)m.s[i].n, "vector %d has size %llu, expected %d", i, (ull)c.size(), m.s[i].n);
                int k = 0; for (auto it = c.begin(); k < m.s[i].n; ++it, ++k) if ((bool)*it != (bool)m.s[i].b[k]) fail(fmt("vector %d bit %d is %d; expected %s", i, k, (int)(bool)*it, show(m.s[i]).c_str()));
            }
            VF_CHECK(c.capacity() >= c.size() && c.empty() == (c.size() == 0) && c.end() - c.begin() == (ll)c.size(), "vector %d is inconsistent", i);
            if (c.capacity()) { ++owned; const auto* p = std::addressof(*c.begin().base()); const int s = arena::slot_of(p); VF_CHECK(s >= 0 && arena::meta.size[s] && (const unsigned char*)p == arena::mem[s] + arena::PAD, "vector %d does not own a live block", i); VF_CHECK(arena::block_size(s) * 8 >= c.capacity(), "vector %d claims a capacity of %llu bits in a block of %zu bytes", i, (ull)c.capacity(), arena::block_size(s)); slot[i] = s;
                for (int j = 0; j < i; ++j) VF_CHECK(slot[j] != s, "vectors %d and %d share their words", j, i);
#if VF_PROP == 27
                if (!(F & 8)) VF_CHECK(arena::meta.tag[s] == m.id[i], "vector %d lives in memory of allocator %d, expected %d", i, arena::meta.tag[s], m.id[i]);
#endif
            }
            read(c, after.s[i]);
        }
        VF_CHECK(arena::live() == owned, "%d live blocks for %d vectors with storage", arena::live(), owned);
    }
    void transition(std::size_t id, std::uint32_t opn, const Model3& before) {
        const Op3& o = all[opn]; Model3 m = before, after; bool unknown[K] = {}; if (!model(m, o, unknown)) return;
        for (int i = 0; i < K; ++i) if (m.s[i].n > L) return;
        ++transitions; ++nevals; const V& src = v(o.j); const auto* p0 = src.capacity() ? std::addressof(*src.begin().base()) : nullptr; const int n0 = before.s[o.j].n; (void)n0; const ll cap0 = (ll)src.capacity();
        const V& dst = v(o.i); const auto* q0 = dst.capacity() ? std::addressof(*dst.begin().base()) : nullptr; const ll dcap0 = (ll)dst.capacity();
        arena::allocs = 0; const ll frees0 = arena::frees; (void)frees0;
        real(o);
        check(m, unknown, after);
        // moves between equal allocators take the storage over
        const bool eq = VF_PROP == 21 || (F & 8) || before.id[o.i] == before.id[o.j];
        const bool take = o.k == MVC || (o.k == MOV && (eq || (F & 2))) || (o.k == MVCA && ((F & 8) || before.id[o.j] == o.b));
        if (take) { VF_CHECK(arena::allocs == 0, "moving allocates %lld times", arena::allocs); const V& a = v(o.i); VF_CHECK(!p0 || std::addressof(*a.begin().base()) == p0, "moving copied the words to another place"); VF_CHECK((ll)a.capacity() == cap0, "moving changed the capacity"); }
        if (o.k == SWP && (eq || (F & 2))) { VF_CHECK(arena::allocs == 0, "swapping allocates"); VF_CHECK((!p0 || std::addressof(*v(o.i).begin().base()) == p0) && (!q0 || std::addressof(*v(o.j).begin().base()) == q0), "swapping copied words"); (void)dcap0; }
        if (o.k == SELFA) VF_CHECK(arena::allocs == 0 && arena::frees == frees0 && (ll)v(o.i).capacity() == dcap0, "self-assignment replaced the storage");
        if (o.k == CPY || o.k == CPC || o.k == CPCA) if (p0) VF_CHECK(std::addressof(*v(o.j).begin().base()) == p0 && (ll)v(o.j).capacity() == cap0, "copying changed the source's storage");
#if VF_PROP == 27
        std::uint64_t extra = 0; for (int i = 0; i < K; ++i) extra = extra * 1000 + (F & 8 ? 0 : after.id[i]);
#else
        const std::uint64_t extra = 0;
#endif
        if (seen.insert(Rt::key(extra))) { Rt::save(tmp); store.add(tmp, (std::uint32_t)id, opn); for (int i = 0; i < K; ++i) ids.push_back((std::uint16_t)after.id[i]); }
    }
    void explore(const int* start, int depth, std::size_t max_states) {
        static Ex* self; self = this; describe_hook = [] { arena::on = false; return "history: " + self->history(self->curid) + show(self->cur); };
        memset(arena::meta.size, 0, sizeof arena::meta.size); arena::error = nullptr;
#if VF_PROP == 27
        alloc_error = nullptr; for (int i = 0; i < K; ++i) { new (&v(i)) V(IdAlloc<W, F>(i + 1)); for (int n = 0; n < start[i]; ++n) v(i).push_back(bv(src_bit(n + 7 * i))); ids.push_back((std::uint16_t)(i + 1)); }
#else
        for (int i = 0; i < K; ++i) { arena::Scope t; new (&v(i)) V(); if (start[i]) v(i).resize(start[i]); for (int n = 0; n < start[i]; ++n) v(i)[n] = bv(src_bit(n + 7 * i)); }
        ids.assign(K, 0);
#endif
        Rt::save(tmp); seen.insert(Rt::key()); store.add(tmp, ~0u, 0); std::size_t next_level = 1; int dep = 0; bool truncated = false;
        for (std::size_t id = 0; id < store.size(); ++id) {
            if (id == next_level) { if (++dep >= depth) break; next_level = store.size(); }
            Rt::load(store.at(id), store.at(id + 1)); tick(); Model3 m; for (int i = 0; i < K; ++i) { read(v(i), m.s[i]); m.id[i] = ids[id * K + i]; }
            for (size_t k = 0; k < all.size(); ++k) {
                cur = all[k]; curid = id; if (k) Rt::load(store.at(id), store.at(id + 1));
#if VF_PROP == 27
                alloc_error = nullptr;
#endif
                try { transition(id, (std::uint32_t)k, m); } catch (const Fail& f) { arena::on = false; fail("history: " + history(id) + show(all[k]) + " :: " + f.msg); } catch (const std::exception& e) { arena::on = false; fail("history: " + history(id) + show(all[k]) + " :: exception " + e.what()); }
            }
            if (store.size() > max_states) { truncated = true; break; }
        }
        if (dep < depth && !truncated) counters()["closed_state_spaces"]++; if (truncated) counters()["truncated"]++;
        // destruction from a sample of states returns every block
        for (std::size_t id = 0; id < store.size(); id += 1 + store.size() / 5000) { Rt::load(store.at(id), store.at(id + 1)); for (int i = 0; i < K; ++i) v(i).~V(); VF_CHECK(arena::live() == 0 && !arena::error, "after destruction of all vectors %d blocks live; history %s", arena::live(), history(id).c_str());
#if VF_PROP == 27
            VF_CHECK(!alloc_error, "%s (destruction; history %s)", alloc_error, history(id).c_str());
#endif
        }
        counters()["states"] += store.size(); counters()["transitions"] += transitions; memset(arena::meta.size, 0, sizeof arena::meta.size); describe_hook = nullptr;
    }
};
// word L depth traits n0 n1 n2
template <class W, int F> static void run_f(const ll* a) { auto e = std::make_unique<Ex<W, F>>(); e->setup((int)a[1]); int st[3] = {(int)a[4], (int)a[5], (int)a[6]}; e->explore(st, (int)a[2], 3000000); }
template <class W> static void hist_t(const ll* a) {
#if VF_PROP == 27
    switch (a[3]) {
#define C_(n) case n: run_f<W, n>(a); break;
    C_(0) C_(1) C_(2) C_(3) C_(4) C_(5) C_(6) C_(7) C_(8) C_(15) C_(16) C_(17) C_(18) C_(23) C_(9) C_(10) C_(20) default: fail("traits"); }
#else
    run_f<W, 0>(a);
#endif
}
#ifdef VF_W   // one word width per build
template <int> struct Word; template <> struct Word<8> { typedef std::uint8_t t; }; template <> struct Word<16> { typedef std::uint16_t t; }; template <> struct Word<32> { typedef std::uint32_t t; }; template <> struct Word<64> { typedef std::uint64_t t; };
#ifdef VF_WIDE
template <> struct Word<128> { typedef Wide t; };
#endif
static void hist(const ll* a) { if (a[0] != VF_W) fail("word width of another build"); hist_t<Word<VF_W>::t>(a); }
#define MINE(w) ((w) == VF_W)
#else
static void hist(const ll* a) { VF_DISPATCH(a[0], hist_t, a); }
#define MINE(w) true
#endif
VF_REGISTER(hist);
void vf::enumerate() {
#if VF_PROP == 21
    for (int W : VF_WORDS) for (int a : {0, 1, W - 1, W, W + 1}) for (int b : {0, 3, W, 2 * W}) for (int c : {0, W + 1}) RUN(hist, W, 2 * W + 2, thorough ? 4 : 3, 0, a, b, c);
    RUN(hist, 8, 3, thorough ? 9 : 5, 0, 0, 0, 0); RUN(hist, 8, 9, thorough ? 5 : 4, 0, 0, 0, 0);
    sample("hist 8 9 4 0 0 0 0: all histories of 4 steps over three byte vectors of at most 9 bits");
#else
    for (int F : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 20, 23}) { for (int W : VF_WORDS) if (MINE(W)) for (int a : {0, W, W + 1}) for (int b : {0, 3, 2 * W}) RUN(hist, W, 2 * W + 2, thorough ? 4 : 3, F, a, b, 0); if (MINE(8)) RUN(hist, 8, 9, thorough ? 6 : 4, F, 0, 0, 0); }
    sample("hist 8 9 4 3 0 0 0: all histories of 4 steps over two byte vectors whose allocators propagate on copy and move assignment");
#endif
}
VF_MAIN
