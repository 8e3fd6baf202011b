// bit_vector histories.  Breadth-first exploration of all container states (object
// bytes, owned blocks with unused bits and unused words, capacity) reachable with at
// most L bits; every operation of the alphabet is executed from every state on the
// real code.  VF_PROP selects what is monitored:
//   19 length, bits and returned iterators against a plain sequence
//   22 checked access, front, back        23 every allocation of every operation fails
//   24 capacity, allocations, addresses   25 layout in memory
#include "vecmodel.hpp"
#if VF_PROP == 23
#include "idalloc.hpp"
#endif

#if VF_PROP == 22
template <class W> static void access(bit::bit_vector<W>& v, const Seq& s, bool light = false) {
    const bit::bit_vector<W>& c = v; const ull n = (ull)s.n, d = dig<W>(); ++nevals;
    auto same = [&](auto r, ull i) { return r.address() == v.data() + i / d && r.position() == i % d; };
    auto throws = [&](auto f) { try { f(); } catch (const std::out_of_range&) { return true; } return false; };
    auto probe = [&](ull p) {
        if (p < n) { VF_CHECK(same(v.at(p), p) && same(c.at(p), p) && same(v[p], p) && same(c[p], p) && same(*(v.begin() + (ll)p), p) && (bool)v.at(p) == (bool)s.b[p] && (bool)c.at(p) == (bool)s.b[p], "at(%llu) of %llu is another bit", p, n); }
        else { VF_CHECK(throws([&] { (void)(bool)v.at(p); }), "at(%llu) of %llu does not throw", p, n); VF_CHECK(throws([&] { (void)(bool)c.at(p); }), "constant at(%llu) of %llu does not throw", p, n); }
    };
    for (ull p = 0; p <= n; ++p) probe(p);
    if (light) { probe(n + 1); probe((n + d) / d * d - 1); if (s.n % 8 == 1) { probe(~0ull); probe(n + (1ull << 32)); probe(v.capacity()); } } else {
    for (ull p = n + 1; p <= n + 2 * d + 2; ++p) if (d == 8 || p < n + 3 || p % d <= 1 || p % d == d - 1) probe(p);
    probe(v.capacity()); probe(v.capacity() - 1); probe(v.capacity() + 1); probe(n + (1ull << 32)); probe(n - 1 + (1ull << 32)); probe((1ull << 32)); probe((1ull << 31)); probe(~0ull); probe(~0ull - n); probe(~0ull - d); probe(1ull << 63); probe((1ull << 63) + n / 2); probe(n + (1ull << 61)); probe(0 - n); probe(1 - n); }
    if (n) { VF_CHECK(same(v.front(), 0) && same(c.front(), 0) && same(v.back(), n - 1) && same(c.back(), n - 1), "front or back refers to another bit"); VF_CHECK((bool)v.front() == (bool)s.b[0] && (bool)c.front() == (bool)s.b[0] && (bool)v.back() == (bool)s.b[n - 1] && (bool)c.back() == (bool)s.b[n - 1], "front or back value"); }
}
#endif
#if VF_PROP == 25
template <class W> static void layout(bit::bit_vector<W>& v, const Seq& s, const std::vector<unsigned char>& saved) {
    typedef bit::bit_vector<W> V; const int d = dig<W>(), n = s.n; const V& c = v; ++nevals; (void)saved;
    W* p = v.data(); VF_CHECK(c.data() == p || n == 0, "constant data() differs"); if (!n) return;
    for (int i = 0; i < n; ++i) {
        VF_CHECK((p[i / d] >> (i % d) & 1) == s.b[i], "bit %d of the data words", i);
        VF_CHECK((bool)*(bit::bit_iterator<W*>(p) + i) == (bool)s.b[i] && (bool)*bit::bit_iterator<W*>(p + i / d, i % d) == (bool)s.b[i] && (bool)*bit::bit_iterator<const W*>(p + i / d, i % d) == (bool)s.b[i] && (bool)bit::bit_reference<W>(p[i / d], i % d) == (bool)s.b[i] && (bool)*(bit::bit_pointer<W>(p) + i) == (bool)s.b[i] && (bool)bit::bit_value(p[i / d], i % d) == (bool)s.b[i], "bit %d through another view of the same words", i);
        auto r = v[i]; VF_CHECK(r.address() == p + i / d && r.position() == (std::size_t)(i % d) && r.mask() == (W)((W)1 << (i % d)), "reference to bit %d", i);
        auto cr = c[i]; VF_CHECK(cr.address() == p + i / d && cr.position() == (std::size_t)(i % d), "constant reference to bit %d", i);
        auto it = v.begin() + i; VF_CHECK(&*it.base() == p + i / d && it.position() == (std::size_t)(i % d), "iterator to bit %d", i);
    }
    // writing one word changes exactly its bits
    const int nw_ = (n + d - 1) / d;
    for (int w = 0; w * d < n; ++w) for (int k = 0; k < d + 2; ++k) {
        if ((n > 320 || d == 128) && ((w > 1 && w != nw_ / 2 && w < nw_ - 2) || (k && k < d - 1))) continue;          // large vectors: words and bits at the ends and in the middle
        const W old = p[w], nw = k < d ? (W)((W)1 << k) : k == d ? (W)~(W)0 : (W)mixc(n + w); p[w] = nw; ++nevals;
        for (int i = 0; i < n; ++i) { bool e = i / d == w ? nw >> (i % d) & 1 : s.b[i]; VF_CHECK((bool)c[i] == e, "after writing word %d: bit %d is %d", w, i, (int)(bool)c[i]); }
        p[w] = old;
    }
    // writing one bit changes exactly its word
    for (int i = 0; i < n; ++i) { if (n > 320 && i > 1 && i < n - 2 && i != n / 2 && i != d - 1 && i != d) continue; std::vector<W> w(p, p + (n + d - 1) / d); v[i].flip(); for (size_t k = 0; k < w.size(); ++k) VF_CHECK(p[k] == (W)(w[k] ^ ((int)k == i / d ? (W)((W)1 << (i % d)) : (W)0)), "flipping bit %d changed word %zu otherwise", i, k); v[i].flip(); }
    // a vector built from the words has the same bits; a copy of the words too
    { V z(p, p + (n + d - 1) / d); VF_CHECK(z.size() == (std::size_t)((n + d - 1) / d * d), "size from words"); for (int i = 0; i < n; ++i) VF_CHECK((bool)z[i] == (bool)s.b[i], "from words: bit %d", i); }
}
#endif

static std::string context; static std::string (*describe)() = nullptr;
template <class W> struct Explorer {
    typedef bit::bit_vector<W> V; typedef Roots<V, 1> Rt;
    StateStore store; KeySet seen; std::vector<std::vector<Op>> alpha; int L; std::vector<unsigned char> tmp; bool light = false; ull transitions = 0, faults = 0;
    std::string history(std::size_t id) { std::vector<std::string> h; while (store.parent[id] != ~0u) { std::size_t p = store.parent[id]; h.push_back(show(all[store.op[id]])); id = p; } std::string r; for (size_t i = h.size(); i--;) r += h[i] + " "; return r; }
    std::vector<Op> all; std::vector<std::vector<std::uint32_t>> num;
    void setup(int L_, bool dense) { L = L_; light = !dense; alpha.resize(L + 1); num.resize(L + 1); for (int n = 0; n <= L; ++n) { alpha[n] = alphabet(n, L, dig<W>(), dense); for (auto& o : alpha[n]) { num[n].push_back((std::uint32_t)all.size()); all.push_back(o); } } }
    static void read(const V& v, Seq& s) { s.n = (int)v.size(); int i = 0; for (auto it = v.begin(); i < s.n; ++it, ++i) s.b[i] = (bool)*it; }

    // run one transition from the loaded state; true if a new state was reached
    void transition(std::size_t id, const Op& o, std::uint32_t opn, Seq before) {
        V& v = Rt::get(0); Seq want = before; const ll wr = step_model(want, o, dig<W>());
        ++transitions; ++nevals;
#if VF_PROP == 24
        const ull cap0 = v.capacity(); const W* d0 = v.data(); arena::allocs = 0; arena::alloc_bytes = 0; const ll frees0 = arena::frees;
#endif
        const ll gr = step_real(v, o);
        VF_CHECK(!arena::error, "%s", arena::error); VF_CHECK(arena::guards_ok(), "memory outside the allocated words was written"); VF_CHECK(arena::live() <= 1, "%d live blocks after the operation", arena::live());
        VF_CHECK(gr == wr, "returned iterator at %lld, expected %lld", gr, wr);
        look(v, want, VF_PROP == 19);
#if VF_PROP == 24
        const ull cap = v.capacity(), words = (want.n + dig<W>() - 1) / dig<W>();
        const bool whole = o.k == MVA || o.k == COPYBACK || o.k == INITA || o.k == MOVEBACK;   // storage is taken over
        if (o.k != SHRINK && !whole) VF_CHECK(cap >= cap0, "capacity fell from %llu to %llu", cap0, cap);
        if (o.k == RESERVE) { VF_CHECK(cap >= (ull)o.a, "capacity %llu after reserve(%d)", cap, o.a); VF_CHECK((ull)o.a > cap0 || arena::allocs == 0, "reserve within the capacity allocates"); VF_CHECK(arena::allocs <= 1 && arena::alloc_bytes <= (ll)(((ull)o.a + dig<W>() - 1) / dig<W>() * sizeof(W) + 8), "reserve(%d) allocates %lld bytes", o.a, arena::alloc_bytes); }
        if ((ull)want.n <= cap0 && o.k != RESERVE && o.k != SHRINK && o.k != COPYBACK && o.k != INITA) VF_CHECK(arena::allocs == 0, "%lld allocations although %d bits fit the capacity %llu", arena::allocs, want.n, cap0);
        if ((ull)want.n <= cap0 && o.k != RESERVE && o.k != SHRINK && !whole && before.n && want.n) VF_CHECK(v.data() == d0, "the words moved although %d bits fit the capacity %llu", want.n, cap0);
        if (o.k == RESERVE && (ull)o.a <= cap0 && before.n) VF_CHECK(v.data() == d0, "reserve within the capacity moved the words");
        if (o.k == MOVEBACK) { VF_CHECK(arena::allocs == 0 && arena::frees == frees0, "moving out and in touches the heap"); VF_CHECK(v.data() == d0 || !before.n, "moving out and in changed the words' address"); }
        if (o.k == SHRINK) VF_CHECK(cap <= cap0 && cap >= (ull)want.n, "shrink_to_fit from %llu to %llu at size %d", cap0, cap, want.n);
        if (o.k == MVA) VF_CHECK(arena::allocs == 0, "move assignment allocates");
        VF_CHECK(arena::allocs <= 1 || o.k == INITA || o.k == COPYBACK, "%lld allocations in one operation", arena::allocs);
        if (o.k <= RESV || o.k == CPA) VF_CHECK(arena::alloc_bytes <= (ll)(2 * (words + cap0 / dig<W>() + 2) * sizeof(W)), "%lld bytes allocated for %d bits", arena::alloc_bytes, want.n);
#endif
        if (seen.insert(Rt::key())) {
            Rt::save(tmp); store.add(tmp, (std::uint32_t)id, opn);
#if VF_PROP == 22
            access(v, want, light); look(v, want, true);
#elif VF_PROP == 25
            layout(v, want, tmp); look(v, want, true);
#endif
        }
    }
#if VF_PROP == 23
    // fail each allocation of the operation in turn
    void inject(std::size_t id, const Op& o, const Seq& before) {
        V& v = Rt::get(0);
        const ull n = before.n;
        for (int k = 1; k <= 12; ++k) {
            Rt::load(store.at(id), store.at(id + 1)); const int live0 = arena::live(); const W* d0 = v.data(); const ull cap0 = v.capacity();
            arena::allocs = 0; arena::fail_at = k; bool threw = false; ++transitions; ++nevals;
            try { step_real(v, o); } catch (const std::bad_alloc&) { threw = true; } 
            arena::on = false; arena::fail_at = 0;
            if (!threw && o.k == SHRINK && arena::allocs >= k) { look(v, before, true); VF_CHECK(arena::live() == live0 && arena::guards_ok() && !arena::error, "a shrink that fails silently changed the storage"); ++faults; continue; }   // a non-binding request
            if (!threw) { VF_CHECK(arena::allocs < k, "the failed allocation %d of %s was not reported", k, show(o).c_str()); break; }
            ++faults;
            VF_CHECK(o.k != POP && o.k != ER && o.k != ERR && o.k != CLEAR && o.k != SELF && o.k != MOVEBACK && o.k != MVA, "operation that needs no memory failed");
            VF_CHECK(!arena::error, "%s", arena::error); VF_CHECK(arena::guards_ok(), "memory outside the allocated words was written");
            VF_CHECK(arena::live() == live0, "live blocks %d, before the failed operation %d", arena::live(), live0);
            look(v, before, true); VF_CHECK(v.capacity() == cap0 && (v.data() == d0 || !n), "storage replaced by a failed operation");
            // still usable
            Seq s = before; for (const Op& u : {Op{INS, 0, 1, 0}, Op{PUSH, 0, 0, 0}, Op{RESV, (int)n + 3, 1, 0}, Op{ER, 0, 0, 0}}) { step_model(s, u, dig<W>()); step_real(v, u); look(v, s, false); }
            VF_CHECK(k < 12, "too many allocations");
        }
    }
#endif
    Op cur{}; std::size_t curid = 0;
    void explore(int depth, std::size_t max_states) {
        static Explorer* self; self = this; describe = [] { return "history: " + self->history(self->curid) + show(self->cur); };
        { arena::Scope t; new (Rt::st[0]) V(); }
        Rt::save(tmp); seen.insert(Rt::key()); store.add(tmp, ~0u, 0); (void)sources<W>();
        std::vector<std::size_t> level{0}; std::size_t next_level = 1; int dep = 0; Seq s; bool truncated = false;
        for (std::size_t id = 0; id < store.size(); ++id) {
            if (id == next_level) { if (++dep >= depth) break; next_level = store.size(); }
            Rt::load(store.at(id), store.at(id + 1)); read(Rt::get(0), s); tick();
            if (s.n > L) fail("state beyond the bound");
            for (size_t k = 0; k < alpha[s.n].size(); ++k) {
                const Op& o = alpha[s.n][k]; cur = o; curid = id;
                if (k) Rt::load(store.at(id), store.at(id + 1));
                try { transition(id, o, num[s.n][k], s);
#if VF_PROP == 23
                    inject(id, o, s);
#endif
                } catch (const Fail& f) { arena::on = false; arena::fail_at = 0; fail("history: " + history(id) + show(o) + " :: " + f.msg); }
                catch (const std::exception& e) { arena::on = false; arena::fail_at = 0; fail("history: " + history(id) + show(o) + " :: exception " + e.what()); }
            }
            if (store.size() > max_states) { truncated = true; break; }
        }
        counters()["states"] += store.size(); counters()["transitions"] += transitions; counters()["fault_points"] += faults; if (truncated) counters()["truncated"]++; if (dep < depth && !truncated) counters()["closed_state_spaces"]++; counters()["max_depth_" + std::to_string(dep)]++;
        Rt::load(store.at(0), store.at(1)); memset(arena::meta.size, 0, sizeof arena::meta.size); describe = nullptr;
    }
};
// a[0] word, a[1] max bits, a[2] depth, a[3] fill pattern of fresh memory, a[4] dense alphabet
template <class W> static void bfs_t(const ll* a) { arena::pattern = (unsigned char)a[3]; auto e = std::make_unique<Explorer<W>>(); e->setup((int)a[1], a[4]); e->explore((int)a[2], 6000000); }
static void bfs(const ll* a) { VF_DISPATCH(a[0], bfs_t, a); }
VF_REGISTER(bfs);

// ---- one operation on containers of several words, in several physical states
static bool how_light(ll n, ll kind) { return !thorough && kind != RES && kind != ERR && kind != POP && kind != CLEAR && kind != RESERVE; }
// a: word n how kind a b c
template <class W> static void single_t(const ll* a) {
    typedef bit::bit_vector<W> V; typedef Roots<V, 1> Rt; const int n = (int)a[1]; const Op o{(int)a[3], (int)a[4], (int)a[5], (int)a[6]}; Seq s; arena::pattern = 0xA5; (void)sources<W>();
    std::vector<int> pats; for (int p = 0; p < npat(n); ++p) pats.push_back(p); pats.push_back(17); if (thorough) { pats.push_back(18); pats.push_back(19); }
    if (VF_PROP == 22) pats = {17};
#ifdef VF_LARGE
    pats = {1, 17};
#endif
    for (int p : pats) {
        content(s, n, p); memset(arena::meta.size, 0, sizeof arena::meta.size); arena::error = nullptr; arena::fail_at = 0;
        { arena::Scope t; new (Rt::st[0]) V(); } V& v = Rt::get(0); make(v, s, (int)a[2]);
        static const char* how[] = {"exact", "shrunk by erase", "shrunk by resize", "reserved", "appended", "shrunk by resize after reserve"};
        try {
            look(v, s, false);
            Seq want = s; const ll wr = step_model(want, o, dig<W>()); ++nevals; 
            arena::allocs = 0; const ull cap0 = v.capacity(); const W* d0 = v.data(); (void)cap0; (void)d0;
            const ll gr = step_real(v, o);
            VF_CHECK(!arena::error, "%s", arena::error); VF_CHECK(arena::guards_ok(), "memory outside the allocated words was written"); VF_CHECK(arena::live() <= 1, "%d live blocks", arena::live());
            VF_CHECK(gr == wr, "returned iterator at %lld, expected %lld", gr, wr); look(v, want, VF_PROP == 19);
#if VF_PROP == 22
            access(v, want, how_light(a[1], a[3]));
#elif VF_PROP == 25
            std::vector<unsigned char> none; layout(v, want, none);
#elif VF_PROP == 24
            if ((ull)want.n <= cap0 && (o.k <= RESV || o.k == CPA || o.k == CLEAR)) { VF_CHECK(arena::allocs == 0, "%lld allocations although %d bits fit the capacity %llu", arena::allocs, want.n, cap0); VF_CHECK(v.data() == d0 || !want.n || !n, "the words moved"); }
            VF_CHECK(o.k == SHRINK || o.k == MVA || o.k == COPYBACK || o.k == MOVEBACK || v.capacity() >= cap0, "capacity fell");
#endif
        } catch (const Fail& f) { arena::on = false; fail(fmt("content %s (%s) %s :: ", show(s).c_str(), how[a[2]], show(o).c_str()) + f.msg); }
        catch (const std::exception& e) { arena::on = false; fail(fmt("content %s (%s) %s :: exception %s", show(s).c_str(), how[a[2]], show(o).c_str(), e.what())); }
        v.~V();
        VF_CHECK(arena::live() == 0, "leak: %d blocks after destruction", arena::live());
    }
}
static void single(const ll* a) { VF_DISPATCH(a[0], single_t, a); }
VF_REGISTER(single);

#if VF_PROP == 24
// appending bits one at a time allocates logarithmically often: word, reserve first
template <class W> static void append_t(const ll* a) {
    const int total = 1 << 16; bit::bit_vector<W>* v = new bit::bit_vector<W>; static ll n_allocs; n_allocs = 0; ull cap = 0; int changes = 0; const W* d = nullptr; int moves = 0;
    if (a[1] == 2) v->push_back(bit::bit1);
    if (a[1]) { v->reserve(total); cap = v->capacity(); d = v->size() ? v->data() : nullptr; }
    for (int i = (int)v->size(); i < total; ++i) {
        if (a[2] == 0) v->push_back(bv(i % 3 == 0)); else if (a[2] == 1) v->insert(v->cend(), bv(i % 3 == 0)); else if (a[2] == 2) v->insert(v->cend(), (std::size_t)1, bv(i % 3 == 0)); else v->resize(v->size() + 1);
        ++nevals; if (v->capacity() != cap) { VF_CHECK(v->capacity() > cap, "capacity fell while appending"); cap = v->capacity(); ++changes; } if (v->data() != d) { if (d) ++moves; d = v->data(); } VF_CHECK(v->capacity() >= v->size(), "capacity"); }
    if (a[1]) VF_CHECK(changes == 0 && moves == 0, "appending within the reserved capacity reallocated %d times", changes);
    else VF_CHECK(changes <= 40, "appending %d bits reallocated %d times", total, changes);
    VF_CHECK(v->capacity() <= 4ull * total, "capacity %llu for %d bits", (ull)v->capacity(), total); delete v;
}
static void append(const ll* a) { VF_DISPATCH(a[0], append_t, a); }
VF_REGISTER(append);
// constructors allocate the words needed and no more: word n which
template <class W> static void ctor_t(const ll* a) {
    typedef bit::bit_vector<W> V; const int n = (int)a[1], d = dig<W>(); const ll need = (ll)((n + d - 1) / d) * (ll)sizeof(W); std::vector<unsigned char> bools(n); bool* bp = reinterpret_cast<bool*>(bools.data()); for (int i = 0; i < n; ++i) bp[i] = src_bit(i); std::string t; for (int i = 0; i < n; ++i) { t += src_bit(i) ? '1' : '0'; if (i % 5 == 4) t += '_'; } V src; for (int i = 0; i < n + 3; ++i) src.push_back(bv(i % 2)); std::vector<W> words((n + d - 1) / d, (W)5);
    memset(arena::meta.size, 0, sizeof arena::meta.size); arena::allocs = arena::alloc_bytes = 0; ++nevals; std::vector<bool> vb(bp, bp + n); ull sz = 0, cap = 0; ll al = 0, by = 0; ull want = n;
    { arena::on = true; auto done = [&](const V& v) { al = arena::allocs; by = arena::alloc_bytes; arena::on = false; sz = v.size(); cap = v.capacity(); };
      switch (a[2]) { case 0: { V v((std::size_t)n); done(v); break; } case 1: { V v((std::size_t)n, bit::bit1); done(v); break; } case 2: { V v(src.begin() + 3, src.begin() + 3 + n); done(v); break; } case 3: { V v(bp, bp + n); done(v); break; } case 4: { V v(vb.begin(), vb.end()); done(v); break; } case 5: { V v{std::string_view(t)}; done(v); break; } case 6: { V v(words.begin(), words.end()); want = words.size() * d; done(v); break; } case 7: { src.resize(n); V v(src); done(v); break; } } arena::on = false; }
    VF_CHECK(sz == want, "size %llu expected %llu", sz, want); VF_CHECK(by <= need, "%lld bytes allocated, %lld needed for %d bits", by, need, n); VF_CHECK(al <= 1 && cap >= sz && cap <= (ull)need * 8, "%lld allocations, capacity %llu", al, cap); VF_CHECK(arena::live() == 0, "leak");
}
static void ctor(const ll* a) { VF_DISPATCH(a[0], ctor_t, a); }
VF_REGISTER(ctor);
#endif

#if VF_PROP == 23
// construction with the k-th allocation failing: word n which
template <class W> static void ctorfail_t(const ll* a) {
    typedef bit::bit_vector<W> V; const int n = (int)a[1], d = dig<W>(); std::vector<unsigned char> bools(n + 1); bool* bp = reinterpret_cast<bool*>(bools.data()); std::string t; for (int i = 0; i < n; ++i) { bp[i] = src_bit(i); t += src_bit(i) ? '1' : '0'; if (i % 5 == 4) t += '_'; }
    V src; for (int i = 0; i < n; ++i) src.push_back(bv(src_bit(i))); std::vector<bool> vb(bp, bp + n); std::vector<W> words((n + d - 1) / d, (W)5); int k = 1;
    for (; k <= 40; ++k) {
        memset(arena::meta.size, 0, sizeof arena::meta.size); arena::error = nullptr; arena::allocs = 0; arena::fail_at = k; bool threw = false; ++nevals;
        try { arena::Scope sc; switch (a[2]) {
            case 0: { V v((std::size_t)n); break; } case 1: { V v((std::size_t)n, bit::bit1); break; } case 2: { V v(src.begin(), src.end()); break; } case 3: { V v(bp, bp + n); break; } case 4: { V v(vb.begin(), vb.end()); break; } case 5: { V v{std::string_view(t)}; break; }
            case 6: { V v(words.begin(), words.end()); break; } case 7: { V v(src); break; } case 8: { V v(src, std::allocator<W>()); break; } case 9: { V v{bit::bit1, bit::bit0, bit::bit1, bit::bit1, bit::bit1, bit::bit0, bit::bit1, bit::bit1, bit::bit0, bit::bit1, bit::bit1, bit::bit1, bit::bit0, bit::bit1, bit::bit1, bit::bit1, bit::bit1}; break; }
            case 10: { V v{true, false, true, true, true, true, false, true, true, true, true, false, true, true, true, true, false, true, true}; break; } case 11: { V v{(W)1, (W)2, (W)3}; break; } case 12: { V v; V w(std::move(v)); V x(std::allocator<W>{}); break; }
            case 13: { V v(src); V w(std::move(v)); V x; x = std::move(w); V y(std::move(x), std::allocator<W>()); break; } } }
        catch (const std::bad_alloc&) { threw = true; }
        arena::fail_at = 0; VF_CHECK(!arena::error, "%s", arena::error); VF_CHECK(arena::live() == 0, "construction number %lld leaks when allocation %d fails", a[2], k);
        if (!threw) { VF_CHECK(arena::allocs < k, "the failed allocation was swallowed"); break; }
        counters()["fault_points"]++;
    }
    VF_CHECK(k <= 40, "never succeeded"); VF_CHECK(a[2] != 12 || k == 1, "default construction allocates"); VF_CHECK(a[2] != 13 || k <= 2, "moves allocate");
    static_assert(std::is_nothrow_move_constructible<V>::value && std::is_nothrow_move_assignable<V>::value && std::is_nothrow_destructible<V>::value && noexcept(std::declval<V&>().clear()), "moves promise not to throw");
}
static void ctorfail(const ll* a) { VF_DISPATCH(a[0], ctorfail_t, a); }
VF_REGISTER(ctorfail);
// assignments between vectors with unequal allocators, the k-th allocation failing: word n m traits move
template <class W, int F> static void unequal_f(const ll* a) {
    typedef IdAlloc<W, F> A; typedef bit::bit_vector<W, A> V; const int n = (int)a[1], m = (int)a[2]; const bool mv = a[4];
    VF_CHECK(std::is_nothrow_move_assignable<V>::value == ((F & 2) != 0), "move assignment that may allocate promises not to throw"); VF_CHECK(std::is_nothrow_move_constructible<V>::value, "move construction may throw");
    for (int how = 0; how < 3; ++how) for (int k = 1; k <= 4; ++k) {
        memset(arena::meta.size, 0, sizeof arena::meta.size); arena::error = alloc_error = nullptr; bool threw = false; ++nevals;
        { V x(A(1)), y(A(2)); if (how == 1) x.reserve(m); if (how == 2) x.reserve(n + 3 * dig<W>()); for (int i = 0; i < n; ++i) x.push_back(bv(src_bit(i))); for (int i = 0; i < m; ++i) y.push_back(bv(src_bit(i + 9)));
          const bool basic = !mv && (F & 1);   // the standard vector gives up its words before it takes over another allocator
          arena::allocs = 0; arena::fail_at = k; try { if (mv) x = std::move(y); else x = y; } catch (const std::bad_alloc&) { threw = true; } arena::fail_at = 0;
          VF_CHECK(x.capacity() >= x.size(), "size %llu without storage (capacity %llu) after %s", (ull)x.size(), (ull)x.capacity(), threw ? "a failed assignment" : "an assignment");
          auto is = [&](V& v, int c, int o) { VF_CHECK(v.size() == (std::size_t)c, "size %llu expected %d after %s", (ull)v.size(), c, threw ? "a failed assignment" : "an assignment"); int i = 0; for (auto it = v.begin(); i < c; ++it, ++i) VF_CHECK((bool)*it == src_bit(i + o), "bit %d", i); };
          if (threw) { counters()["fault_points"]++; is(y, m, 9); if (!basic) is(x, n, 0); else { ull cnt = 0; for (auto it = x.begin(); it != x.end(); ++it) cnt += (bool)*it; (void)cnt; } } else { is(x, m, 9); if (!mv) is(y, m, 9); }
          x.push_back(bit::bit1); VF_CHECK((bool)x.back(), "use after the assignment"); y.push_back(bit::bit1); VF_CHECK((bool)y.back(), "use of the source after the assignment"); }
        VF_CHECK(arena::live() == 0 && !arena::error && !alloc_error, "leak or wrong deallocation after a failed assignment");
        if (!threw) break;
    }
}
template <class W> static void unequal_t(const ll* a) { switch (a[3]) { case 0: unequal_f<W, 0>(a); break; case 1: unequal_f<W, 1>(a); break; case 2: unequal_f<W, 2>(a); break; default: unequal_f<W, 3>(a); } }
static void unequal(const ll* a) { VF_DISPATCH(a[0], unequal_t, a); }
VF_REGISTER(unequal);
// requests no machine can satisfy: word n which size-index
template <class W> static void huge_t(const ll* a) {
    typedef bit::bit_vector<W> V; typedef Roots<V, 1> Rt; const int n = (int)a[1]; Seq s; content(s, n, 17); memset(arena::meta.size, 0, sizeof arena::meta.size); arena::error = nullptr; { arena::Scope t; new (Rt::st[0]) V(); } V& v = Rt::get(0); make(v, s, n % 2 ? 1 : 0); arena::pattern = 0xA5;
    const ull M = v.max_size(); VF_CHECK(M >= (1ull << 40), "max_size is only %llu", M);
    const ull c[] = {~0ull, ~0ull - 1, ~0ull - 6, ~0ull - dig<W>(), ~0ull - 2 * dig<W>(), ~0ull - (ull)n, 0 - (ull)n, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 7, M, M + 1, M - (ull)n, M - (ull)n + 1, 1ull << 62, (1ull << 50) + 3};
    for (ull z : c) { if (z < (1ull << 50)) continue; ++nevals; bool threw = false; const ull cap0 = v.capacity(); const W* d0 = v.data();
        try { arena::Scope t; switch (a[2]) { case 0: v.resize(z); break; case 1: v.resize(z, bit::bit1); break; case 2: v.reserve(z); break; case 3: v.insert(v.cbegin(), (std::size_t)z, bit::bit1); break; case 4: v.insert(v.cbegin() + n / 2, (std::size_t)z, bit::bit0); break; case 5: v.insert(v.cend(), (std::size_t)z, bit::bit1); break; case 6: { V w((std::size_t)z); break; } case 7: { V w((std::size_t)z, bit::bit1); break; } } }
        catch (const std::bad_alloc&) { threw = true; } catch (const std::length_error&) { threw = true; }
        arena::on = false; VF_CHECK(threw, "a request for %llu bits succeeds (size now %llu)", z, (ull)v.size()); look(v, s, true); VF_CHECK(v.capacity() == cap0 && v.data() == d0 && !arena::error && arena::guards_ok(), "storage changed by an impossible request"); }
    { arena::Scope t; v.push_back(bit::bit1); } s.b[s.n++] = 1; look(v, s, true); v.~V(); VF_CHECK(arena::live() == 0, "leak");
}
static void huge(const ll* a) { VF_DISPATCH(a[0], huge_t, a); }
VF_REGISTER(huge);
#endif

void vf::enumerate() {
    describe_hook = [] { arena::on = false; return describe ? describe() : std::string(); };
#ifdef VF_LARGE
    // vectors of many words, every operation at selected positions, every way the vector came about
    for (int W : VF_WORDS) {
        std::vector<int> ws; for (int w : {9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 256}) if (w * W <= 4200) ws.push_back(w);
        for (int w : ws) for (int e : {0, 1, W - 1}) {
            const int n = w * W + e; if (!thorough && e == 1 && w % 8 != 1 && w != 16) continue;
            std::vector<int> pos{0, 1, W - 1, W, W + 1, n / 8, n / 2, n - W, n - 1, n}; if (thorough) for (int x : {2 * W, 7 * W + 3, n / 4, n / 3, n - W - 1, n - 2}) pos.push_back(x); uniq(pos);
            std::vector<int> cnt{0, 1, W, W + 1, 4 * W - 1, n / 2, n, n + 1}; uniq(cnt);
            for (int how = 0; how < 6; ++how) {
                if (!thorough && how != w % 6 && how != (w + 3) % 6 && how != (w + 5) % 6 && how) continue;
                for (int p : pos) {
                    RUN(single, W, n, how, INS, p, p & 1, 0);
                    if (p < n) { RUN(single, W, n, how, ER, p, 0, 0); RUN(single, W, n, how, WR, p, 1, 0); RUN(single, W, n, how, WRAT, p, 0, 0); }
                    for (int c : cnt) { RUN(single, W, n, how, INSN, p, c, (p + c) & 1); const int o = (p * 3 + c) % (2 * W); if (c + o < 30 * W) RUN(single, W, n, how, INSR, p, o, c); }
                    for (int l : pos) if (l >= p) RUN(single, W, n, how, ERR, p, l, 0);
                }
                std::vector<int> sz{0, 1, 2, W - 1, W, W + 1, n / 16, n / 8, n / 8 + 1, n / 4, n / 2, n - W, n - 1, n, n + 1, n + W, 2 * n, 2 * n + 1}; uniq(sz);
                for (int c : sz) { RUN(single, W, n, how, RES, c, 0, 0); RUN(single, W, n, how, RESV, c, 0, 0); RUN(single, W, n, how, RESV, c, 1, 0); RUN(single, W, n, how, RESERVE, c, 0, 0); }
                for (int x = 0; x < 2; ++x) { RUN(single, W, n, how, PUSH, x, 0, 0); RUN(single, W, n, how, FRONT, x, 0, 0); RUN(single, W, n, how, BACK, x, 0, 0); }
                RUN(single, W, n, how, POP, 0, 0, 0);
                for (int k : {CLEAR, SHRINK, SELF, COPYBACK, MOVEBACK}) RUN(single, W, n, how, k, 0, 0, 0);
                for (int s = 0; s < 6; ++s) { RUN(single, W, n, how, CPA, s, 0, 0); RUN(single, W, n, how, MVA, s, 0, 0); }
            }
        }
    }
    sample("single 8 1025 5 erase_range(8,1024): all but 9 bits of 1025 erased, vector reserved and resized before");
    return;
#endif
    // all states of at most L bits in bytes, then bounded depth for longer sequences and wider words
    const bool heavy = VF_PROP == 23;
#ifdef VF_FEW
    RUN(bfs, 8, thorough ? 10 : 8, 1000000, 0xA5, 1); RUN(bfs, 8, 18, 2, 0xFF, 0); RUN(bfs, 16, 34, 2, 0x00, 0); RUN(bfs, 32, 34, 1, 0xFF, 0); RUN(bfs, 64, 66, 1, 0xFF, 0);
#else
    RUN(bfs, 8, thorough ? (heavy ? 12 : 14) : (heavy ? 9 : 11), 1000000, 0xA5, 1);
    if (thorough) RUN(bfs, 8, heavy ? 11 : 13, 1000000, 0x5A, 1);
    if (thorough) RUN(bfs, 8, 17, heavy ? 3 : 4, 0xFF, 0);
    RUN(bfs, 8, 18, 3, 0xFF, 0); RUN(bfs, 8, thorough ? 34 : 26, 3, 0x00, 0);
    RUN(bfs, 16, 19, 3, 0xFF, 0); RUN(bfs, 16, 34, thorough ? 3 : 2, 0x00, 0); RUN(bfs, 32, 34, thorough ? 3 : 2, 0xFF, 0); RUN(bfs, 64, 66, thorough && !heavy ? 3 : 2, 0xFF, 0);
#endif
    for (int W : VF_WORDS) {
        const int N = W == 8 ? 34 : W == 16 ? 50 : W == 32 ? 67 : 131;
        for (int n = 0; n <= N; ++n) {
            if (W >= 32 && !thorough && VF_PROP != 19) { int r = n % W; if (!(r <= 1 || r >= W - 1)) continue; }
            std::vector<int> ns; auto near = [&](int x) { int r = x % W; return r <= 1 || r >= W - 2 || r == W / 2; };
            const bool some = VF_PROP == 19 || thorough;
            for (int how = 0; how < 6; ++how) {
#ifdef VF_FEW
                if (!thorough && how != n % 6) continue;
#endif
                if (VF_PROP == 22 && !thorough && how != n % 6 && how != (n + 3) % 6) continue;
                if (W >= 32 && !(near(n) || thorough)) { if (how != n % 6) continue; }
                std::vector<int> pos; for (int p = 0; p <= n; ++p) if (W <= 16 || near(p) || p == n || p == n - 1 || (p + n) % (some ? 7 : 13) == 0) pos.push_back(p);
                std::vector<int> cnt; for (int c = 0; c <= 2 * W + 2; ++c) if (W <= 8 || c <= 2 || near(c) || (c + n) % (some ? 9 : 17) == 0) cnt.push_back(c);
                for (int p : pos) {
                    RUN(single, W, n, how, INS, p, p & 1, 0);
                    if (p < n) { RUN(single, W, n, how, ER, p, 0, 0); RUN(single, W, n, how, WR, p, 1, 0); RUN(single, W, n, how, WRAT, p, 0, 0); }
                    for (int c : cnt) { RUN(single, W, n, how, INSN, p, c, (p + c) & 1); RUN(single, W, n, how, INSR, p, (p * 3 + c) % (2 * W), c); if (VF_PROP == 19) RUN(single, W, n, how, INSN, p, c, (p + c + 1) & 1); }
                    for (int l : pos) if (l >= p) RUN(single, W, n, how, ERR, p, l, 0);
                }
                for (int c = 0; c <= n + 2 * W + 2; ++c) { RUN(single, W, n, how, RES, c, 0, 0); RUN(single, W, n, how, RESV, c, 0, 0); RUN(single, W, n, how, RESV, c, 1, 0); RUN(single, W, n, how, RESERVE, c, 0, 0); }
                for (int x = 0; x < 2; ++x) { RUN(single, W, n, how, PUSH, x, 0, 0); if (n) { RUN(single, W, n, how, FRONT, x, 0, 0); RUN(single, W, n, how, BACK, x, 0, 0); } }
                if (n) RUN(single, W, n, how, POP, 0, 0, 0);
                for (int k : {CLEAR, SHRINK, SELF, COPYBACK, MOVEBACK}) RUN(single, W, n, how, k, 0, 0, 0);
                for (int s = 0; s < 6; ++s) { RUN(single, W, n, how, CPA, s, 0, 0); RUN(single, W, n, how, MVA, s, 0, 0); }
            }
        }
    }
#if VF_PROP == 24
    for (int W : VF_WORDS) { for (int r = 0; r < 3; ++r) for (int k = 0; k < 4; ++k) RUN(append, W, r, k); for (int n = 0; n <= (W == 8 ? 60 : 3 * W + 2); ++n) for (int k = 0; k < 8; ++k) RUN(ctor, W, n, k); }
#endif
#if VF_PROP == 23
    for (int W : VF_WORDS) { for (int n = 0; n <= 2 * W + 2; ++n) for (int k = 0; k < 14; ++k) RUN(ctorfail, W, n, k); for (int n = 0; n <= 2 * W + 2; ++n) for (int k = 0; k < 8; ++k) RUN(huge, W, n, k);
        for (int n = 0; n <= 2 * W + 2; ++n) for (int m = 0; m <= 2 * W + 2; ++m) { if (W > 16 && n % W > 1 && n % W < W - 1 && (m + n) % 5) continue; for (int F = 0; F < 4; ++F) for (int mv = 0; mv < 2; ++mv) RUN(unequal, W, n, m, F, mv); } }
#endif
    sample("bfs 8 9: every operation from every container state of at most 9 bits in bytes, unused bits and words included");
    sample("single 32 40 2 insert_n(31,34,1): insert 34 ones at 31 into 40 bits left by a shrinking resize");
}
VF_MAIN
