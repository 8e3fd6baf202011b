// Deterministic memory for the code under test.  While `on`, operator new hands out
// fixed slots of an arena: every block is observed, filled with a pattern, surrounded
// by guard bytes, and can be saved and restored, so that the state of containers
// (object bytes plus owned blocks) can be stored, compared and returned to.
// Allocation number `fail_at` (counted from 1) throws std::bad_alloc.
#pragma once
#include "vf.hpp"
#include <new>

namespace vf { namespace arena {
#ifndef VF_SLOT
#define VF_SLOT 512
#endif
enum { SLOTS = 12, SLOT = VF_SLOT, PAD = 64 };
struct Slots {                                    // memory addressed as a whole (slots as rows would bound each address)
    alignas(4096) unsigned char all[SLOTS * SLOT];
    unsigned char* operator[](std::size_t s) { return all + s * SLOT; }
};
inline Slots mem;
struct Meta { std::uint32_t size[SLOTS]; std::uint16_t tag[SLOTS]; };       // requested size + 1 (0 = free), owner
inline Meta meta{};
inline bool on = false;
inline unsigned char pattern = 0xA5;
inline ll allocs = 0, frees = 0, alloc_bytes = 0, fail_at = 0;
inline const char* error = nullptr;
inline ll news = 0;                               // calls of the global operator new
inline bool inside(const void* p) { return (const unsigned char*)p >= mem[0] && (const unsigned char*)p < mem[0] + sizeof mem; }
inline void* take(std::size_t n, int tag = 0) {
    ++allocs; alloc_bytes = (ll)((ull)alloc_bytes + n);
    if (fail_at && allocs == fail_at) throw std::bad_alloc();
    if (n > SLOT - 2 * PAD) throw std::bad_alloc();
    for (int s = 0; s < SLOTS; ++s) if (!meta.size[s]) { meta.size[s] = (std::uint32_t)n + 1; meta.tag[s] = (std::uint16_t)tag; memset(mem[s], 0xC3, SLOT); memset(mem[s] + PAD, pattern, n); return mem[s] + PAD; }
    throw std::bad_alloc();
}
inline void give(void* p, ll n) {
    ++frees; const std::size_t off = (unsigned char*)p - mem[0], s = off / SLOT;
    if (off % SLOT != PAD || !meta.size[s]) { error = "freed a block that is not allocated"; return; }
    if (n >= 0 && (std::uint32_t)n + 1 != meta.size[s]) error = "freed a block with another size than it was allocated with";
    memset(mem[s], 0xDD, SLOT); meta.size[s] = 0;
}
inline int live() { int c = 0; for (int s = 0; s < SLOTS; ++s) c += meta.size[s] != 0; return c; }
inline int slot_of(const void* p) { if (!inside(p)) return -1; return (int)(((const unsigned char*)p - mem[0]) / SLOT); }
inline std::size_t block_size(int s) { return meta.size[s] - 1; }
inline bool guards_ok() {
    for (int s = 0; s < SLOTS; ++s) if (meta.size[s]) {
        const std::size_t n = block_size(s);
        for (std::size_t i = 0; i < PAD; ++i) if (mem[s][i] != 0xC3) return false;
        const std::size_t e = n + PAD + 64 > SLOT ? (std::size_t)SLOT : n + PAD + 64;
        for (std::size_t i = PAD + n; i < e; ++i) if (mem[s][i] != 0xC3) return false;
    }
    return true;
}
struct Scope { bool was; Scope(bool b = true) : was(on) { on = b; } ~Scope() { on = was; } };
}}
#ifndef VF_ARENA_NO_NEW
void* operator new(std::size_t n) { ++vf::arena::news; if (vf::arena::on) return vf::arena::take(n); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (vf::arena::inside(p)) vf::arena::give(p, -1); else free(p); }
void operator delete(void* p, std::size_t n) noexcept { if (vf::arena::inside(p)) vf::arena::give(p, (vf::ll)n); else free(p); }
#endif

namespace vf {
// State of K objects of type T placed at fixed storage, plus all live blocks.
struct Snap { std::vector<unsigned char> b; };
template <class T, int K> struct Roots {
    alignas(64) static inline unsigned char st[K][(sizeof(T) + 63) / 64 * 64];
    static T& get(int k) { return *std::launder(reinterpret_cast<T*>(st[k])); }
    static void save(std::vector<unsigned char>& out) {
        out.clear(); for (int k = 0; k < K; ++k) out.insert(out.end(), st[k], st[k] + sizeof(T));
        for (int s = 0; s < arena::SLOTS; ++s) if (arena::meta.size[s]) { std::uint16_t h[3] = {(std::uint16_t)s, (std::uint16_t)arena::meta.size[s], arena::meta.tag[s]}; out.insert(out.end(), (unsigned char*)h, (unsigned char*)h + 6); out.insert(out.end(), arena::mem[s] + arena::PAD, arena::mem[s] + arena::PAD + arena::block_size(s)); }
    }
    static void load(const unsigned char* p, const unsigned char* e) {
        for (int k = 0; k < K; ++k) { memcpy(st[k], p, sizeof(T)); p += sizeof(T); }
        std::uint32_t old[arena::SLOTS]; memcpy(old, arena::meta.size, sizeof old); memset(arena::meta.size, 0, sizeof old);
        while (p < e) { std::uint16_t h[3]; memcpy(h, p, 6); p += 6; const int s = h[0]; const std::size_t n = h[1] - 1u; if (old[s] != h[1]) { memset(arena::mem[s], 0xC3, arena::PAD); memset(arena::mem[s] + arena::PAD + n, 0xC3, std::min<std::size_t>(64, arena::SLOT - arena::PAD - n)); } arena::meta.size[s] = h[1]; arena::meta.tag[s] = h[2]; memcpy(arena::mem[s] + arena::PAD, p, n); p += n; }
        for (int s = 0; s < arena::SLOTS; ++s) if (old[s] && !arena::meta.size[s]) memset(arena::mem[s], 0xDD, arena::SLOT);
        arena::error = nullptr;
    }
    // 128-bit fingerprint, independent of which slots the blocks occupy
    static std::pair<std::uint64_t, std::uint64_t> key(std::uint64_t extra = 0) {
        std::uint64_t a = 0x1234567 + extra, b = 0x9876543 ^ extra; auto put = [&](std::uint64_t x) { a = mix(a ^ x) * 0x9ddfea08eb382d69ull; b = mix(b + x * 0xc2b2ae3d27d4eb4full); };
        int name[arena::SLOTS]; for (int& n : name) n = -1; int names = 0; int order[arena::SLOTS];
        for (int k = 0; k < K; ++k) for (std::size_t o = 0; o + 8 <= sizeof(T); o += 8) {
            std::uint64_t x; memcpy(&x, st[k] + o, 8); const int s = arena::slot_of((void*)x);
            if (s >= 0 && arena::meta.size[s]) { if (name[s] < 0) { order[names] = s; name[s] = names++; } put(0x8000000000000000ull | (std::uint64_t)name[s] << 32 | (x - (std::uint64_t)(arena::mem[s]))); }
            else put(x);
        }
        for (int i = 0; i < names; ++i) { const int s = order[i]; const std::size_t n = arena::block_size(s); put(n); put(arena::meta.tag[s]); for (std::size_t j = 0; j < n; j += 8) { std::uint64_t x = 0; memcpy(&x, arena::mem[s] + arena::PAD + j, std::min<std::size_t>(8, n - j)); put(x); } }
        return {a, b};
    }
};
// open-addressing set of 128-bit fingerprints
struct KeySet {
    std::vector<std::pair<std::uint64_t, std::uint64_t>> t; std::size_t n = 0; KeySet() : t(1 << 12) {}
    bool insert(std::pair<std::uint64_t, std::uint64_t> k) {
        if (!k.first && !k.second) k.first = 1;
        if (n * 2 > t.size()) { auto old = std::move(t); t.assign(old.size() * 4, {}); for (auto& x : old) if (x.first || x.second) put(x); }
        return put(k) ? (++n, true) : false;
    }
    bool put(const std::pair<std::uint64_t, std::uint64_t>& k) { std::size_t m = t.size() - 1, i = k.first & m; while (t[i].first || t[i].second) { if (t[i] == k) return false; i = (i + 1) & m; } t[i] = k; return true; }
};
// storage of states: concatenated snapshots
struct StateStore {
    std::vector<unsigned char> bytes; std::vector<std::uint64_t> off{0}; std::vector<std::uint32_t> parent, op;
    std::size_t size() const { return off.size() - 1; }
    void add(const std::vector<unsigned char>& s, std::uint32_t p, std::uint32_t o) { bytes.insert(bytes.end(), s.begin(), s.end()); off.push_back(bytes.size()); parent.push_back(p); op.push_back(o); }
    const unsigned char* at(std::size_t i) const { return bytes.data() + off[i]; }
};
} // namespace vf
