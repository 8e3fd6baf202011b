// Bit-plane model of memory.
//
// The model of a memory of N bits is an array of N 64-bit numbers: number i holds
// bit i of up to 64 memory images ("contents") at once.  The reference
// implementation of an algorithm moves those numbers with plain loops, so one
// run of it predicts the result for all contents; the real code is then run once
// per content on the packed memory and compared bit for bit.
//
// Content sets:
//  * full(N): all 2^N images (N <= 16).
//  * coded(N): bit j of a number identifying position i, for all j, and the
//    complements: together they identify which source position every result bit
//    came from, for code that only routes bits.  Plus all zeros, all ones,
//    alternating, single-run images, and pseudo-random images.
#pragma once
#include "vf.hpp"
#include "bits.hpp"
#include <memory>

namespace vf {
typedef std::uint64_t Plane;

inline std::uint64_t transpose8(std::uint64_t x) {   // byte j bit k <-> byte k bit j
    std::uint64_t t;
    t = (x ^ (x >> 7)) & 0x00AA00AA00AA00AAull; x = x ^ t ^ (t << 7);
    t = (x ^ (x >> 14)) & 0x0000CCCC0000CCCCull; x = x ^ t ^ (t << 14);
    t = (x ^ (x >> 28)) & 0x00000000F0F0F0F0ull; x = x ^ t ^ (t << 28);
    return x;
}
// packed[p] gets the N bits of content p (N multiple of 8), least significant first
inline void pack(const Plane* pl, int N, int P, std::vector<unsigned char>& out, int stride) {
    out.resize((size_t)stride * ((P + 7) / 8 * 8));
    for (int g = 0; g * 8 < P; ++g)
        for (int b = 0; b < N / 8; ++b) {
            std::uint64_t x = 0;
            for (int j = 0; j < 8; ++j) x |= ((pl[8 * b + j] >> (8 * g)) & 0xff) << (8 * j);
            x = transpose8(x);
            for (int k = 0; k < 8; ++k) out[(size_t)(8 * g + k) * stride + b] = (unsigned char)(x >> (8 * k));
        }
}
struct Chunk { int P; std::vector<Plane> planes; std::vector<unsigned char> packed; };
struct Contents { int N, stride; std::vector<Chunk> chunks; ull count() const { ull c = 0; for (auto& k : chunks) c += k.P; return c; } };


inline void finish(Contents& C) { for (auto& k : C.chunks) pack(k.planes.data(), C.N, k.P, k.packed, C.stride); }
inline Contents full(int N) {
    Contents C{N, N / 8, {}};
    for (ull base = 0; base < (1ull << N); base += 64) {
        Chunk k{64, std::vector<Plane>(N), {}};
        for (int p = 0; p < 64; ++p) for (int i = 0; i < N; ++i) k.planes[i] |= (Plane)(((base + p) >> i) & 1) << p;
        C.chunks.push_back(std::move(k));
    }
    finish(C); return C;
}
inline Contents coded(int N, int nrandom) {
    int bits = 1; while ((1 << bits) < N + 2) ++bits;
    std::vector<std::vector<unsigned char>> im;
    auto add = [&](auto f) { std::vector<unsigned char> v(N); for (int i = 0; i < N; ++i) v[i] = f(i) & 1; im.push_back(v); };
#ifndef VF_FEW
    for (int j = 0; j < bits; ++j) { add([&](int i) { return (i + 1) >> j; }); add([&](int i) { return ~((i + 1) >> j); }); }
#endif
    add([](int) { return 0; }); add([](int) { return 1; });
    for (int r = 0; r < nrandom; ++r) add([&](int i) { return (int)(mix(seed * 1000003 + r * 7919 + (i >> 6)) >> (i & 63)); });
    Contents C{N, N / 8, {}};
    for (size_t b = 0; b < im.size(); b += 64) {
        int P = (int)std::min<size_t>(64, im.size() - b);
        Chunk k{P, std::vector<Plane>(N), {}};
        for (int p = 0; p < P; ++p) for (int i = 0; i < N; ++i) k.planes[i] |= (Plane)im[b + p][i] << p;
        C.chunks.push_back(std::move(k));
    }
    finish(C); return C;
}
// cache of content sets
inline const Contents& contents(int N, int kind) {   // kind >= 0: coded with that many random images; -1: full
    static std::map<std::pair<int,int>, std::unique_ptr<Contents>> m;
    auto& p = m[{N, kind}];
    #ifdef VF_FEW                                          // monitored builds: contents matter less than geometries
    if (!p) p.reset(new Contents(coded(N, kind < 0 ? 4 : std::min(kind, 4))));
#endif
    if (!p) p.reset(new Contents(kind < 0 ? full(N) : coded(N, kind)));
    return *p;
}
inline std::string bits(const unsigned char* p, int N) { std::string s; for (int i = 0; i < N && i < 640; ++i) s += (p[i / 8] >> (i % 8) & 1) ? '1' : '0'; return s; }
inline std::string show_bits(const unsigned char* m, int lo, int hi) { std::string s; for (int i = lo; i < hi; ++i) s += (m[i / 8] >> (i % 8) & 1) ? '1' : '0'; return s; }

// 64-byte aligned work area; words start at byte offset `align`
inline unsigned char* area() {
    static unsigned char* a = (unsigned char*)aligned_alloc(4096, 1 << 20);
#if VF_ITER == 2
    Seg::flat() = a;
#endif
    return a + 4096;
}

// Explore all contents of one geometry.
//  real():        runs the code under test on mem (N/8 bytes), returns an index
//  model(pl, dc): applies the reference to planes, marks unspecified bits in dc, returns the expected index
template <class Real, class Model>
inline void explore(int N, int kind, unsigned char* mem, Real real, Model model) {
    const Contents& C = contents(N, kind); VF_SEQUENCE(mem, N / 8);
    static std::vector<Plane> pl; static std::vector<unsigned char> exp, dc, dcp; static std::vector<Plane> dcpl;
    pl.resize(N); dc.assign(N, 0);
    const int nb = N / 8;
    bool have_dc = false, first = true;
    for (const Chunk& k : C.chunks) {
        memcpy(pl.data(), k.planes.data(), N * sizeof(Plane));
        ll want = model(pl.data(), dc.data());
        if (first) {
            first = false; dcp.assign(nb, 0xff);
            for (int i = 0; i < N; ++i) if (dc[i]) { have_dc = true; dcp[i / 8] &= (unsigned char)~(1 << (i % 8)); }
        }
        pack(pl.data(), N, k.P, exp, C.stride);
        for (int p = 0; p < k.P; ++p) {
            const unsigned char* in = &k.packed[(size_t)p * C.stride]; const unsigned char* ex = &exp[(size_t)p * C.stride];
            memcpy(mem, in, nb); VF_SCATTER(mem, nb);
            ll got = real();
            VF_GATHER(mem, nb);
            ++nevals;
            bool bad = got != want;
            if (!bad) {
                if (!have_dc) bad = memcmp(mem, ex, nb) != 0;
                else for (int i = 0; i < nb; ++i) if ((mem[i] ^ ex[i]) & dcp[i]) { bad = true; break; }
            }
            if (bad) {
                int d = -1; for (int i = 0; i < N && d < 0; ++i) if (((mem[i / 8] ^ ex[i / 8]) & dcp[i / 8]) >> (i % 8) & 1) d = i;
                int lo = d < 0 ? 0 : std::max(0, d - 40), hi = std::min(N, lo + 160);
                fail(fmt("returned index %lld expected %lld; first wrong bit %d; bits [%d,%d) before %s expected %s got %s", got, want, d, lo, hi,
                         show_bits(in, lo, hi).c_str(), show_bits(ex, lo, hi).c_str(), show_bits(mem, lo, hi).c_str()));
            }
        }
    }
}
} // namespace vf
