// Access to the code under test: iterators over raw memory, index conversion.
#pragma once
#include "vf.hpp"
#include "bitlib/bitlib.hpp"
#include <vector>
#include <memory>

#ifndef VF_ITER
#define VF_ITER 0    // 0: the container's word iterator, 1: raw word pointers, 2: words in separate blocks (like a deque), 3: iterators that know the ends of their sequence
#endif
#if VF_ITER == 2
#ifndef VF_SEG
#define VF_SEG 24    // bytes per block, a multiple of 8
#endif
namespace vf {
// The harness works on a flat image of the memory.  An iterator holds an address in
// that image; the word it denotes lies in blocks of VF_SEG bytes, placed downwards,
// with 8 guard bytes between two blocks.
struct Seg {
    static constexpr std::size_t SZ = 1 << 20, NB = SZ / VF_SEG + 2, STEP = VF_SEG + 8;
    static unsigned char*& flat() { static unsigned char* f; return f; }
    static unsigned char* phys() { static unsigned char* p = (unsigned char*)memset(aligned_alloc(4096, (NB * STEP + 8191) / 4096 * 4096), 0x5A, NB * STEP); return p; }
    static unsigned char* at(const void* a) { std::size_t o = (const unsigned char*)a - flat(); return phys() + (NB - 1 - o / VF_SEG) * STEP + o % VF_SEG; }
    template <class F> static void blocks(unsigned char* m, std::size_t n, F f) { for (std::size_t i = 0; i < n;) { std::size_t k = VF_SEG - (m + i - flat()) % VF_SEG; if (k > n - i) k = n - i; f(m + i, at(m + i), k); i += k; } }
    static void scatter(unsigned char* m, std::size_t n) { blocks(m, n, [](unsigned char* a, unsigned char* p, std::size_t k) { memcpy(p, a, k); }); }
    static void gather(unsigned char* m, std::size_t n) {
        blocks(m, n, [](unsigned char* a, unsigned char* p, std::size_t k) { memcpy(a, p, k); });
        std::size_t b0 = (m - flat()) / VF_SEG, b1 = (m + n - flat()) / VF_SEG;
        for (std::size_t b = b0; b <= b1; ++b) for (int j = 0; j < 8; ++j) { unsigned char& g = phys()[(NB - 1 - b) * STEP + VF_SEG + j]; if (g != 0x5A) { g = 0x5A; fail("wrote between two blocks of words"); } }
    }
};
template <class T> class SegIt {
    T* p;
public:
    typedef std::random_access_iterator_tag iterator_category; typedef typename std::remove_cv<T>::type value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
    SegIt() : p() {} explicit SegIt(T* q) : p(q) {} template <class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type> SegIt(const SegIt<U>& o) : p(o.raw()) {}
    T* raw() const { return p; }
    T& operator*() const { return *(T*)Seg::at(p); } T* operator->() const { return (T*)Seg::at(p); } T& operator[](difference_type n) const { return *(T*)Seg::at(p + n); }
    SegIt& operator++() { ++p; return *this; } SegIt operator++(int) { SegIt t = *this; ++p; return t; } SegIt& operator--() { --p; return *this; } SegIt operator--(int) { SegIt t = *this; --p; return t; }
    SegIt& operator+=(difference_type n) { p += n; return *this; } SegIt& operator-=(difference_type n) { p -= n; return *this; }
    friend SegIt operator+(SegIt a, difference_type n) { return SegIt(a.p + n); } friend SegIt operator+(difference_type n, SegIt a) { return SegIt(a.p + n); } friend SegIt operator-(SegIt a, difference_type n) { return SegIt(a.p - n); }
    template <class U> difference_type operator-(const SegIt<U>& o) const { return p - o.raw(); }
    template <class U> bool operator==(const SegIt<U>& o) const { return p == o.raw(); } template <class U> bool operator!=(const SegIt<U>& o) const { return p != o.raw(); }
    template <class U> bool operator<(const SegIt<U>& o) const { return p < o.raw(); } template <class U> bool operator>(const SegIt<U>& o) const { return p > o.raw(); }
    template <class U> bool operator<=(const SegIt<U>& o) const { return p <= o.raw(); } template <class U> bool operator>=(const SegIt<U>& o) const { return p >= o.raw(); }
};
}
#define VF_SCATTER(m, n) ::vf::Seg::scatter(m, n)
#define VF_GATHER(m, n) ::vf::Seg::gather(m, n)
#else
#define VF_SCATTER(m, n) (void)0
#define VF_GATHER(m, n) (void)0
#endif
#if VF_ITER == 3
namespace vf {
// The sequence of words under test; an iterator must stay between its ends, and no access may be made at its end.
struct Strict {
    static unsigned char*& lo() { static unsigned char* p; return p; } static unsigned char*& hi() { static unsigned char* p; return p; }
    static void set(unsigned char* m, std::size_t n) { lo() = m; hi() = m + n; }
};
template <class T> class StrictIt {
    T* p;
    static constexpr std::ptrdiff_t B = (std::ptrdiff_t)sizeof(T);
    T* moved(std::ptrdiff_t n) const {
        const std::ptrdiff_t back = ((unsigned char*)p - Strict::lo()) / B, fwd = (Strict::hi() - (unsigned char*)p) / B;
        if (n < -back || n > fwd) fail(fmt("moved a word iterator by %lld, %lld words behind the beginning and %lld words before the end of its sequence", (ll)n, (ll)back, (ll)fwd));
        return p + n;
    }
    T* live(std::ptrdiff_t n = 0) const {
        T* q = moved(n); if ((unsigned char*)q >= Strict::hi()) fail("accessed the word at the end of the sequence");
        return q;
    }
public:
    typedef std::random_access_iterator_tag iterator_category; typedef typename std::remove_cv<T>::type value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
    StrictIt() : p() {} explicit StrictIt(T* q) : p(q) {} template <class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type> StrictIt(const StrictIt<U>& o) : p(o.raw()) {}
    T* raw() const { return p; }
    T& operator*() const { return *live(); } T* operator->() const { return live(); } T& operator[](difference_type n) const { return *live(n); }
    StrictIt& operator++() { p = moved(1); return *this; } StrictIt operator++(int) { StrictIt t = *this; p = moved(1); return t; } StrictIt& operator--() { p = moved(-1); return *this; } StrictIt operator--(int) { StrictIt t = *this; p = moved(-1); return t; }
    StrictIt& operator+=(difference_type n) { p = moved(n); return *this; } StrictIt& operator-=(difference_type n) { if (n == PTRDIFF_MIN) fail("moved a word iterator by the largest negative number"); p = moved(-n); return *this; }
    friend StrictIt operator+(StrictIt a, difference_type n) { a += n; return a; } friend StrictIt operator+(difference_type n, StrictIt a) { a += n; return a; } friend StrictIt operator-(StrictIt a, difference_type n) { a -= n; return a; }
    template <class U> difference_type operator-(const StrictIt<U>& o) const { return p - o.raw(); }
    template <class U> bool operator==(const StrictIt<U>& o) const { return p == o.raw(); } template <class U> bool operator!=(const StrictIt<U>& o) const { return p != o.raw(); }
    template <class U> bool operator<(const StrictIt<U>& o) const { return p < o.raw(); } template <class U> bool operator>(const StrictIt<U>& o) const { return p > o.raw(); }
    template <class U> bool operator<=(const StrictIt<U>& o) const { return p <= o.raw(); } template <class U> bool operator>=(const StrictIt<U>& o) const { return p >= o.raw(); }
};
}
#define VF_SEQUENCE(m, n) ::vf::Strict::set(m, n)
#else
#define VF_SEQUENCE(m, n) (void)0
#endif
namespace vf {
template <class W> struct WordIter {
#if VF_ITER == 0
    typedef typename std::vector<W>::iterator base;
    static base make(W* p) { return base(p); }
    static W* ptr(base b) { return b.base(); }
#elif VF_ITER == 2
    typedef SegIt<W> base;
    static base make(W* p) { return base(p); }
    static W* ptr(base b) { return b.raw(); }
#elif VF_ITER == 3
    typedef StrictIt<W> base;
    static base make(W* p) { return base(p); }
    static W* ptr(base b) { return b.raw(); }
#else
    typedef W* base;
    static base make(W* p) { return p; }
    static W* ptr(base b) { return b; }
#endif
};
template <class W> using It = bit::bit_iterator<typename WordIter<W>::base>;
template <class W> constexpr int dig() { return (int)(sizeof(W) * 8); }
// iterator to bit i of the words at m
template <class W> inline It<W> at(unsigned char* m, ll i) {
    constexpr ll d = dig<W>(); ll w = i / d, r = i % d; if (r < 0) { r += d; --w; }
    return It<W>(WordIter<W>::make(reinterpret_cast<W*>(m) + w), (std::size_t)r);
}
// index of the bit an iterator denotes; an impossible position gives an impossible index
template <class W> inline ll index(unsigned char* m, It<W> i) {
    if (i.position() >= (std::size_t)dig<W>()) return -1000000 - (ll)i.position();
    return (WordIter<W>::ptr(i.base()) - reinterpret_cast<W*>(m)) * (ll)dig<W>() + (ll)i.position();
}
inline bit::bit_value bv(bool b) { return b ? bit::bit1 : bit::bit0; }

// word types of a build: VF_ONLY=128: 128 bits, VF_LONGLONG: the other type of 64 bits
#if defined VF_ONLY && VF_ONLY == 128
#define VF_WIDE
#define VF_WORDS {128}
typedef unsigned __int128 Wide;
#define VF_CASE128(F, ...) case 128: F< ::vf::Wide>(__VA_ARGS__); break;
#else
#define VF_WORDS {8, 16, 32, 64}
#define VF_CASE128(F, ...)
#endif
#ifdef VF_LONGLONG
typedef unsigned long long Word64;
#else
typedef std::uint64_t Word64;
#endif
// call f.template operator()<W>() for the word width in bits
#define VF_DISPATCH(width, F, ...) do { switch (width) { VF_CASE128(F, __VA_ARGS__) \
    case 8: F<std::uint8_t>(__VA_ARGS__); break; case 16: F<std::uint16_t>(__VA_ARGS__); break; \
    case 32: F<std::uint32_t>(__VA_ARGS__); break; case 64: F< ::vf::Word64>(__VA_ARGS__); break; \
    default: ::vf::fail("bad word width"); } } while (0)

// "interesting" positions in a word: all of them for full, else borders and middle
inline std::vector<int> positions(int digits, bool full) {
    std::vector<int> v;
    for (int i = 0; i < digits; ++i)
        if (full || digits <= 8 || i < 2 || i >= digits - 2 || i == 7 || i == 8 || i == digits / 2 - 1 || i == digits / 2 || i == digits / 2 + 1 || i == 5) v.push_back(i);
    return v;
}
template <class T> inline void uniq(std::vector<T>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
} // namespace vf
