// The operations run by the threads of C15: compiled with access instrumentation
// into a shared object of its own, so that every variable the library keeps
// (statics, guards) lies in this object and can be reset between executions.
#include "bitlib/bitlib.hpp"
#include <sstream>
#include <numeric>
#include <algorithm>
typedef long long ll; typedef unsigned long long ull;
static ull h(ull a, ull b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); return a * 0xbf58476d1ce4e5b9ull; }
// area layout per thread: 6 words of its own (44 in geometries 6 and 7, long enough for vector loops);
// common words read by both: 2 (15)
template <class W> struct Run {
    typedef bit::bit_iterator<W*> I; typedef bit::bit_vector<W> V;
    static constexpr int D = sizeof(W) * 8;
    static I at(W* m, ll i) { return I(m + i / D, (std::size_t)(i % D)); }
    static ull idx(W* m, I i) { return (ull)((i.base() - m) * D + (ll)i.position()); }
    static ull go(int k, int g, W* own, W* com, const V& cv) {
        // geometry: start and length of the first range, start of the second
        const int F[10] = {0, 3, 1, D - 1, 0, 5, 0, 5, 2, D - 2}, N[10] = {2 * D, D + 2, 3, D, D - 1, 2 * D - 6, 14 * D, 13 * D + 2, D - 4, D + 2}, X[10] = {2 * D, 2 * D, 2 * D + 3, 2 * D + 1, 2 * D + D - 1, 2 * D + 5, 14 * D, 15 * D + 3, 3 * D + 1, 3 * D - 3};
        int f = F[g], n = N[g], x = X[g];
        W* src = k >= 100 ? com : own; if (k >= 100) k -= 100;
        I A = at(src, f), L = at(src, f + n), B = at(own, x), C = at(own, 4 * D + (g * 3) % D);
        if (n > 2 * D - (g * 3) % D) C = at(own, 4 * D);
        if (g == 6 || g == 7) C = at(own, 29 * D + (g == 7));
        // whole-range geometry for the operations on one range
        const int S[10] = {0, 3, 1, D - 1, D, 0, 0, 3, 3, 3}, E[10] = {6 * D, 6 * D - 2, 4, D + 3, 5 * D, 6 * D - 1, 44 * D, 44 * D - 2, 6 * D - 2, 6 * D - 2}, M[10] = {2 * D, D + 1, 1, 2, 2 * D + 3, 3 * D, 3 * D + 1, 9 * D, 5, 6 * D - 9};
        I P = at(own, S[g]), Q = at(own, E[g]);
        switch (k) {
            case 0: return idx(own, bit::copy(A, L, B));
            case 1: return idx(own, bit::move(A, L, B));
            case 2: return idx(own, bit::copy_backward(A, L, at(own, x + n)));
            case 3: bit::fill(P, Q, g & 1 ? bit::bit1 : bit::bit0); return 1;
            case 4: return idx(own, bit::shift_left(P, Q, M[g]));
            case 5: return idx(own, bit::shift_right(P, Q, M[g]));
            case 6: return idx(own, bit::rotate(P, P + M[g], Q));
            case 7: bit::reverse(P, Q); return 1;
            case 8: return idx(own, bit::swap_ranges(at(own, f), at(own, f + n), B));
            case 9: return idx(own, bit::transform(A, L, B, [](W v) { return (W)~v; }));
            case 10: return idx(own, bit::transform(A, L, B, C, [](W v, W w) { return (W)(v ^ w); }));
            case 11: return (ull)bit::count(A, L, bit::bit1) * 1000 + (ull)bit::count(A, L, bit::bit0);
            case 12: return idx(src, bit::find(A, L, g & 1 ? bit::bit1 : bit::bit0));
            case 13: return bit::equal(A, L, B) * 2 + bit::equal(A, L, A);
            case 14: { auto r = *P; auto q = *std::prev(Q); bool b = bool(r); r = q; q.flip(); r.set(b != bool(q)); bit::swap(*P, *(P + 1)); auto p = &*P; *p = bit::bit1; return h(b, (ull)(p - &*Q)); }
            // a vector of its own
            case 20: { V v; for (int i = 0; i < 3 * D / 2; ++i) v.push_back((i * 7) % 3 ? bit::bit1 : bit::bit0); ull r = v.size(); for (auto b : v) r = h(r, (ull)bool(b)); return r; }
            case 21: { V v(A, L); v.insert(v.begin() + n / 2, (std::size_t)(g + 2), bit::bit1); v.insert(v.begin() + 1, A, A + 3); v.erase(v.begin() + 1, v.begin() + 3); v.resize(v.size() + D, bit::bit1); ull r = v.size(); for (auto b : v) r = h(r, (ull)bool(b)); return r; }
            case 22: { V v(std::string("1011001110001")); V w(v); w.push_back(bit::bit1); V u(std::move(v)); u = w; std::swap(u, w); std::string s = w.debug_string(); ull r = bit::equal(w.begin(), w.end(), u.begin(), u.end()); for (char c : s) r = h(r, c); return r; }
            // the common vector, read only
            case 30: { ull r = cv.size(); for (std::size_t i = 0; i < cv.size(); ++i) r = h(r, (ull)bool(cv[i])); return r; }
            case 31: { ull r = h((ull)bool(cv.front()), (ull)bool(cv.back())); try { r = h(r, (ull)bool(cv.at(cv.size() - 1))); (void)cv.at(cv.size() + (std::size_t)g); } catch (const std::out_of_range&) { r = h(r, 5); } return r; }
            case 32: return h((ull)bit::count(cv.begin(), cv.end(), bit::bit1), (ull)(bit::find(cv.begin(), cv.end(), bit::bit1) - cv.begin()));
            case 33: { V v(cv); return h(bit::equal(v.begin(), v.end(), cv.begin(), cv.end()), v.size()); }
            case 34: { std::string s = cv.debug_string(); ull r = 0; for (char c : s) r = h(r, c); return r; }
            case 35: { V v(cv.begin() + 1, cv.end()); std::ostringstream o; o << bool(v[0]) << *v.begin(); ull r = v.size(); for (char c : o.str()) r = h(r, c); return h(r, bit::equal(v.begin(), v.end(), cv.begin() + 1)); }
        }
        return 0;
    }
};
template <class W> static bit::bit_vector<W>& common_vector() { static bit::bit_vector<W>* v = nullptr; if (!v) { v = new bit::bit_vector<W>; for (int i = 0; i < (int)sizeof(W) * 8 + 5; ++i) v->push_back((i * 5) % 7 > 3 ? bit::bit1 : bit::bit0); } return *v; }
extern "C" const int vf_kinds[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 21, 22, 30, 31, 32, 33, 34, 35, 100, 101, 102, 109, 110, 111, 112, 113};
extern "C" const int vf_nkinds = sizeof vf_kinds / sizeof *vf_kinds;
static const void* CV[4];
extern "C" void vf_setup() { CV[0] = &common_vector<std::uint8_t>(); CV[1] = &common_vector<std::uint16_t>(); CV[2] = &common_vector<std::uint32_t>(); CV[3] = &common_vector<std::uint64_t>(); }
template <class W> static ull call(int c, int k, int g, void* own, void* com) { return Run<W>::go(k, g, (W*)own, (W*)com, *(const bit::bit_vector<W>*)CV[c]); }
extern "C" ull vf_op(int width, int k, int g, void* own, void* com) {
    switch (width) { case 8: return call<std::uint8_t>(0, k, g, own, com); case 16: return call<std::uint16_t>(1, k, g, own, com); case 32: return call<std::uint32_t>(2, k, g, own, com); default: return call<std::uint64_t>(3, k, g, own, com); }
}
