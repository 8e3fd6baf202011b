// C31: operation sequences on fresh vectors (no state restored), for builds whose iterators know their container.
#include "vecmodel.hpp"
#include <optional>
static Op done[4]; static int ndone;
static std::string what() { std::string r; for (int i = 0; i < ndone; ++i) r += (i ? "; " : "") + show(done[i]); return r; }
template <class W> static void follow(const Seq& s0, int how, const Op* o, int k) {
    std::optional<bit::bit_vector<W>> v; memset(arena::meta.size, 0, sizeof arena::meta.size);
    struct End { std::optional<bit::bit_vector<W>>& v; ~End() { arena::Scope t; v.reset(); } } end{v};
    { arena::Scope t; v.emplace(); } Seq s = s0; make(*v, s, how); ndone = 0;
    for (int i = 0; i < k; ++i) {
        done[ndone++] = o[i]; const ll e = step_model(s, o[i], dig<W>()), r = step_real(*v, o[i]); ++nevals;
        VF_CHECK(e == r, "the iterator returned is at %lld; expected %lld", r, e);
    }
    look(*v, s, k == 1);
}
// word n how content depth first-operation-block
template <class W> static void seq_t(const ll* a) {
    const int n = (int)a[1], d = dig<W>(), depth = (int)a[4]; Seq s; content(s, n, (int)a[3]); describe_hook = what; sources<W>();
    const int L = depth == 1 ? n + d + 2 : std::min(n + 3, d + 3); std::vector<Op> al = alphabet(n, L, d, d == 8 && depth == 1); Op o[2];
    try {
        for (std::size_t i = 0; i < al.size(); ++i) { if ((ll)(i % 8) != a[5]) continue; tick(); o[0] = al[i];
            if (depth == 1) { follow<W>(s, (int)a[2], o, 1); continue; }
            Seq t = s; step_model(t, o[0], d); for (const Op& p : alphabet(t.n, L, d, false)) { o[1] = p; follow<W>(s, (int)a[2], o, 2); } }
    } catch (const Fail& f) { fail(what() + fmt(" on %d bits made in way %d :: ", n, (int)a[2]) + f.msg); }
}
static void seq_(const ll* a) { VF_DISPATCH(a[0], seq_t, a); }
VF_REGISTER(seq_);
void vf::enumerate() {
    const int sh = 8;
    for (int W : VF_WORDS) {
        for (int how = 0; how < 6; ++how) for (int k = 0; k < 3; ++k) for (int p : positions(W, W == 8)) { const int n = k * W + p; if (n > 2 * W + 1) continue; for (int b = 0; b < sh; ++b) { if (!thorough && W > 8 && (b - n - how) % sh) continue; RUN(seq_, W, n, how, 17, 1, b); } }
        for (int how : {0, 3, 4}) for (int n : {0, 1, W - 1, W, W + 1}) { if (W > 8 && n > 1 && !thorough) continue; for (int b = 0; b < sh; ++b) { if (!thorough && (W > 8 || n > 1) && (b - n - how) % sh % (W > 8 ? 8 : 2)) continue; RUN(seq_, W, n, how, 18, 2, b); } }
    }
    sample("seq_ 8 8 4 17 1 3: every operation of block 3 on a vector of 8 bits grown bit by bit");
}
VF_MAIN
