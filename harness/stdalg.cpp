// C30: standard algorithms on bit iterators against the same algorithms on booleans.
#include "bits.hpp"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <numeric>
#include <random>
using namespace vf;

struct Bool { typedef bool V; typedef std::vector<bool> C; static bool v(bool x) { return x; } };
struct Bit { typedef bit::bit_value V; typedef bit::bit_vector<std::uint8_t> C; static bit::bit_value v(bool x) { return bv(x); } };
typedef std::vector<ll> Log;
struct Cfg { int k, j; bool x; };     // position, second position, value
enum { FWD, BIDIR, RAND };

#define NONMOD(X) X(all_of) X(any_of) X(none_of) X(for_each) X(for_each_n) X(count) X(count_if) X(find) X(find_if) X(find_if_not) X(adjacent_find) X(is_partitioned) X(partition_point) \
    X(is_sorted) X(is_sorted_until) X(min_element) X(max_element) X(minmax_element) X(search_n) X(lower_bound) X(upper_bound) X(equal_range) X(binary_search) X(accumulate) X(reduce) X(distance_) X(copy_out) X(construct) X(arrow) X(container)
#define MOD(X) X(fill) X(fill_n) X(generate) X(generate_n) X(replace) X(replace_if) X(remove) X(remove_if) X(unique) X(rotate) X(partition) X(transform_) X(swap_ranges_) X(iter_swap_) X(copy_down) X(move_down) X(partial_sum_) X(inclusive_scan_) X(exclusive_scan_) X(adjacent_difference_) X(assign_through) X(value_roundtrip) X(adl_swap) X(istream_like)
#define BID(X) X(reverse_) X(copy_up) X(move_up) X(stable_partition_) X(inplace_merge_) X(next_permutation_) X(prev_permutation_) X(reverse_iteration) X(reverse_write)
#define RND(X) X(sort_) X(stable_sort_) X(sort_greater) X(partial_sort_) X(nth_element_) X(make_heap_) X(push_heap_) X(pop_heap_) X(sort_heap_) X(is_heap_) X(shuffle_) X(index_) X(sort_reverse)
#define TWO(X) X(equal3) X(equal4) X(mismatch3) X(mismatch4) X(lexicographical_compare_) X(search_) X(find_end_) X(find_first_of_) X(is_permutation_) X(inner_product_) X(includes_)
#define OUT(X) X(copy_) X(copy_if_) X(copy_n_) X(move_) X(remove_copy_) X(remove_copy_if_) X(replace_copy_) X(replace_copy_if_) X(unique_copy_) X(rotate_copy_) X(partition_copy_) X(transform_copy_) X(partial_sum_copy) X(adjacent_difference_copy) X(swap_between)
#define OUTB(X) X(reverse_copy_) X(copy_backward_) X(move_backward_)
#define OUTR(X) X(partial_sort_copy_) X(sample_)
#define OUT2(X) X(merge_) X(set_union_) X(set_intersection_) X(set_difference_) X(set_symmetric_difference_) X(transform2_)
#define E_(x) A_##x,
enum Alg { NONMOD(E_) N1_, MOD(E_) N2_, BID(E_) N3_, RND(E_) N4_, TWO(E_) N5_, OUT(E_) N6_, OUTB(E_) N7_, OUTR(E_) N8_, OUT2(E_) NALG };
#define S_(x) #x,
static const char* aname[] = {NONMOD(S_) "|", MOD(S_) "|", BID(S_) "|", RND(S_) "|", TWO(S_) "|", OUT(S_) "|", OUTB(S_) "|", OUTR(S_) "|", OUT2(S_) "|"};

static bool is(bool x) { return x; }
template <class R> static bool tob(const R& r) { return static_cast<bool>(r); }

// ---- one constant range
template <class K, class I> static void nonmod(int alg, I f, I l, int n, const Cfg& c, Log& o) {
    typedef typename K::V V; const V x = K::v(c.x); auto p = [&](const auto& r) { return tob(r) == c.x; };
    auto at = [&](I i) { o.push_back(std::distance(f, i)); };
    switch (alg) {
    case A_all_of: o.push_back(std::all_of(f, l, p)); break;
    case A_any_of: o.push_back(std::any_of(f, l, p)); break;
    case A_none_of: o.push_back(std::none_of(f, l, p)); break;
    case A_for_each: { ll s = 1; std::for_each(f, l, [&](const auto& r) { s = s * 3 + tob(r); }); o.push_back(s); } break;
    case A_for_each_n: { ll s = 1; at(std::for_each_n(f, c.k, [&](const auto& r) { s = s * 3 + tob(r); })); o.push_back(s); } break;
    case A_count: o.push_back(std::count(f, l, x)); break;
    case A_count_if: o.push_back(std::count_if(f, l, p)); break;
    case A_find: at(std::find(f, l, x)); break;
    case A_find_if: at(std::find_if(f, l, p)); break;
    case A_find_if_not: at(std::find_if_not(f, l, p)); break;
    case A_adjacent_find: at(std::adjacent_find(f, l)); break;
    case A_is_partitioned: o.push_back(std::is_partitioned(f, l, p)); break;
    case A_partition_point: if (std::is_partitioned(f, l, p)) at(std::partition_point(f, l, p)); break;
    case A_is_sorted: o.push_back(std::is_sorted(f, l)); break;
    case A_is_sorted_until: at(std::is_sorted_until(f, l)); break;
    case A_min_element: at(std::min_element(f, l)); break;
    case A_max_element: at(std::max_element(f, l)); break;
    case A_minmax_element: { auto r = std::minmax_element(f, l); at(r.first); at(r.second); } break;
    case A_search_n: at(std::search_n(f, l, c.k, x)); break;
    case A_lower_bound: if (std::is_sorted(f, l)) at(std::lower_bound(f, l, x)); break;
    case A_upper_bound: if (std::is_sorted(f, l)) at(std::upper_bound(f, l, x)); break;
    case A_equal_range: if (std::is_sorted(f, l)) { auto r = std::equal_range(f, l, x); at(r.first); at(r.second); } break;
    case A_binary_search: if (std::is_sorted(f, l)) o.push_back(std::binary_search(f, l, x)); break;
    case A_accumulate: o.push_back(std::accumulate(f, l, (ll)1, [](ll s, const auto& r) { return s * 2 + tob(r); })); break;
    case A_reduce: o.push_back(tob(std::accumulate(f, l, x, [](V s, V r) { return K::v(tob(s) != tob(r)); }))); break;
    case A_distance_: at(std::next(f, c.k)); o.push_back(std::distance(std::next(f, c.k), l)); o.push_back(n); break;
    case A_copy_out: { std::vector<V> t(f, l); for (auto b : t) o.push_back(tob(b)); std::vector<V> u; std::copy(f, l, std::back_inserter(u)); for (auto b : u) o.push_back(tob(b)); } break;
    case A_construct: { std::list<V> t(f, l); o.push_back((ll)t.size()); for (const auto& b : t) o.push_back(tob(b)); } break;
    case A_container: { typename K::C t; auto put = [&] { o.push_back((ll)t.size()); for (auto b : t) o.push_back(tob(b)); o.push_back(-1); };
        std::copy(f, l, std::back_inserter(t)); put(); std::copy(f, std::next(f, c.k), std::inserter(t, t.begin() + c.k)); put();
        typename K::C u(t.begin(), t.begin() + c.k); u.push_back(x); using std::swap; swap(t, u); put(); swap(u, t); t.erase(std::remove(t.begin() + std::min<int>(c.k, (int)t.size()), t.end(), x), t.end()); put();
        std::fill_n(std::back_inserter(t), c.k, x); std::sort(t.begin(), t.end()); put(); std::copy(std::make_reverse_iterator(t.end()), std::make_reverse_iterator(t.begin()), std::back_inserter(u)); t = u; put(); t.insert(t.end(), u.begin(), u.end()); put(); } break;
    case A_arrow: { I i = f; while (i != l) { V v = *i; o.push_back(tob(v)); I j = i++; o.push_back(j == i); o.push_back(tob(*j)); } } break;
    }
}
// ---- one range, modified
template <class K, int CAT, class I> static void mod(int alg, I f, I l, int n, const Cfg& c, Log& o) {
    typedef typename K::V V; const V x = K::v(c.x), y = K::v(!c.x); auto p = [&](const auto& r) { return tob(r) == c.x; };
    auto at = [&](I i) { o.push_back(std::distance(f, i)); };
    I m = std::next(f, c.k), h = std::next(f, c.j);
    auto flip = [](const auto& r) { return K::v(!tob(r)); };
    auto x2 = [](V a, V b) { return K::v(tob(a) != tob(b)); };
    switch (alg) {
    case A_fill: std::fill(f, m, x); break;
    case A_fill_n: at(std::fill_n(f, c.k, x)); break;
    case A_generate: { int i = 0; std::generate(f, m, [&] { return K::v(i++ % 3 == c.x); }); } break;
    case A_generate_n: { int i = 0; at(std::generate_n(f, c.k, [&] { return K::v(i++ % 3 == c.x); })); } break;
    case A_replace: std::replace(f, m, x, y); break;
    case A_replace_if: std::replace_if(m, l, p, y); break;
    case A_remove: { I e = std::remove(f, l, x); at(e); std::fill(e, l, x); } break;
    case A_remove_if: { I e = std::remove_if(f, l, p); at(e); std::fill(e, l, x); } break;
    case A_unique: { I e = std::unique(f, l); at(e); std::fill(e, l, x); } break;
    case A_rotate: at(std::rotate(f, m, l)); break;
    case A_partition: at(std::partition(f, l, p)); break;
    case A_transform_: at(std::transform(f, m, f, flip)); break;
    case A_swap_ranges_: { int k = std::min(c.k, n - c.k); at(std::swap_ranges(f, std::next(f, k), std::next(f, n - k))); } break;
    case A_iter_swap_: if (c.k < n && c.j < n) std::iter_swap(m, h); break;
    case A_copy_down: at(std::copy(m, l, f)); break;
    case A_move_down: at(std::move(m, l, f)); break;
    case A_partial_sum_: at(std::partial_sum(f, m, f, x2)); break;
    case A_inclusive_scan_: at(std::inclusive_scan(f, m, f, x2, x)); break;
    case A_exclusive_scan_: at(std::exclusive_scan(f, m, f, x, x2)); break;
    case A_adjacent_difference_: at(std::adjacent_difference(f, m, f, x2)); break;
    case A_assign_through: { if (c.k < n && c.j < n) { *m = x; *h = *m; V v = *h; *m = y; o.push_back(tob(v)); *h = v; *m = *h; } } break;
    case A_value_roundtrip: { if (c.k < n && c.j < n) { V a = std::move(*m), b = std::move(*h); *m = std::move(b); *h = std::move(a); } } break;
    case A_adl_swap: { if (c.k < n && c.j < n) { using std::swap; swap(*m, *h); V t = x; swap(t, *m); swap(*h, t); o.push_back(tob(t)); } } break;
    case A_istream_like: { I i = f; int q = 0; while (i != l) { *i++ = K::v(q++ % 2 == c.x); } at(i); } break;
    default:
    if constexpr (CAT >= BIDIR) switch (alg) {
    case A_reverse_: std::reverse(f, m); break;
    case A_copy_up: { I r = std::copy_backward(f, m, l); at(r); } break;
    case A_move_up: { I r = std::move_backward(f, m, l); at(r); } break;
    case A_stable_partition_: at(std::stable_partition(f, l, p)); break;
    case A_inplace_merge_: if (std::is_sorted(f, m) && std::is_sorted(m, l)) std::inplace_merge(f, m, l); break;
    case A_next_permutation_: o.push_back(std::next_permutation(f, l)); break;
    case A_prev_permutation_: o.push_back(std::prev_permutation(f, l)); break;
    case A_reverse_iteration: { auto r = std::make_reverse_iterator(l), e = std::make_reverse_iterator(f); ll s = 1; for (; r != e; ++r) s = s * 2 + tob(*r); o.push_back(s); auto g = std::find_if(std::make_reverse_iterator(l), e, p); at(g.base()); } break;
    case A_reverse_write: { auto r = std::make_reverse_iterator(m); std::fill(r, std::make_reverse_iterator(f), x); if (c.j <= c.k) std::copy(std::make_reverse_iterator(l), std::make_reverse_iterator(m), std::make_reverse_iterator(l)); } break;
    default:
    if constexpr (CAT >= RAND) switch (alg) {
    case A_sort_: std::sort(f, l); break;
    case A_stable_sort_: std::stable_sort(f, l); break;
    case A_sort_greater: std::sort(m, l, [](const auto& a, const auto& b) { return tob(a) > tob(b); }); break;
    case A_sort_reverse: std::sort(std::make_reverse_iterator(m), std::make_reverse_iterator(f)); break;
    case A_partial_sort_: std::partial_sort(f, m, l); { auto t = l; std::fill(m, t, x); } break;
    case A_nth_element_: if (c.k < n) { std::nth_element(f, m, l); o.push_back(tob(*m)); std::sort(f, m); std::sort(m, l); } break;
    case A_make_heap_: std::make_heap(f, l); o.push_back(std::is_heap(f, l)); break;
    case A_push_heap_: if (c.k < n) { std::make_heap(f, m); std::push_heap(f, m + 1); o.push_back(std::is_heap(f, m + 1)); } break;
    case A_pop_heap_: if (c.k) { std::make_heap(f, m); std::pop_heap(f, m); o.push_back(tob(*(m - 1))); } break;
    case A_sort_heap_: std::make_heap(f, m); std::sort_heap(f, m); break;
    case A_is_heap_: o.push_back(std::is_heap(f, l)); at(std::is_heap_until(f, l)); break;
    case A_shuffle_: { std::minstd_rand g(1 + c.k); std::shuffle(f, l, g); } break;
    case A_index_: if (c.k < n && c.j < n) { f[c.k] = x; m[c.j - c.k] = f[c.k]; o.push_back(tob(h[c.k - c.j])); o.push_back(h - m); o.push_back(m < h); o.push_back((l - c.k) - f); o.push_back(c.k + f == m); } break;
    } } }
}
// ---- two constant ranges
template <class K, class I, class J> static void two(int alg, I f, I l, int n, J g, J q, int m, const Cfg&, Log& o) {
    auto at = [&](I i) { o.push_back(std::distance(f, i)); };
    switch (alg) {
    case A_equal3: if (m >= n) o.push_back(std::equal(f, l, g)); break;
    case A_equal4: o.push_back(std::equal(f, l, g, q)); break;
    case A_mismatch3: if (m >= n) { auto r = std::mismatch(f, l, g); at(r.first); o.push_back(std::distance(g, r.second)); } break;
    case A_mismatch4: { auto r = std::mismatch(f, l, g, q); at(r.first); o.push_back(std::distance(g, r.second)); } break;
    case A_lexicographical_compare_: o.push_back(std::lexicographical_compare(f, l, g, q)); break;
    case A_search_: at(std::search(f, l, g, q)); break;
    case A_find_end_: at(std::find_end(f, l, g, q)); break;
    case A_find_first_of_: at(std::find_first_of(f, l, g, q)); break;
    case A_is_permutation_: o.push_back(std::is_permutation(f, l, g, q)); break;
    case A_inner_product_: if (m >= n) o.push_back(std::inner_product(f, l, g, (ll)1, [](ll a, ll b) { return a * 3 + b; }, [](const auto& a, const auto& b) { return (ll)tob(a) + 2 * tob(b) - (tob(a) && tob(b)); })); break;
    case A_includes_: if (std::is_sorted(f, l) && std::is_sorted(g, q)) o.push_back(std::includes(f, l, g, q)); break;
    }
}
// ---- source and destination
template <class K, int CAT, class I, class J> static void outs(int alg, I f, I l, int n, J d, const Cfg& c, Log& o) {
    typedef typename K::V V; const V x = K::v(c.x), y = K::v(!c.x); auto p = [&](const auto& r) { return tob(r) == c.x; };
    auto at = [&](J i) { o.push_back(std::distance(d, i)); };
    I m = std::next(f, c.k); auto x2 = [](V a, V b) { return K::v(tob(a) != tob(b)); };
    switch (alg) {
    case A_copy_: at(std::copy(f, l, d)); break;
    case A_copy_if_: at(std::copy_if(f, l, d, p)); break;
    case A_copy_n_: at(std::copy_n(f, c.k, d)); break;
    case A_move_: at(std::move(f, l, d)); break;
    case A_remove_copy_: at(std::remove_copy(f, l, d, x)); break;
    case A_remove_copy_if_: at(std::remove_copy_if(f, l, d, p)); break;
    case A_replace_copy_: at(std::replace_copy(f, l, d, x, y)); break;
    case A_replace_copy_if_: at(std::replace_copy_if(f, l, d, p, y)); break;
    case A_unique_copy_: at(std::unique_copy(f, l, d)); break;
    case A_rotate_copy_: at(std::rotate_copy(f, m, l, d)); break;
    case A_partition_copy_: { auto r = std::partition_copy(f, l, d, std::next(d, n), p); at(r.first); at(r.second); } break;
    case A_transform_copy_: at(std::transform(f, l, d, [](const auto& r) { return K::v(!tob(r)); })); break;
    case A_partial_sum_copy: at(std::partial_sum(f, l, d, x2)); break;
    case A_adjacent_difference_copy: at(std::adjacent_difference(f, l, d, x2)); break;
    case A_swap_between: at(std::swap_ranges(f, l, d)); break;
    default:
    if constexpr (CAT >= BIDIR) switch (alg) {
    case A_reverse_copy_: at(std::reverse_copy(f, l, d)); break;
    case A_copy_backward_: at(std::copy_backward(f, l, std::next(d, n + c.k))); break;
    case A_move_backward_: at(std::move_backward(f, l, std::next(d, n + c.k))); break;
    default:
    if constexpr (CAT >= RAND) switch (alg) {
    case A_partial_sort_copy_: at(std::partial_sort_copy(f, l, d, std::next(d, c.k))); break;
    case A_sample_: { std::minstd_rand g(7 + c.k); at(std::sample(f, l, d, c.k, g)); } break;
    } } }
}
template <class K, class I, class J, class D> static void outs2(int alg, I f, I l, int n, J g, J q, int m, D d, const Cfg&, Log& o) {
    auto at = [&](D i) { o.push_back(std::distance(d, i)); };
    if (alg == A_transform2_) { if (m >= n) at(std::transform(f, l, g, d, [](const auto& a, const auto& b) { return K::v(tob(a) && !tob(b)); })); return; }
    if (!std::is_sorted(f, l) || !std::is_sorted(g, q)) return;
    switch (alg) {
    case A_merge_: at(std::merge(f, l, g, q, d)); break;
    case A_set_union_: at(std::set_union(f, l, g, q, d)); break;
    case A_set_intersection_: at(std::set_intersection(f, l, g, q, d)); break;
    case A_set_difference_: at(std::set_difference(f, l, g, q, d)); break;
    case A_set_symmetric_difference_: at(std::set_symmetric_difference(f, l, g, q, d)); break;
    }
}

// ---- memories: words behind the bit iterators
template <class W> struct ArrM { std::vector<W> m; typedef W* base; static const int cat = RAND; ArrM(const std::vector<W>& v) : m(v) {} base begin() { return m.data(); } const W* cbegin() { return m.data(); } W get(int i) { return m[i]; } typedef const W* cbase; };
template <class W, class C, int CAT> struct ConM { C m; typedef typename C::iterator base; typedef typename C::const_iterator cbase; static const int cat = CAT; ConM(const std::vector<W>& v) : m(v.begin(), v.end()) {} base begin() { return m.begin(); } cbase cbegin() { return m.cbegin(); } W get(int i) { return *std::next(m.begin(), i); } };
template <class W> using VecM = ConM<W, std::vector<W>, RAND>;
template <class W> using DeqM = ConM<W, std::deque<W>, RAND>;
template <class W> using LstM = ConM<W, std::list<W>, BIDIR>;
template <class W> using FwdM = ConM<W, std::forward_list<W>, FWD>;

static std::string text(const unsigned char* b, int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)('0' + b[i]); return s; }
// bits at `off` of a memory of words; margins on both sides carry their own pattern
template <class W> static std::vector<W> words(const unsigned char* b, int n, int off, int room, int pat) {
    const int d = dig<W>(); std::vector<W> w((off + room + d - 1) / d + 1); for (std::size_t i = 0; i < w.size(); ++i) w[i] = pat == 0 ? 0 : pat == 1 ? (W)~(W)0 : (W)mixc(i + 17);
    for (int i = 0; i < n; ++i) { int k = off + i; w[k / d] = (W)((w[k / d] & ~((W)1 << (k % d))) | ((W)b[i] << (k % d))); } return w;
}
template <class M, class W> static void compare(M& mem, const std::vector<W>& before, const unsigned char* want, int n, int off, const char* what, const std::function<std::string()>& ctx) {
    const int d = dig<W>(); W w = 0;
    for (int i = 0; i < (int)before.size() * d; ++i) { if (i % d == 0) w = mem.get(i / d); bool got = (w >> (i % d)) & 1, exp = i >= off && i < off + n ? want[i - off] : (before[i / d] >> (i % d)) & 1; if (got != exp) fail(fmt("%s: %s bit %d is %d, expected %d", ctx().c_str(), what, i - off, (int)got, (int)exp)); }
}
static ll nrun = 0;
// case: memory kind, algorithm, bits, offset; second range: bits, offset
template <class M, class W> static void kase(int alg, int n, int off, int m, int off2) {
    typedef bit::bit_iterator<typename M::base> I; typedef bit::bit_iterator<typename M::cbase> CI;
    const bool needs2 = (alg > N4_ && alg < N5_) || alg > N8_, out = alg > N5_;
    const int room = out ? 2 * n + m + 2 : 0;   // destination
    // contents: all; two ranges: all pairs
    const ull total = 1ull << n, total2 = needs2 ? 1ull << m : 1;
    for (ull x = 0; x < total; ++x) for (ull y = 0; y < total2; ++y) {
        unsigned char a[64], b[64], z[160]; for (int i = 0; i < n; ++i) a[i] = (x >> i) & 1; for (int i = 0; i < m; ++i) b[i] = (y >> i) & 1;
        const int pat = (int)((x + y) % 3), jn = alg == A_iter_swap_ || alg == A_assign_through || alg == A_value_roundtrip || alg == A_adl_swap || alg == A_index_ || alg == A_reverse_write ? n : 0;
        const int kn = needs2 ? 0 : n;
        for (int k = 0; k <= kn; ++k) for (int j = 0; j <= jn; ++j) for (int v = 0; v < (needs2 ? 1 : 2); ++v) {
            Cfg c{k, j, (bool)v}; Log want, got; ++nrun;
            unsigned char ra[64], rb[64], rz[160]; memcpy(ra, a, 64); memcpy(rb, b, 64); for (int i = 0; i < room; ++i) rz[i] = z[i] = (i * 5 + k) % 3 == 0;
            bool *fa = (bool*)ra, *fb = (bool*)rb, *fz = (bool*)rz;
            auto ctx = [&] { return fmt("%s k=%d j=%d x=%d on %s at bit %d%s", aname[alg], k, j, v, text(a, n).c_str(), off, needs2 ? fmt(" and %s at bit %d", text(b, m).c_str(), off2).c_str() : ""); };
            std::vector<W> wa = words<W>(a, n, off, n, pat), wb = words<W>(b, m, off2, m, pat), wz = words<W>(z, room, off2, room, pat);
            M ma(wa), mb(wb), mz(wz);
            I f = std::next(I(ma.begin()), off), l = std::next(f, n); CI cf = std::next(CI(ma.cbegin()), off), cl = std::next(cf, n);
            I g = std::next(I(mb.begin()), off2), q = std::next(g, m); I d = std::next(I(mz.begin()), off2);
            if (alg < N1_) { nonmod<Bool>(alg, (const bool*)fa, (const bool*)fa + n, n, c, want); nonmod<Bit>(alg, cf, cl, n, c, got); Log got2; nonmod<Bit>(alg, f, l, n, c, got2); ++nevals; VF_CHECK(got2 == got, "%s: constant and mutable iterators disagree", ctx().c_str()); }
            else if (alg < N4_) { mod<Bool, M::cat>(alg, fa, fa + n, n, c, want); mod<Bit, M::cat>(alg, f, l, n, c, got); }
            else if (alg < N5_) { two<Bool>(alg, (const bool*)fa, (const bool*)fa + n, n, (const bool*)fb, (const bool*)fb + m, m, c, want); two<Bit>(alg, cf, cl, n, g, q, m, c, got); }
            else if (alg < N8_) { outs<Bool, M::cat>(alg, fa, fa + n, n, fz, c, want); outs<Bit, M::cat>(alg, f, l, n, d, c, got); }
            else { outs2<Bool>(alg, (const bool*)fa, (const bool*)fa + n, n, (const bool*)fb, (const bool*)fb + m, m, fz, c, want); outs2<Bit>(alg, cf, cl, n, g, q, m, d, c, got); }
            ++nevals;
            if (want != got) { std::string w, g2; for (ll i : want) w += fmt(" %lld", i); for (ll i : got) g2 += fmt(" %lld", i); fail(fmt("%s: results%s, with booleans%s", ctx().c_str(), g2.c_str(), w.c_str())); }
            compare(ma, wa, ra, n, off, "sequence", ctx);
            if (needs2) compare(mb, wb, rb, m, off2, "second sequence", ctx);
            if (room) compare(mz, wz, rz, room, off2, "destination", ctx);
        }
        tick();
    }
}
#ifndef VF_KINDS
#define VF_KINDS 3
#endif
static void op_std(const ll* a) {
    const int kind = (int)a[0], alg = (int)a[1], n = (int)a[2], off = (int)a[3], m = (int)a[4], off2 = (int)a[5];
    typedef std::uint8_t B; 
#ifdef VF_Q128
    typedef unsigned __int128 Q;
#else
    typedef std::uint64_t Q;
#endif
    typedef std::uint16_t H; typedef std::uint32_t S;
    switch (kind) {
#if VF_KINDS & 1
    case 0: kase<VecM<B>, B>(alg, n, off, m, off2); break;
    case 1: kase<ArrM<Q>, Q>(alg, n, off, m, off2); break;
    case 2: kase<LstM<B>, B>(alg, n, off, m, off2); break;
#endif
#if VF_KINDS & 2
    case 3: kase<DeqM<H>, H>(alg, n, off, m, off2); break;
    case 4: kase<FwdM<S>, S>(alg, n, off, m, off2); break;
    case 5: kase<ArrM<S>, S>(alg, n, off, m, off2); break;
#endif
    default: ;
    }
}
VF_REGISTER(op_std);
void vf::enumerate() {
    static const int digs[] = {8, 64, 8, 16, 32, 32};
    for (int kind = 0; kind < 6; ++kind) if (VF_KINDS & (kind < 3 ? 1 : 2)) {
        const int d = digs[kind], N1 = thorough ? (kind ? 9 : 11) : kind ? 6 : 8, N2 = thorough ? 6 : 4;
        for (int alg = 0; alg < NALG; ++alg) {
            if (!strcmp(aname[alg], "|")) continue;
            const bool needs2 = (alg > N4_ && alg < N5_) || alg > N8_, out = alg > N5_;
            // longer sequences with the other parameters fixed for the word-crossing case: several words of bytes
            for (int n = 0; n <= (needs2 ? N2 : N1); ++n) for (int off : {0, 1, d / 2, d - 3, d - 1}) {
                if (n == 0 && off > 1) continue;
                if (needs2) for (int m = 0; m <= N2 + 1; ++m) RUN(op_std, kind, alg, n, off, m, m % 2 ? d - 2 : (off + m) % d);
                else if (out) for (int o2 : {off, (off + 3) % d, d - 1}) RUN(op_std, kind, alg, n, off, 0, o2);
                else RUN(op_std, kind, alg, n, off, 0, 0);
            }
        }
    }
    sample(fmt("%d algorithms on bit iterators over vectors, arrays, deques, lists and forward lists of words", (int)NALG - 8));
    counters()["states"] = nrun; counters()["transitions"] = nevals;
}
VF_MAIN
