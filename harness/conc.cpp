// C15: two threads run operations on disjoint words, or read common ones, under a
// controlled scheduler.  The operations live in an instrumented shared object;
// every access to memory that is not the thread's own stack is a scheduling
// point.  All schedules up to a preemption bound are executed, each from the same
// initial memory and the same initial state of all variables of the object, and
// judged by the results and the final memory of the operations run alone.
#include "tsan.hpp"
#include "vf.hpp"
#include <algorithm>
#include <pthread.h>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sched.h>
#include <atomic>
#include <ctime>
using namespace vf;
extern "C" { void* __real_memcpy(void* d, const void* s, std::size_t n) { return memcpy(d, s, n); } void* __real_memmove(void* d, const void* s, std::size_t n) { return memmove(d, s, n); }
void* __real_memset(void* d, int c, std::size_t n) { return memset(d, c, n); } int __real_memcmp(const void* a, const void* b, std::size_t n) { return memcmp(a, b, n); } }

// ---- scheduler ------------------------------------------------------------------
struct Access { const unsigned char* p; unsigned n; bool w; signed char who; };
static const int MAXPRE = 8;
static struct Sched {
    std::atomic<int> go[2];            // futex: 1 = may run
    std::atomic<int> maingo;
    bool done[2]; int cur;
    int pre[MAXPRE], npre, nextpre;
    ll step, lastswitchable;           // scheduling points so far; the last one at which the other thread could still run
    bool logging; std::vector<Access> log;
    bool onlyconf; std::vector<std::pair<const unsigned char*, const unsigned char*>> conf;
    bool shutdown, aborted;
} S;
static thread_local int me = -1; static thread_local const unsigned char *stlo, *sthi;
static void fwait(std::atomic<int>& f) {
    while (f.load() == 0) { timespec ts{5, 0}; long r = syscall(SYS_futex, (int*)&f, FUTEX_WAIT_PRIVATE, 0, &ts, nullptr, 0); if (r < 0 && errno == ETIMEDOUT && &f != &S.maingo && me >= 0 && !S.done[me] && f.load() == 0 && S.step > 0) { S.aborted = true; break; } }
    f.store(0);
}
static void fpost(std::atomic<int>& f) { f.store(1); syscall(SYS_futex, (int*)&f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
VF_NOTSAN static void switch_away() { int o = 1 - me; if (S.done[o]) return; int m = me; S.cur = o; fpost(S.go[o]); fwait(S.go[m]); }
VF_NOTSAN static void point(const unsigned char* p, unsigned n, bool w) {
    if (S.logging) S.log.push_back({p, n, w, (signed char)me});
    if (S.onlyconf) { bool hit = false; for (auto& c : S.conf) if (p < c.second && c.first < p + n) { hit = true; break; } if (!hit) return; }
    ++S.step; if (!S.done[1 - me]) S.lastswitchable = S.step;
    if (S.nextpre < S.npre && S.step == S.pre[S.nextpre]) { ++S.nextpre; switch_away(); }
    if ((S.step & 0xfffff) == 0) tick();
}
VF_NOTSAN static inline void vf_access(const void* p, std::size_t n, bool write) {
    if (me < 0) return;
    const unsigned char* a = (const unsigned char*)p; if (a >= stlo && a < sthi) return;
    point(a, (unsigned)n, write);
}
// initialisation guards, mutexes and once flags of the object: cooperative
extern "C" int vf_guard_acquire(std::uint64_t* g) __asm__("__cxa_guard_acquire");
extern "C" int vf_guard_acquire(std::uint64_t* g) {
    volatile unsigned char* b = (volatile unsigned char*)g;
    for (;;) { if (b[0]) return 0; if (!b[1]) { b[1] = 1; return 1; } if (me < 0 || S.done[1 - me]) { if (me >= 0) { b[1] = 1; return 1; } sched_yield(); } else switch_away(); }
}
extern "C" void vf_guard_release(std::uint64_t* g) __asm__("__cxa_guard_release");
extern "C" void vf_guard_release(std::uint64_t* g) { volatile unsigned char* b = (volatile unsigned char*)g; b[1] = 0; b[0] = 1; }
extern "C" void vf_guard_abort(std::uint64_t* g) __asm__("__cxa_guard_abort");
extern "C" void vf_guard_abort(std::uint64_t* g) { ((volatile unsigned char*)g)[1] = 0; }
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (me < 0) return pthread_mutex_lock(m); vf_access(m, 8, true); while (pthread_mutex_trylock(m)) { if (S.done[1 - me]) return pthread_mutex_lock(m); switch_away(); } return 0; }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { vf_access(m, 8, true); return pthread_mutex_unlock(m); }
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    volatile int* p = (volatile int*)o; vf_access(o, 4, true);
    for (;;) { if (*p == 2) return 0; if (*p == 0) { *p = 1; f(); *p = 2; return 0; } if (me < 0 || S.done[1 - me]) return 0; switch_away(); }
}
// ---- the object under test -------------------------------------------------------
typedef ull (*OpFn)(int, int, int, void*, void*);
static OpFn op; static const int* kinds; static int nkinds;
static struct Seg { unsigned char* p; std::size_t n; std::vector<unsigned char> copy; } segs[8]; static int nsegs;
static void restore_state() { for (int i = 0; i < nsegs; ++i) memcpy(segs[i].p, segs[i].copy.data(), segs[i].n); }
static int phdr(dl_phdr_info* i, size_t, void* name) {
    if (!i->dlpi_name || !strstr(i->dlpi_name, (const char*)name)) return 0;
    unsigned char *rlo = nullptr, *rhi = nullptr;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rlo = (unsigned char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rhi = rlo + i->dlpi_phdr[k].p_memsz; rhi = (unsigned char*)((std::uintptr_t)rhi & ~4095ull); }
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
        unsigned char *lo = (unsigned char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, *hi = lo + i->dlpi_phdr[k].p_memsz;
        if (rlo && rlo <= lo && rhi > lo) lo = std::min(rhi, hi);
        if (lo < hi && nsegs < 8) { segs[nsegs].p = lo; segs[nsegs].n = hi - lo; segs[nsegs].copy.assign(lo, hi); ++nsegs; }
    }
    return 1;
}
static const char* self;
static void load() {
    if (op) return;
    std::string so = std::string(self) + ".so"; void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
    op = (OpFn)dlsym(h, "vf_op"); kinds = (const int*)dlsym(h, "vf_kinds"); nkinds = *(const int*)dlsym(h, "vf_nkinds");
    ((void (*)())dlsym(h, "vf_setup"))();
    std::string base = so.substr(so.rfind('/') + 1); dl_iterate_phdr(phdr, (void*)base.c_str());
    if (!nsegs) { fprintf(stderr, "no writable segment of the object found\n"); exit(2); }
    counters()["object_state_bytes"] = 0; for (int i = 0; i < nsegs; ++i) counters()["object_state_bytes"] += segs[i].n;
}
// ---- one pair of operations ------------------------------------------------------
struct Job { int W, k, g; void *own, *com; ull res; };
static Job job[2];
static void* worker(void* a) {
    me = (int)(std::intptr_t)a; pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* sp; size_t sn; pthread_attr_getstack(&at, &sp, &sn); stlo = (unsigned char*)sp; sthi = stlo + sn + 65536; pthread_attr_destroy(&at);
    int m = me;
    for (;;) {
        fwait(S.go[m]); if (S.shutdown) return nullptr;
        job[m].res = op(job[m].W, job[m].k, job[m].g, job[m].own, job[m].com);
        S.done[m] = true; S.cur = 1 - m;
        if (S.done[1 - m]) fpost(S.maingo); else fpost(S.go[1 - m]);
    }
}
static bool started;
static void start_threads() {
    if (started) return; started = true;
    cpu_set_t all, one; sched_getaffinity(0, sizeof all, &all); int n = CPU_COUNT(&all), want = n ? shard % n : 0, c = -1; CPU_ZERO(&one);
    for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all) && ++c == want) { CPU_SET(i, &one); break; }
    sched_setaffinity(0, sizeof one, &one);
    pthread_t t; for (int i = 0; i < 2; ++i) { if (pthread_create(&t, nullptr, worker, (void*)(std::intptr_t)i)) abort(); pthread_detach(t); }
}
static unsigned char *mem; static const int MEMB = 1152;     // two times 44 words of up to 8 bytes, common words, margins
static unsigned char init[MEMB];
static ull nexec, npoints; static int depthreached;
// execute one schedule
static void execute(int first, const int* pre, int npre, bool logging, bool onlyconf) {
    restore_state(); memcpy(mem, init, MEMB);
    S.done[0] = S.done[1] = false; S.npre = npre; for (int i = 0; i < npre; ++i) S.pre[i] = pre[i]; S.nextpre = 0; S.step = 0; S.lastswitchable = 0; S.logging = logging; S.onlyconf = onlyconf; S.cur = first; S.aborted = false;
    if (logging) S.log.clear();
    tick(); fpost(S.go[first]); fwait(S.maingo);
    ++nexec; ++nevals; npoints += S.step;
}
static std::string desc(int W, int k, int g) { static const char* n[] = {"copy", "move", "copy_backward", "fill", "shift_left", "shift_right", "rotate", "reverse", "swap_ranges", "transform unary", "transform binary", "count", "find", "equal", "references"};
    std::string s = k >= 100 ? std::string(n[k - 100]) + " from the common words" : k < 15 ? n[k] : k < 30 ? fmt("vector of its own, history %d", k - 20) : fmt("common vector, query %d", k - 30); return s + fmt(" (geometry %d)", g); }
static std::string sched_str(int first, const int* pre, int n) { std::string s = fmt("thread %d first, preempted before points", first); for (int i = 0; i < n; ++i) s += fmt(" %d", pre[i]); return s; }
static void judge(const Job* want, const unsigned char* wm, int first, const int* pre, int npre) {
    for (int i = 0; i < 2; ++i) if (job[i].res != want[i].res) fail(fmt("%d-bit words: %s together with %s: thread %d returned %llx, alone %llx; schedule: ", job[0].W, desc(job[0].W, job[0].k, job[0].g).c_str(), desc(job[1].W, job[1].k, job[1].g).c_str(), i, job[i].res, want[i].res) + sched_str(first, pre, npre));
    if (memcmp(mem, wm, MEMB)) { int d = 0; while (mem[d] == wm[d]) ++d; fail(fmt("%d-bit words: %s together with %s: byte %d is %02x, run alone %02x; schedule: ", job[0].W, desc(job[0].W, job[0].k, job[0].g).c_str(), desc(job[1].W, job[1].k, job[1].g).c_str(), d, mem[d], wm[d]) + sched_str(first, pre, npre)); }
    if (S.aborted) fail("a thread waits for ever: " + sched_str(first, pre, npre));
}
static std::vector<Access>* collect;      // accesses of every execution, without repetition
static void gather() { auto same = [](const Access& p, const Access& q) { return p.p == q.p && p.n == q.n && p.w == q.w && p.who == q.who; }; auto less = [](const Access& p, const Access& q) { return p.p != q.p ? p.p < q.p : p.n != q.n ? p.n < q.n : p.w != q.w ? p.w < q.w : p.who < q.who; };
    collect->insert(collect->end(), S.log.begin(), S.log.end()); std::sort(collect->begin(), collect->end(), less); collect->erase(std::unique(collect->begin(), collect->end(), same), collect->end()); }
static void explore(const Job* want, const unsigned char* wm, int first, int* pre, int npre, int bound, bool onlyconf) {
    execute(first, pre, npre, collect != nullptr, onlyconf); ll last = S.lastswitchable; if (collect) gather(); judge(want, wm, first, pre, npre);
    depthreached = std::max(depthreached, npre);
    if (npre == bound) return;
    for (ll p = npre ? pre[npre - 1] + 1 : 1; p <= last; ++p) { pre[npre] = (int)p; explore(want, wm, first, pre, npre + 1, bound, onlyconf); }
}
static bool longg(int g) { return g == 6 || g == 7; }
// width kind0 geo0 kind1 geo1 order full : full = enumerate all schedules within the budget, else only those that differ at conflicting accesses
static void pair_case(const ll* a) {
    load(); start_threads();
    int W = (int)a[0], B = W / 8; if (!mem) mem = (unsigned char*)aligned_alloc(64, MEMB);
    for (int i = 0; i < MEMB; ++i) init[i] = (unsigned char)(mixc(i >> 3) >> (8 * (i & 7)));
    const int R[2] = {longg((int)a[2]) ? 44 : 6, longg((int)a[4]) ? 44 : 6};
    unsigned char *r0 = mem + 64, *r1 = r0 + R[0] * B, *com = r1 + R[1] * B; if (a[5]) { r1 = mem + 64; r0 = r1 + R[1] * B; }
    job[0] = {W, (int)a[1], (int)a[2], r0, com, 0}; job[1] = {W, (int)a[3], (int)a[4], r1, com, 0};
    // each alone, in both orders; accesses of both
    Job want[2] = {job[0], job[1]}; static unsigned char wm[MEMB]; std::vector<Access> lg;
    memcpy(wm, init, MEMB);
    for (int i = 0; i < 2; ++i) { restore_state(); memcpy(mem, init, MEMB); S.done[0] = S.done[1] = true; S.done[i] = false; S.npre = 0; S.nextpre = 0; S.step = 0; S.logging = false; S.onlyconf = false; S.aborted = false;
        fpost(S.go[i]); fwait(S.maingo); want[i].res = job[i].res;
        unsigned char* r = i ? r1 : r0; memcpy(wm + (r - mem), r, R[i] * B);
        for (int j = 0; j < MEMB; ++j) if ((mem + j < r || mem + j >= r + R[i] * B) && mem[j] != init[j]) fail(desc(W, job[i].k, job[i].g) + fmt(" alone changes byte %d outside its words", j)); }
    ll n[2]; std::vector<Access> logs;
    for (int first = 0; first < 2; ++first) { execute(first, nullptr, 0, true, false); judge(want, wm, first, nullptr, 0); n[first] = S.lastswitchable; logs.insert(logs.end(), S.log.begin(), S.log.end()); }
    int pre[MAXPRE];
    if (a[6]) {
    // all schedules with as many preemptions as the budget allows
    ull budget = thorough ? 60000 : 1200; int bound = 1;
    double c = (double)(n[0] + n[1]);                        // one preemption
    double two = 2.0 * n[0] * n[1], three = two * (n[0] + n[1]) / 2;
    if (c + two <= budget) bound = 2; if (bound == 2 && c + two + three <= budget) bound = 3; if (bound == 3 && c + two + three + 2.0 * n[0] * n[0] * n[1] * n[1] / 4 <= budget) bound = 4;
    if (c > 20000) bound = 0;
    for (int first = 0; first < 2; ++first) explore(want, wm, first, pre, 0, bound, false);
    counters()[fmt("pairs_with_bound_%d", bound)]++;
    }
    // conflicting accesses (same bytes, both threads, one writes): deeper schedules at those only
    S.conf.clear();
    for (int round = 0; round < 6; ++round) {
        std::vector<Access> x[2]; for (auto& l : logs) x[(int)l.who].push_back(l);
        std::size_t before = S.conf.size();
        auto byaddr = [](const Access& p, const Access& q) { return p.p < q.p; };
        std::sort(x[1].begin(), x[1].end(), byaddr); unsigned mx = 0; for (auto& v : x[1]) mx = std::max(mx, v.n);
        for (auto& u : x[0]) { auto it = std::lower_bound(x[1].begin(), x[1].end(), Access{u.p - mx, 0, false, 0}, byaddr);
            for (; it != x[1].end() && it->p < u.p + u.n; ++it) if ((u.w || it->w) && u.p < it->p + it->n) S.conf.push_back({std::max(u.p, it->p), std::min(u.p + u.n, it->p + it->n)}); }
        std::sort(S.conf.begin(), S.conf.end()); S.conf.erase(std::unique(S.conf.begin(), S.conf.end()), S.conf.end());
        if (S.conf.size() == before) break;                 // no further conflict came to light
        if (!round) counters()["pairs_with_conflicting_accesses"]++;
        execute(0, nullptr, 0, false, true); ll m = S.step; int b = m <= 6 ? 6 : m <= 12 ? 4 : m <= 40 ? 3 : 2; if (m > 120) b = 1;
        collect = &logs; for (int first = 0; first < 2; ++first) explore(want, wm, first, pre, 0, b, true); collect = nullptr;
    }
    counters()["states"] = nexec; counters()["transitions"] = npoints; counters()["deepest_preemption_bound"] = std::max<ull>(counters()["deepest_preemption_bound"], depthreached);
}
VF_REGISTER(pair_case);
void vf::enumerate() {
    load();
    const int NG = 10;
    for (int W : {8, 16, 32, 64}) for (int i = 0; i < nkinds; ++i) for (int j = i; j < nkinds; ++j) for (int g = 0; g < NG; ++g) for (int g2 = 0; g2 < NG; ++g2) for (int order = 0; order < 2; ++order) {
        int ki = kinds[i], kj = kinds[j]; bool vi = ki >= 20 && ki < 100, vj = kj >= 20 && kj < 100;
        if ((vi && g > 1 && g != 8) || (vj && g2 > 1 && g2 != 8)) continue;             // vector operations use the geometry little
        if (i == j && g2 < g) continue;
        int hash = (i * 7 + j * 3 + g * 5 + g2) % 12;
        bool full = thorough ? hash % 3 == 0 || g == g2 : ((g == g2 && W != 16) || hash == 0) && (W == 8 || (i + j + g) % 3 == 0) && order == (i + j + g) % 2;
        if (!full && !thorough && order != (i + j + g + g2 + W / 8) % 2) continue;
        RUN(pair_case, W, ki, g, kj, g2, order, full);
        if (samples().size() < 4 && (i * 7 + j * 3 + g) % 97 == 5) sample(fmt("%d-bit words: ", W) + desc(W, ki, g) + " || " + desc(W, kj, g2));
    }
}
int main(int c, char** v) { self = v[0]; int r = ::vf::main_(c, v); fflush(stdout); _exit(r); }
