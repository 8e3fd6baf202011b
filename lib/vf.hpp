// Exploration runtime shared by all harnesses.
//
// A harness enumerates *cases*: a case is a registered function plus a short
// list of integers (word type, bit positions, counts, ...).  Everything a case
// does is determined by those integers, so "name a0 a1 ..." is its replay.
// The runtime shards the enumeration over processes, records the case being run
// (for crashes, failed assertions and hangs inside the code under test), and
// prints counters.  Exit status: 0 all cases passed, 1 a case failed, else error.
#pragma once
#include <cstdio>
#include <cstdarg>
#include <exception>
#include <initializer_list>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/resource.h>

namespace vf {
typedef long long ll;
typedef unsigned long long ull;
typedef void (*CaseFn)(const ll*);

struct Fail { std::string msg; };
[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
#define VF_CHECK(cond, ...) do { if (!(cond)) ::vf::fail(::vf::fmt(__VA_ARGS__)); } while (0)

struct Case { const char* name; int n; ll a[16]; };
inline Case cur{};                 // case being executed
inline volatile ull progress = 0;  // bumped by every case and by tick()
inline ull seq = 0, ncases = 0, nevals = 0, nfail = 0;
inline int shard = 0, nshards = 1;
inline bool thorough = false;
inline ull seed = 1;
inline bool replaying = false;
inline std::map<std::string, CaseFn>& table() { static std::map<std::string, CaseFn> t; return t; }
inline std::map<std::string, ull>& counters() { static std::map<std::string, ull> t; return t; }
inline std::map<std::string, ull>& percase() { static std::map<std::string, ull> t; return t; }
inline std::map<std::string, ull>& failcount() { static std::map<std::string, ull> t; return t; }
inline std::uint64_t mix(std::uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
inline std::uint64_t mixc(std::uint64_t z) { return mix(z * 0x100000001b3ull + seed * 77); }
inline void tick() { progress = progress + 1; }

struct Reg { Reg(const char* n, CaseFn f) { table()[n] = f; } };
#define VF_REGISTER(fn) static ::vf::Reg vf_reg_##fn(#fn, fn)

inline std::string (*describe_hook)() = nullptr;   // what the current case is doing, for crashes
inline void print_case(int fd, const char* kind, const char* msg) {
    char b[2048]; int k = snprintf(b, sizeof b, "\n%s case=[%s", kind, cur.name ? cur.name : "?");
    for (int i = 0; i < cur.n && k < 1500; ++i) k += snprintf(b + k, sizeof b - k, " %lld", cur.a[i]);
    k += snprintf(b + k, sizeof b - k, "] :: %.900s\n", msg);
    (void)!write(fd, b, k);
}
inline void on_signal(int s) {
    const char* m = s == SIGSEGV ? "crash: segmentation fault" : s == SIGABRT ? "crash: abort (failed assertion, heap corruption, or exception through noexcept)" :
                    s == SIGFPE ? "crash: arithmetic fault" : s == SIGBUS ? "crash: bus error" : s == SIGILL ? "crash: illegal instruction" : "crash";
    signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL);
    static bool again; if (!again) { again = true; if (describe_hook) { static std::string w; w = std::string(m) + "; " + describe_hook(); m = w.c_str(); } }
    print_case(1, "FAIL", m);
    _exit(1);
}
inline int hang_limit = 40;
inline void on_timer(int) {
    static ull last = ~0ull; static int same = 0;
    if (progress == last) { if (++same >= hang_limit) { print_case(1, "FAIL", "hang: no progress"); _exit(1); } }
    else { same = 0; last = progress; }
}
inline void install() {
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    struct sigaction st{}; st.sa_handler = on_timer; st.sa_flags = SA_RESTART | SA_ONSTACK; sigaction(SIGPROF, &st, nullptr);
    itimerval it{}; it.it_interval.tv_sec = 1; it.it_value.tv_sec = 1; setitimer(ITIMER_PROF, &it, nullptr);
}
inline const int MAX_FAIL_PER_NAME = 3;
inline void exec(const char* name, CaseFn fn, const ll* a, int n) {
    cur.name = name; cur.n = n; for (int i = 0; i < n; ++i) cur.a[i] = a[i];
    tick(); ++ncases;
    try { fn(a); }
    catch (const Fail& f) { ++nfail; if (failcount()[name]++ < MAX_FAIL_PER_NAME) print_case(1, "FAIL", f.msg.c_str()); }
    catch (const std::exception& e) { ++nfail; if (failcount()[name]++ < MAX_FAIL_PER_NAME) print_case(1, "FAIL", fmt("unexpected exception: %s", e.what()).c_str()); }
    if (nfail > 200) { printf("\nSTOPPED after %llu failures\n", nfail); fflush(stdout); _exit(1); }
}
// run one case (if it belongs to this shard)
inline bool run(const char* name, CaseFn fn, std::initializer_list<ll> a) {
#ifdef VF_ONLY
    if (a.begin()[0] != VF_ONLY) return false;         // build for words of one width only
#endif
    if ((int)(seq++ % nshards) != shard) return false;
    exec(name, fn, a.begin(), (int)a.size());
    return true;
}
#define RUN(fn, ...) ::vf::run(#fn, fn, {__VA_ARGS__})

void enumerate();   // supplied by the harness

inline std::vector<std::string>& samples() { static std::vector<std::string> s; return s; }
inline void sample(const std::string& s) { if (samples().size() < 4) samples().push_back(s); }
inline std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c >= 32) o += c; } return o; }

inline void stats() {
    printf("STATS {\"cases\": %llu, \"evals\": %llu, \"failures\": %llu", ncases, nevals, nfail);
    for (auto& c : counters()) printf(", \"%s\": %llu", c.first.c_str(), c.second);
    printf(", \"samples\": [");
    for (size_t i = 0; i < samples().size(); ++i) printf("%s\"%s\"", i ? ", " : "", esc(samples()[i]).c_str());
    printf("]}\n");
}

inline int main_(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    if (const char* s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
    if (const char* s = getenv("VERIF_TIER")) thorough = !strcmp(s, "thorough");
    std::vector<std::string> rep;
    for (int i = 1; i < argc; ++i) {
        std::string s = argv[i];
        if (s == "--thorough") thorough = true;
        else if (s == "--quick") thorough = false;
        else if (s == "--shard" && i + 1 < argc) sscanf(argv[++i], "%d/%d", &shard, &nshards);
        else if (s == "--hang" && i + 1 < argc) hang_limit = atoi(argv[++i]);
        else if (s == "--replay") { replaying = true; for (++i; i < argc; ++i) rep.push_back(argv[i]); }
        else { fprintf(stderr, "bad argument %s\n", s.c_str()); return 2; }
    }
#ifndef VF_MEM_GB
#define VF_MEM_GB 3
#endif
#ifndef VF_SANITIZE
    rlimit rl{(rlim_t)VF_MEM_GB << 30, (rlim_t)VF_MEM_GB << 30}; setrlimit(RLIMIT_AS, &rl);   // runaway requests become bad_alloc
#endif
    install();
    if (replaying) {
        if (rep.empty() || !table().count(rep[0])) { fprintf(stderr, "unknown case\n"); return 2; }
        ll a[16]; int n = 0; for (size_t i = 1; i < rep.size() && n < 16; ++i) a[n++] = strtoll(rep[i].c_str(), nullptr, 10);
        exec(table().find(rep[0])->first.c_str(), table()[rep[0]], a, n);
        if (!nfail) { stats(); printf("replay passed\n"); }
        return nfail ? 1 : 0;
    }
    enumerate();
    stats();
    return nfail ? 1 : 0;
}
} // namespace vf
#define VF_MAIN int main(int c, char** v) { return ::vf::main_(c, v); }
