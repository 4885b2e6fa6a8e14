// Shared by every harness: seeds, failure reports, counters, watchdog.
//
// A harness is a program that runs numbered cases. Each case is generated from (seed, case number) only.
//   --seed S --from A --to B     run the cases A..B-1
//   --progress FILE              the case that is running is stored there (the runner reads it after a crash)
//   --set NAME=VALUE             harness specific
// Output (stdout):  STAT name value | SAMPLE text | VIOL key | detail
// Exit: 0 held, 3 violation (a VIOL line has been printed), 4 harness failure.
#pragma once
#include "prelude.h"
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <new>
#include <exception>

namespace vf {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    static uint64_t mix(uint64_t z) {
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    uint64_t operator()() { return next(); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <size_t N> uint64_t pick(const uint64_t (&a)[N]) { return a[below(N)]; }
    // favours small numbers, but reaches hi
    uint64_t skewed(uint64_t hi) {
        uint64_t r = below(4);
        uint64_t m = hi;
        while (r--) m = m / 4 + 1;
        return below(m + 1 < hi + 1 ? m + 1 : hi + 1);
    }
};
inline uint64_t hash2(uint64_t a, uint64_t b) { return Rng::mix(Rng::mix(a + 0x1234567) ^ (b * 0x9e3779b97f4a7c15ull + 1)); }

struct Progress { volatile uint64_t case_no, step, op, magic; };
struct Globals {
    uint64_t seed = 1, from = 0, to = 1;
    std::map<std::string, std::string> set;
    std::map<std::string, uint64_t> stats;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> digests;
    Progress local{}; Progress * prog = &local;
    const char * prop = "?";
    std::function<void()> on_fail;     // prints the trace
    bool in_fail = false;
    unsigned case_cpu_s = 60;
};
inline Globals & G() { static Globals g; return g; }

inline void stat(const char * k, uint64_t n = 1) { G().stats[k] += n; }
inline void stat_max(const char * k, uint64_t n) { auto & v = G().stats[k]; if (n > v) v = n; }

// a case that was not trivial, identified by what it did
inline void nontrivial(uint64_t digest) { G().digests.insert(digest); }

[[noreturn]] inline void fail(const char * key, const char * fmt = "", ...) {
    if (!G().in_fail) {
        G().in_fail = true;
        char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        printf("VIOL %s | seed=%llu case=%llu step=%llu | %s\n", key, (unsigned long long)G().seed,
               (unsigned long long)G().prog->case_no, (unsigned long long)G().prog->step, buf);
        fflush(stdout);
        if (G().on_fail) G().on_fail();
        fflush(stdout);
    }
    _exit(3);
}
[[noreturn]] inline void broken(const char * fmt, ...) {
    va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); fputc('\n', stderr); _exit(4);
}
#define CHECK(cond, key, ...) do { if (!(cond)) ::vf::fail(key, __VA_ARGS__); } while (0)

// CPU time watchdog of one case, the load of the machine does not matter.
inline void on_vtalrm(int) {
    static const char m[] = "VIOL hang | a case used more CPU time than any case can need\n";
    (void)!write(1, m, sizeof m - 1);
    _exit(3);
}
inline void arm(unsigned s) {
    itimerval it{}; it.it_value.tv_sec = s; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
inline void start_case(uint64_t n) { G().prog->case_no = n; G().prog->step = 0; arm(G().case_cpu_s); }
inline void step() { G().prog->step = G().prog->step + 1; }

inline void on_terminate() {
    try { if (auto e = std::current_exception()) std::rethrow_exception(e); }
    catch (std::bad_alloc &) { fail("unexpected-bad_alloc", "an operation asked for more memory than the limit"); }
    catch (std::exception & e) { fail("unexpected-exception", "%s", e.what()); }
    catch (...) { fail("unexpected-exception", "unknown type"); }
    fail("terminate", "std::terminate was called");
}
inline void on_signal(int sig) {
    char b[256]; int n = snprintf(b, sizeof b, "VIOL signal-%d | case=%llu step=%llu\n", sig,
        (unsigned long long)G().prog->case_no, (unsigned long long)G().prog->step);
    (void)!write(1, b, n); _exit(3);
}
inline uint64_t argu(const char * name, uint64_t dflt) {
    auto it = G().set.find(name);
    return it == G().set.end() ? dflt : strtoull(it->second.c_str(), nullptr, 0);
}
inline std::string args(const char * name, const char * dflt = "") {
    auto it = G().set.find(name);
    return it == G().set.end() ? dflt : it->second;
}
inline void finish() {
    arm(0);
#ifdef VF_ASSERTS
    stat("assertions", vf_asserts.evaluated); stat_max("max_assertion_places", vf_asserts.places);
#endif
    for (auto & kv : G().stats) printf("STAT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    for (auto & s : G().samples) printf("SAMPLE %s\n", s.c_str());
    if (!G().digests.empty()) { printf("DIG"); for (uint64_t d : G().digests) printf(" %llx", (unsigned long long)d); printf("\n"); }
    printf("DONE\n");
    fflush(stdout);
}
inline void address_space(uint64_t gb) { rlimit rl; getrlimit(RLIMIT_AS, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, gb << 30); setrlimit(RLIMIT_AS, &rl); }
inline void init(int argc, char ** argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") G().seed = strtoull(v.c_str(), nullptr, 0);
        else if (a == "--from") G().from = strtoull(v.c_str(), nullptr, 0);
        else if (a == "--to") G().to = strtoull(v.c_str(), nullptr, 0);
        else if (a == "--set") { auto p = v.find('='); G().set[v.substr(0, p)] = v.substr(p + 1); }
        else if (a == "--progress") {
            int fd = open(v.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd < 0 || ftruncate(fd, sizeof(Progress))) broken("progress file");
            G().prog = (Progress *)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            close(fd);
        } else broken("unknown argument %s", a.c_str());
    }
    std::set_terminate(on_terminate);
    signal(SIGVTALRM, on_vtalrm);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(VF_SAN)
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
    address_space(6);
#endif
}
template <class F, class R> inline int run_cases(F f, R report) {
    for (uint64_t c = G().from; c < G().to; c++) {
        start_case(c);
        f(c, hash2(G().seed, c));
        stat("cases");
    }
    report();
    finish();
    return 0;
}
template <class F> inline int run_cases(F f) { return run_cases(f, [] {}); }
} // namespace vf
#ifdef VF_ASSERTS
[[noreturn]] inline void vf_assert_failed(const char * file, int line, const char * what) {
    const char * f = strrchr(file, '/'); f = f ? f + 1 : file;
    vf::fail((std::string("assertion-failed-") + f).c_str(), "%s:%d: %s", f, line, what);
}
#endif
