// C22: the string comparison primitives.  -DCFG=0..3 STRING_UTILS_MODE (STL, U64, SSE42, LIBC), 4: none defined, 5: SSE42 without SSE 4.2 macros
#if CFG < 4
#define STRING_UTILS_STL 0
#define STRING_UTILS_U64 1
#define STRING_UTILS_SSE42 2
#define STRING_UTILS_LIBC 3
#define STRING_UTILS_MODE CFG
#endif
#include "prelude.h"
#include "jstd/basic/stddef.h"
#include "jstd/string/string_utils.h"
#include "jstd/string/string_libc.h"
#include "jstd/string/string_stl.h"
#include "strgen.h"
using namespace vf;
static Arena * A1, * A2;
template <class C> struct View { const C * p; size_t n; const C * c_str() const { return p; } const C * data() const { return p; } size_t size() const { return n; } };

#define EQ(name, expr, want) do { bool got_ = (expr); vf::stat("events"); step(); \
    CHECK(got_ == (want), name, "%s of %zu byte units is %d instead of %d (placed %s, %s): %s", name, sizeof(C), got_, want, place_name(h1), place_name(h2), show(a, b).c_str()); } while (0)
#define CM(name, expr, want) do { int got_ = (expr); vf::stat("events"); step(); \
    CHECK(sgn(got_) == (want), name, "%s of %zu byte units is %d instead of %d (placed %s, %s): %s", name, sizeof(C), got_, want, place_name(h1), place_name(h2), show(a, b).c_str()); } while (0)

// every form that is given both lengths
template <class C> static void two_lengths(const std::vector<C> & a, const std::vector<C> & b, int h1, int h2, const C * p, size_t n, const C * q, size_t m, int want) {
    namespace U = jstd::str_utils; namespace L = jstd::libc; namespace S = jstd::stl;
    View<C> v{p, n}, w{q, m};
    EQ("str_utils::is_equal", U::is_equal(p, n, q, m), want == 0);
    EQ("str_utils::is_equal_unsafe", U::is_equal_unsafe(p, n, q, m), want == 0);
    EQ("str_utils::is_equal_unsafe", U::is_equal_unsafe(v, w), want == 0);
    EQ("str_utils::is_equal_safe", U::is_equal_safe(p, n, q, m), want == 0);
    EQ("str_utils::is_equal_safe", U::is_equal_safe(v, w), want == 0);
    EQ("libc::StrEqual", L::StrEqual(p, n, q, m), want == 0);
    EQ("libc::StrEqualUnsafe", L::StrEqualUnsafe(v, w), want == 0);
    EQ("libc::StrEqualSafe", L::StrEqualSafe(p, n, q, m), want == 0);
    EQ("libc::StrEqualSafe", L::StrEqualSafe(v, w), want == 0);
    EQ("stl::StrEqual", S::StrEqual(p, n, q, m), want == 0);
    EQ("stl::StrEqualUnsafe", S::StrEqualUnsafe(v, w), want == 0);
    EQ("stl::StrEqualSafe", S::StrEqualSafe(p, n, q, m), want == 0);
    EQ("stl::StrEqualSafe", S::StrEqualSafe(v, w), want == 0);
    CM("str_utils::compare", U::compare(p, n, q, m), want);
    CM("str_utils::compare_unsafe", U::compare_unsafe(p, n, q, m), want);
    CM("str_utils::compare_unsafe", U::compare_unsafe(v, w), want);
    CM("str_utils::compare_safe", U::compare_safe(p, n, q, m), want);
    CM("str_utils::compare_safe", U::compare_safe(v, w), want);
    CM("libc::StrCmp", L::StrCmp(p, n, q, m), want);
    CM("libc::StrCmpUnsafe", L::StrCmpUnsafe(v, w), want);
    CM("libc::StrCmpSafe", L::StrCmpSafe(p, n, q, m), want);
    CM("libc::StrCmpSafe", L::StrCmpSafe(v, w), want);
    CM("stl::StrCmp", S::StrCmp(p, n, q, m), want);
    CM("stl::StrCmpUnsafe", S::StrCmpUnsafe(v, w), want);
    CM("stl::StrCmpSafe", S::StrCmpSafe(p, n, q, m), want);
    CM("stl::StrCmpSafe", S::StrCmpSafe(v, w), want);
}
template <class C> static void one(Rng & g) {
    namespace U = jstd::str_utils; namespace L = jstd::libc; namespace S = jstd::stl;
    auto pr = a_pair<C>(g); auto & a = pr.a; auto & b = pr.b;
    size_t n = a.size(), m = b.size(), k = std::min(n, m);
    int want = ref_cmp(a.data(), n, b.data(), m), wk = ref_cmp(a.data(), k, b.data(), k);
    vf::stat(want ? wk ? "pairs_different" : "pairs_prefix" : "pairs_equal");
    nontrivial(hash2(hash2(n, m), hash2(uint64_t(pr.kind * 16 + pr.how), n ? uint64_t(a[n / 2]) : 0)));
    for (int round = 0; round < 3; round++) {
        int h1 = int(g.below(PL_COUNT)), h2 = int(g.below(PL_COUNT));
        const C * p = (const C *)A1->place(h1, a.data(), n * sizeof(C), g, sizeof(C)), * q = (const C *)A2->place(h2, b.data(), m * sizeof(C), g, sizeof(C));
        View<C> v{p, n}, w{q, m};
        vf::stat("placements");
        two_lengths(a, b, h1, h2, p, n, q, m, want);
        // one count for both; the strings may go on behind it
        size_t c = g.chance(1, 2) ? k : g.below(k + 1); int wc = ref_cmp(a.data(), c, b.data(), c);
        EQ("str_utils::is_equal(count)", U::is_equal(p, q, c), wc == 0);
        EQ("str_utils::is_equal_safe(count)", U::is_equal_safe(p, q, c), wc == 0);
        EQ("libc::StrEqual(count)", L::StrEqual(p, q, c), wc == 0);
        EQ("libc::StrEqualSafe(count)", L::StrEqualSafe(p, q, c), wc == 0);
        EQ("stl::StrEqual(count)", S::StrEqual(p, q, c), wc == 0);
        EQ("stl::StrEqualSafe(count)", S::StrEqualSafe(p, q, c), wc == 0);
        CM("str_utils::compare(count)", U::compare(p, q, c), wc);
        CM("str_utils::compare_unsafe(count)", U::compare_unsafe(p, q, c), wc);
        CM("str_utils::compare_safe(count)", U::compare_safe(p, q, c), wc);
        CM("libc::StrCmp(count)", L::StrCmp(p, q, c), wc);
        CM("libc::StrCmpSafe(count)", L::StrCmpSafe(p, q, c), wc);
        CM("stl::StrCmp(count)", S::StrCmp(p, q, c), wc);
        CM("stl::StrCmpSafe(count)", S::StrCmpSafe(p, q, c), wc);
        if (n == m) {
            EQ("str_utils::is_equal_flat", U::is_equal_flat(v, w), want == 0);
            EQ("str_utils::is_equal_flat_safe", U::is_equal_flat_safe(v, w), want == 0);
        }
        // with itself
        EQ("str_utils::is_equal of one string", U::is_equal_safe(p, n, p, n), true);
        CM("str_utils::compare of one string", U::compare_safe(p, n, p, n), 0);
        EQ("libc::StrEqual of one string", L::StrEqualSafe(p, n, p, n), true);
        EQ("stl::StrEqual of one string", S::StrEqualSafe(p, n, p, n), true);
        // null: equal to null only, smaller than everything else
        if (round == 0) {
            const C * z = nullptr; size_t e = 1 + g.below(9);
            EQ("str_utils::is_equal_safe(null)", U::is_equal_safe(z, z, e), true);
            EQ("libc::StrEqualSafe(null)", L::StrEqualSafe(z, z, e), true);
            EQ("stl::StrEqualSafe(null)", S::StrEqualSafe(z, z, e), true);
            CM("str_utils::compare_safe(null)", U::compare_safe(z, z, e), 0);
            CM("str_utils::compare_safe(null)", U::compare_safe(z, size_t(0), z, size_t(0)), 0);
            CM("libc::StrCmpSafe(null)", L::StrCmpSafe(z, z, e), 0);
            CM("stl::StrCmpSafe(null)", S::StrCmpSafe(z, z, e), 0);
            if (n) {
                EQ("str_utils::is_equal_safe(null)", U::is_equal_safe(z, p, n), false); EQ("str_utils::is_equal_safe(null)", U::is_equal_safe(p, z, n), false);
                EQ("libc::StrEqualSafe(null)", L::StrEqualSafe(z, p, n), false); EQ("libc::StrEqualSafe(null)", L::StrEqualSafe(p, z, n), false);
                EQ("stl::StrEqualSafe(null)", S::StrEqualSafe(z, p, n), false); EQ("stl::StrEqualSafe(null)", S::StrEqualSafe(p, z, n), false);
                CM("str_utils::compare_safe(null)", U::compare_safe(z, p, n), -1); CM("str_utils::compare_safe(null)", U::compare_safe(p, z, n), 1);
                CM("str_utils::compare_safe(null)", U::compare_safe(z, size_t(0), p, n), -1); CM("str_utils::compare_safe(null)", U::compare_safe(p, n, z, size_t(0)), 1);
                CM("libc::StrCmpSafe(null)", L::StrCmpSafe(z, p, n), -1); CM("libc::StrCmpSafe(null)", L::StrCmpSafe(p, z, n), 1);
                CM("stl::StrCmpSafe(null)", S::StrCmpSafe(z, p, n), -1); CM("stl::StrCmpSafe(null)", S::StrCmpSafe(p, z, n), 1);
            }
            vf::stat("nulls");
        }
    }
    A1->done(); A2->done();
}
template <class C> static void terminated(Rng & g) {            // up to the first NUL
    namespace U = jstd::str_utils; namespace L = jstd::libc; namespace S = jstd::stl;
    auto pr = a_pair<C>(g, false); auto & a = pr.a; auto & b = pr.b;
    int want = ref_cmp(a.data(), a.size(), b.data(), b.size());
    Vec<C> x = a, y = b; x.push_back(C(0)); y.push_back(C(0));
    for (int round = 0; round < 2; round++) {
        int h1 = int(g.below(PL_COUNT)), h2 = int(g.below(PL_COUNT));
        const C * p = (const C *)A1->place(h1, x.data(), x.size() * sizeof(C), g, sizeof(C)), * q = (const C *)A2->place(h2, y.data(), y.size() * sizeof(C), g, sizeof(C));
        EQ("libc::StrEqual(terminated)", L::StrEqual(p, q), want == 0);
        EQ("stl::StrEqual(terminated)", S::StrEqual(p, q), want == 0);
        CM("libc::StrCmp(terminated)", L::StrCmp(p, q), want);
        CM("stl::StrCmp(terminated)", S::StrCmp(p, q), want);
        CM("str_utils::compare(terminated)", U::compare(p, q), want);
        CHECK(L::StrLen(p) == a.size(), "libc::StrLen", "StrLen is %zu instead of %zu", L::StrLen(p), a.size());
        CHECK(L::StrLenSafe(q) == b.size(), "libc::StrLen", "StrLenSafe is %zu instead of %zu", L::StrLenSafe(q), b.size());
        CHECK(L::StrLenSafe((const C *)nullptr) == 0, "libc::StrLen", "StrLenSafe(null)");
        vf::stat("terminated_pairs");
    }
    A1->done(); A2->done();
}
// Strings whose length does not fit an int: two halves of one mapping of zero pages.
static void huge() {
#ifndef VF_SAN
    namespace U = jstd::str_utils;
    size_t n = (1ull << 31) + 64, room = (n + 4096) & ~size_t(4095);
    char * p = (char *)mmap(nullptr, 2 * room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) broken("mmap of a huge string");
    char * q = p + room; q[n - 3] = 1; G().prog->op = 777;
    CHECK(!U::is_equal(p, n, q, n), "str_utils::is_equal", "two strings of 2^31+64 bytes that differ in the third byte from the end are equal");
    CHECK(U::compare(p, n, q, n) < 0, "str_utils::compare", "strings of 2^31+64 bytes: wrong order");
    CHECK(U::compare_safe(q, p, n) > 0, "str_utils::compare", "strings of 2^31+64 bytes: wrong order");
    CHECK(U::is_equal(p, n - 3, q, n - 3), "str_utils::is_equal", "two equal strings of 2^31+61 bytes differ");
    munmap(p, 2 * room); vf::stat("huge_strings");
#endif
}
// One string a prefix of the other, or different early on, and lengths that differ by more than an int can say: only the common part need be read.
template <class C> static void far_apart(Rng & g) {
#ifndef VF_SAN
    size_t most = (3ull << 31) + 64, room = (most * sizeof(C) + 4096) & ~size_t(4095);
    address_space(64);
    C * p = (C *)mmap(nullptr, room, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) broken("mmap of a huge string");
    static const uint64_t d[] = { 1, 1ull << 20, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 3ull << 31 };
    G().prog->op = 778; const C one = 1; std::vector<C> a, b(1, one);
    for (uint64_t x : d) {
        size_t n = g.below(40);
        two_lengths<C>(a, a, 0, 0, p, n, p + 5, n + x - 5 * (x > 5 && n + x + 5 > most), -1);
        two_lengths<C>(a, a, 0, 0, p, n + x, p, n, 1);
        two_lengths<C>(a, a, 0, 0, p, n, p, n + x, -1);
        two_lengths<C>(a, b, 0, 0, p, x, &one, 1, -1); two_lengths<C>(b, a, 0, 0, &one, 1, p, x, 1);
        vf::stat("lengths_far_apart");
    }
    munmap(p, room); address_space(6);
#endif
}
int main(int argc, char ** argv) {
    init(argc, argv); A1 = new Arena(16384); A2 = new Arena(16384);
    return run_cases([](uint64_t c, uint64_t seed) {
        Rng g(seed);
        if (c == 0) { huge(); far_apart<char>(g); far_apart<wchar_t>(g); far_apart<unsigned short>(g); }
        for (int i = 0; i < 40; i++) {
            one<char>(g); one<wchar_t>(g); terminated<char>(g); terminated<wchar_t>(g);
            if (i % 4 == 0) { one<unsigned char>(g); one<unsigned short>(g); terminated<unsigned short>(g); }
        }
        if (c % 199 == 3) G().samples.push_back("seed " + std::to_string(seed));
    });
}
