// C21: basic_string_view against std::basic_string_view.  -DCFG as in strcmps.cpp
#if CFG < 4
#define STRING_UTILS_STL 0
#define STRING_UTILS_U64 1
#define STRING_UTILS_SSE42 2
#define STRING_UTILS_LIBC 3
#define STRING_UTILS_MODE CFG
#endif
#include "prelude.h"
#include <string_view>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include "jstd/basic/stddef.h"
#include "jstd/string/string_view.h"
#include "strgen.h"
using namespace vf;
static Arena * A1, * A2;

#define IS(name, got, want) do { auto got_ = (got); auto want_ = (want); vf::stat("events"); step(); \
    CHECK(got_ == want_, name, "%s of %zu byte units gives %lld instead of %lld (pos %zu count %zu pos2 %zu count2 %zu): %s", name, sizeof(C), (long long)got_, (long long)want_, pos, cnt, pos2, cnt2, show(a, b).c_str()); } while (0)
// the value, or 1000 when it throws out_of_range
template <class F> static auto guarded(F f) -> long long { try { return (long long)f(); } catch (const std::out_of_range &) { vf::stat("out_of_range"); return 1000; } }
template <class C> static bool same(const C * p, size_t n, std::basic_string_view<C> r) { return n == r.size() && std::equal(p, p + n, r.data()); }

template <class C> static void one(Rng & g) {
    typedef jstd::basic_string_view<C> JV; typedef std::basic_string_view<C> SV; typedef std::basic_string<C> Str;
    auto pr = a_pair<C>(g); auto & a = pr.a; auto & b = pr.b; size_t n = a.size(), m = b.size();
    nontrivial(hash2(hash2(n, m), hash2(uint64_t(pr.kind * 16 + pr.how), n ? uint64_t(a[n / 2]) : 0)));
    size_t pos = 0, cnt = 0, pos2 = 0, cnt2 = 0;
    for (int round = 0; round < 2; round++) {
        int h1 = int(g.below(PL_COUNT)), h2 = int(g.below(PL_COUNT));
        const C * p = (const C *)A1->place(h1, a.data(), n * sizeof(C), g, sizeof(C)), * q = (const C *)A2->place(h2, b.data(), m * sizeof(C), g, sizeof(C));
        const JV v(p, n), w(q, m); const SV x(p, n), y(q, m); JV vm(p, n);
        Str s(p, n), t(q, m);
        vf::stat("views");
        int want = ref_cmp(p, n, q, m); bool eq = want == 0;
        IS("operator==", v == w, eq); IS("operator!=", v != w, !eq); IS("operator<", v < w, want < 0); IS("operator<=", v <= w, want <= 0);
        IS("operator>", v > w, want > 0); IS("operator>=", v >= w, want >= 0); IS("operator==", w == v, eq); IS("operator<", w < v, want > 0);
        IS("operator<=", w <= v, want >= 0); IS("operator>", w > v, want < 0); IS("operator>=", w >= v, want <= 0); IS("operator!=", w != v, !eq);
        IS("operator==", v == v, true); IS("operator<=", v <= v, true); IS("operator>=", v >= v, true); IS("operator<", v < v, false); IS("operator>", v > v, false); IS("operator!=", v != v, false);
        IS("compare", sgn(v.compare(w)), want); IS("compare", sgn(w.compare(v)), -want); IS("compare(string)", sgn(v.compare(t)), want); IS("is_equal", v.is_equal(w), eq); IS("is_equal(string)", v.is_equal(t), eq);
        IS("compare(ptrs)", sgn(v.compare(p, n, q, m)), want); IS("is_equal(ptrs)", v.is_equal(p, n, q, m), eq);
        { size_t k = std::min(n, m); int wk = ref_cmp(p, k, q, k); IS("compare(ptrs,count)", sgn(v.compare(p, q, k)), wk); IS("is_equal(ptrs,count)", v.is_equal(p, q, k), wk == 0); }
        IS("sign agrees with std", sgn(x.compare(y)), want);
        // against NUL terminated text
        {
            Vec<C> z = b; for (auto & c : z) if (c == C(0)) c = C(1); z.push_back(C(0)); SV zz(z.data(), z.size() - 1);
            Vec<C> own = z; if (g.chance(1, 2)) { own = a; own.push_back(C(0)); for (size_t i = 0; i + 1 < own.size(); i++) if (own[i] == C(0)) own[i] = C(1); z = own; zz = SV(z.data(), z.size() - 1); }
            const C * zp = (const C *)A2->place(h2, z.data(), z.size() * sizeof(C), g, sizeof(C));
            IS("compare(const C *)", sgn(v.compare(zp)), sgn(ref_cmp(p, n, zz.data(), zz.size()))); IS("is_equal(const C *)", v.is_equal(zp), x == zz);
            JV c1(zp); IS("construction from a terminated string", same(c1.data(), c1.size(), zz), true); JV c2; c2 = zp; IS("assignment of a terminated string", c2 == c1, true);
            JV c3; c3.attach(zp); IS("attach of a terminated string", c3 == c1, true);
            // positions and counts in every combination of inside, at the end, behind the end, npos
            for (int k = 0; k < 6; k++) {
                pos = g.chance(1, 8) ? n + 1 + g.below(4) : g.below(n + 1); cnt = g.chance(1, 5) ? SV::npos - g.below(3) : g.below(n + 3);
                cnt2 = g.below(z.size());
                IS("compare(pos,count,const C *)", guarded([&] { return sgn(v.compare(pos, cnt, zp)); }), guarded([&] { SV u = x.substr(pos, cnt); return ref_cmp(u.data(), u.size(), zz.data(), zz.size()); }));
                IS("is_equal(pos,count,const C *)", guarded([&] { return v.is_equal(pos, cnt, zp); }), guarded([&] { return x.substr(pos, cnt) == zz; }));
                IS("compare(pos,count,const C *,count)", guarded([&] { return sgn(v.compare(pos, cnt, zp, cnt2)); }), guarded([&] { SV u = x.substr(pos, cnt); return ref_cmp(u.data(), u.size(), zp, cnt2); }));
                IS("is_equal(pos,count,const C *,count)", guarded([&] { return v.is_equal(pos, cnt, zp, cnt2); }), guarded([&] { return x.substr(pos, cnt) == SV(zp, cnt2); }));
            }
            q = (const C *)A2->place(h2, b.data(), m * sizeof(C), g, sizeof(C));
        }
        const JV w2(q, m); const SV y2(q, m);
        for (int k = 0; k < 8; k++) {
            pos = g.chance(1, 8) ? n + 1 + g.below(4) : g.chance(1, 6) ? n : g.below(n + 1); cnt = g.chance(1, 5) ? SV::npos - g.below(3) : g.below(n + 3);
            pos2 = g.chance(1, 8) ? m + 1 + g.below(4) : g.chance(1, 3) ? std::min(pos, m) : g.below(m + 1); cnt2 = g.chance(1, 5) ? SV::npos - g.below(3) : g.chance(1, 2) ? cnt : g.below(m + 3);
            IS("compare(pos,count,sv)", guarded([&] { return sgn(v.compare(pos, cnt, w2)); }), guarded([&] { SV u = x.substr(pos, cnt); return ref_cmp(u.data(), u.size(), q, m); }));
            IS("is_equal(pos,count,sv)", guarded([&] { return v.is_equal(pos, cnt, w2); }), guarded([&] { return x.substr(pos, cnt) == y2; }));
            IS("compare(pos,count,sv,pos,count)", guarded([&] { return sgn(v.compare(pos, cnt, w2, pos2, cnt2)); }), guarded([&] { SV u = x.substr(pos, cnt), r = y2.substr(pos2, cnt2); return ref_cmp(u.data(), u.size(), r.data(), r.size()); }));
            IS("is_equal(pos,count,sv,pos,count)", guarded([&] { return v.is_equal(pos, cnt, w2, pos2, cnt2); }), guarded([&] { return x.substr(pos, cnt) == y2.substr(pos2, cnt2); }));
            IS("substr", guarded([&] { JV u = v.substr(pos, cnt); return u.data() == p + pos ? (long long)u.size() + 2000 : -1; }), guarded([&] { return (long long)x.substr(pos, cnt).size() + 2000; }));
            IS("substr(pos)", guarded([&] { JV u = v.substr(pos); return u.data() == p + pos ? (long long)u.size() + 2000 : -1; }), guarded([&] { return (long long)x.substr(pos).size() + 2000; }));
            IS("at", guarded([&] { return (long long)v.at(pos) + 2000; }), guarded([&] { return (long long)x.at(pos) + 2000; }));
            IS("at", guarded([&] { return (long long)vm.at(pos) + 2000; }), guarded([&] { return (long long)x.at(pos) + 2000; }));
            if (pos < n) { IS("operator[]", v[pos] == x[pos] && vm[pos] == x[pos] && &v[pos] == p + pos, true); }
            // copy into a buffer of exactly the right size, between canaries
            size_t len = pos <= n ? std::min(cnt, n - pos) : 0; Vec<C> d1(len + 2, C(0x5a)), d2(len + 2, C(0x5a));
            IS("copy", guarded([&] { return v.copy(d1.data() + 1, cnt, pos); }), guarded([&] { return x.copy(d2.data() + 1, cnt, pos); }));
            IS("copied text", d1 == d2, true);
        }
        pos = cnt = pos2 = cnt2 = 0;
        // size and ends
        IS("size", v.size(), n); IS("length", v.length(), n); IS("empty", v.empty(), n == 0); IS("data", v.data() == p && v.c_str() == p && vm.data() == p && vm.c_str() == p, true);
        if (n) { IS("front", v.front() == x.front() && &v.front() == p, true); IS("back", v.back() == x.back() && &v.back() == p + n - 1, true); }
        IS("to_string", v.to_string() == s, true);
        // walks in both directions with all iterator operations
        {
            size_t i = 0; bool ok = true;
            for (auto it = v.begin(); it != v.end(); ++it, i++) ok = ok && i < n && *it == a[i];
            IS("walk", ok && i == n, true); i = 0;
            for (auto it = v.cbegin(); it != v.cend(); i++) { auto old = it++; ok = ok && i < n && *old == a[i] && it - old == 1; }
            IS("walk with it++", ok && i == n, true);
            for (auto it = v.end(); it != v.begin(); i--) { auto old = it--; ok = ok && i > 0 && *it == a[i - 1] && old - it == 1; }
            IS("walk back with it--", ok && i == 0, true); i = n;
            for (auto it = v.cend(); it != v.cbegin(); ) { --it; i--; ok = ok && *it == a[i]; }
            IS("walk back", ok && i == 0, true);
            IS("distance", v.end() - v.begin(), (std::ptrdiff_t)n); IS("distance", v.cend() - v.cbegin(), (std::ptrdiff_t)n);
            if (n) {
                size_t r = g.below(n), u = g.below(n); auto it = v.begin() + std::ptrdiff_t(r), iu = v.begin() + std::ptrdiff_t(u);
                IS("it[]", v.begin()[std::ptrdiff_t(r)] == a[r] && *it == a[r] && *(v.end() - std::ptrdiff_t(n - r)) == a[r], true);
                IS("iterator order", (it < iu) == (r < u) && (it <= iu) == (r <= u) && (it > iu) == (r > u) && (it >= iu) == (r >= u) && (it == iu) == (r == u) && (it != iu) == (r != u) && it - iu == std::ptrdiff_t(r) - std::ptrdiff_t(u), true);
                it += std::ptrdiff_t(u) - std::ptrdiff_t(r); IS("it +=", it == iu, true); it -= std::ptrdiff_t(u); IS("it -=", it == v.begin(), true);
                IS("std::find", size_t(std::find(v.begin(), v.end(), a[r]) - v.begin()), size_t(std::find(a.begin(), a.end(), a[r]) - a.begin()));
            }
        }
        // constructions and assignments
        {
            JV c1(s), c2(a), c3(p, p + n), c4(v), c5, c6, c7, c8, c9; c5 = v; c6 = s; c7.attach(p, n); c8.attach(p, p + n); c9.attach(s);
            JV c10; c10.attach(v); size_t f = g.below(n + 1); JV c11; c11.attach(p, f, n);
            for (const JV * c : { &c1, &c2, &c3, &c4, &c5, &c6, &c7, &c8, &c9, &c10 }) IS("constructed or assigned view", same(c->data(), c->size(), x), true);
            IS("attach(data, first, last)", same(c11.data(), c11.size(), x.substr(f)), true);
            c1.swap(c11); IS("swap", same(c11.data(), c11.size(), x) && same(c1.data(), c1.size(), x.substr(f)), true);
            using std::swap; swap(c1, c11); IS("swap", same(c1.data(), c1.size(), x), true); std::swap(c1, c11); IS("std::swap", same(c11.data(), c11.size(), x), true);
            c1.clear(); IS("clear", c1.size() == 0 && c1.empty() && c1.to_string().empty(), true);
            JV none, empty(p, size_t(0)); IS("empty views", none == empty && empty == none && !(none < empty) && none <= empty && none >= empty && !(none != empty) && none.compare(empty) == 0, true);
            IS("empty view first", (none < v) == (n > 0) && (v > none) == (n > 0) && (none == v) == (n == 0) && none <= v && v >= none && (v <= none) == (n == 0), true);
            C dst = C(7); IS("copy of nothing", none.copy(&dst, 5) == 0 && dst == C(7), true); IS("substr of nothing", none.substr().size(), size_t(0));
        }
        {
            std::basic_ostringstream<C> o1, o2; unsigned wd = unsigned(g.below(12)) * unsigned(g.chance(1, 3)); o1.width(wd); o2.width(wd); o1 << v; o2 << x; IS("operator<<", o1.str() == o2.str(), true);
        }
        // writing through a view into a buffer that is large enough: append and push_back
        {
            Vec<C> buf(n + m + 4, C(0x33)); JV r(buf.data(), size_t(0)); r.append(p, n); JV r2 = r;
            IS("append", same(r.data(), r.size(), x) && buf[n] == C(0) && buf[n + 1] == C(0x33), true);
            r.append(q, q + m); Str both = s + t; IS("append", same(r.data(), r.size(), SV(both)) && buf[n + m] == C(0) && buf[n + m + 1] == C(0x33), true);
            r2.append(size_t(1), C('x')); r2.push_back(C('y')); Str tail = s; tail += C('x'); tail += C('y'); IS("append and push_back", same(r2.data(), r2.size(), SV(tail)) && buf[n + 2] == C(0), true);
        }
    }
    A1->done(); A2->done();
}
// views whose lengths differ by more than an int can say
template <class C> static void far_apart(Rng & g) {
#ifndef VF_SAN
    typedef jstd::basic_string_view<C> JV; typedef std::basic_string_view<C> SV;
    size_t most = (3ull << 31) + 64, room = (most * sizeof(C) + 4096) & ~size_t(4095);
    address_space(64);
    C * p = (C *)mmap(nullptr, room, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) broken("mmap of a huge string");
    static const uint64_t d[] = { 1, 1ull << 20, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 3ull << 31 };
    G().prog->op = 778; C one = 1; std::vector<C> a, b;
    for (uint64_t x : d) {
        size_t n = g.below(40), pos = n, cnt = x, pos2 = 0, cnt2 = 0; JV v(p, n), w(p, n + x), o(&one, size_t(1)); SV sw(p, n + x);
        IS("operator==", v == w || w == v || v.is_equal(w), false); IS("operator<", v < w && !(w < v) && v <= w && !(w <= v) && w > v && w >= v && v != w, true);
        IS("compare", sgn(v.compare(w)), -1); IS("compare", sgn(w.compare(v)), 1); IS("compare", sgn(w.compare(o)), -1); IS("compare", sgn(o.compare(w)), 1);
        IS("compare(ptrs)", sgn(v.compare(p, n, p, n + x)), -1); IS("compare(ptrs)", sgn(v.compare(p, n + x, p, n)), 1); IS("is_equal(ptrs)", v.is_equal(p, n, p, n + x), false);
        IS("compare(pos,count,sv)", sgn(w.compare(size_t(0), n, w)), -1); IS("compare(pos,count,sv)", sgn(w.compare(size_t(0), n + x, v)), 1);
        JV t = w.substr(n); IS("substr", t.data() == p + n && t.size() == x, true); t = w.substr(size_t(1), x - 1 + n); IS("substr", t.data() == p + 1 && t.size() == n + x - 1, true);
        IS("size", w.size() == n + x && w.length() == n + x && w.end() - w.begin() == ptrdiff_t(n + x) && !w.empty() && &w[n + x - 1] == p + n + x - 1, true);
        vf::stat("lengths_far_apart");
    }
    munmap(p, room); address_space(6);
#endif
}
int main(int argc, char ** argv) {
    init(argc, argv); A1 = new Arena(16384); A2 = new Arena(16384);
    return run_cases([](uint64_t c, uint64_t seed) {
        Rng g(seed);
        jstd::string_view lit("abxc"); CHECK(lit.size() == 4 && lit[3] == 'c', "literal", "a view of a literal has %zu units", lit.size());
        jstd::string_view la; la.attach("xy"); CHECK(la.size() == 2, "literal", "attached literal");
        if (c == 0) { far_apart<char>(g); far_apart<wchar_t>(g); }
        for (int i = 0; i < 25; i++) { one<char>(g); one<wchar_t>(g); }
        if (c % 199 == 3) G().samples.push_back("seed " + std::to_string(seed));
    });
}
