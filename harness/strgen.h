// Pairs of strings that agree for a while: equal, one a prefix, different at one unit, in the high bit only, with NULs.
#pragma once
#include "guard.h"
namespace vf {
template <class C> using Vec = std::vector<C>;
inline size_t str_length(Rng & g) {
    switch (g.below(8)) {
    case 0: case 1: return g.below(18);
    case 2: case 3: return g.below(70);
    case 4: { static const uint64_t e[] = { 8, 16, 24, 32, 48, 64, 80, 128, 256 }; return g.pick(e) + g.below(3) - 1; }
    case 5: return g.below(400);
    case 6: return g.chance(1, 4) ? g.below(3000) : g.below(100);
    default: return g.below(40);
    }
}
template <class C> uint64_t unit_mask() { return std::is_same<C, wchar_t>::value ? 0x7fffffffu : sizeof(C) == 1 ? 0xff : sizeof(C) == 2 ? 0xffff : 0xffffffffu; }
template <class C> C a_unit(Rng & g, int kind) {
    uint64_t m = unit_mask<C>();
    switch (kind) {
    case 0: return C('a');
    case 1: return C(g.below(2));
    case 2: return C('a' + g.below(26));
    case 3: { static const uint64_t e[] = { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff }; return C(g.pick(e) & m); }
    case 4: return C(g.next() & m);
    case 5: return C((0x20 + g.below(4) * 0x60) & m);
    default: return C((1 + g.below(255)) & m);
    }
}
template <class C> struct StrPair { Vec<C> a, b; int kind, how; };
template <class C> StrPair<C> a_pair(Rng & g, bool nuls = true) {
    StrPair<C> p; p.kind = int(g.below(7)); p.how = int(g.below(8)); size_t n = str_length(g);
    auto unit = [&] { C c = a_unit<C>(g, p.kind); return !nuls && c == C(0) ? C(1) : c; };
    p.a.resize(n); for (auto & c : p.a) c = unit();
    p.b = p.a;
    switch (p.how) {
    case 0: break;
    case 1: p.b.resize(n ? g.below(n + 1) : 0); break;
    case 2: for (size_t k = 1 + g.below(20); k--; ) p.b.push_back(unit()); break;
    case 3: case 4: case 5:
        if (n) {
            size_t at = p.how == 3 ? g.below(n) : p.how == 4 ? n - 1 - g.below(n < 9 ? n : 9) : std::min(n - 1, size_t(g.below(4) * 8 + g.below(2) * 15));
            C c = p.b[at];
            if (g.chance(1, 2)) { unsigned bits = std::is_same<C, wchar_t>::value ? 31 : unsigned(sizeof(C) * 8); c = C(uint64_t(c) ^ 1ull << g.below(bits)); } else c = unit();
            p.b[at] = !nuls && c == C(0) ? C(1) : c;
            if (g.chance(1, 3)) for (size_t k = at + 1; k < n; k++) p.b[k] = unit();     // everything behind the difference, too
        }
        break;
    case 6: { size_t m = str_length(g); p.b.resize(m); for (auto & c : p.b) c = unit(); break; }
    default: if (n > 1) { size_t at = g.below(n); p.b.erase(p.b.begin() + long(at)); } break;
    }
    if (g.chance(1, 2)) p.a.swap(p.b);
    return p;
}
inline int sgn(long long v) { return v < 0 ? -1 : v > 0; }
template <class C> int ref_cmp(const C * a, size_t n, const C * b, size_t m) {           // as unsigned units, then by length
    typedef typename std::make_unsigned<C>::type U;
    for (size_t i = 0; i < n && i < m; i++) if (a[i] != b[i]) return U(a[i]) < U(b[i]) ? -1 : 1;
    return n < m ? -1 : n > m;
}
template <class C> std::string show(const Vec<C> & a, const Vec<C> & b) {
    return "a[" + std::to_string(a.size()) + "]=" + hex(a.data(), a.size() * sizeof(C), 64) + " b[" + std::to_string(b.size()) + "]=" + hex(b.data(), b.size() * sizeof(C), 64);
}
} // namespace vf
