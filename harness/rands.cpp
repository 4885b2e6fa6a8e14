// C26: the Mersenne Twisters against std::mt19937 / std::mt19937_64, and the ranges of the draws.
#include "prelude.h"
#include "common.h"
#include <random>
#include <sstream>
#include "jstd/basic/stddef.h"
#include "jstd/basic/stdint.h"
#include "jstd/basic/stdsize.h"
#include "jstd/system/RandomGen.h"
using namespace vf;
typedef unsigned long long ull;
template <class T> struct Kind;
template <> struct Kind<jstd::MT19937_32> { typedef uint32_t W; typedef std::mt19937 Std; typedef jstd::MtRandomGen32 Gen; static const size_t N = 624; static const W f = 1812433253u, a1 = 1664525u, a2 = 1566083941u, dflt = 19650218u; static const unsigned s = 30; };
template <> struct Kind<jstd::MT19937_64> { typedef uint64_t W; typedef std::mt19937_64 Std; typedef jstd::MtRandomGen64 Gen; static const size_t N = 312; static const W f = 6364136223846793005ull, a1 = 3935559000370003845ull, a2 = 2862933555777941757ull, dflt = 19650218019770711ull; static const unsigned s = 62; };
// the reference: std's generator with the state that init_genrand / init_by_array of the authors leave
template <class T> struct Model {
    typedef Kind<T> K; typedef typename K::W W; typename K::Std g;
    void seed(W s) { g.seed(s); }
    void seed(const std::vector<W> & key, W s) {
        const size_t N = K::N; std::vector<W> st(N); st[0] = s;
        for (size_t j = 1; j < N; j++) st[j] = W(K::f * (st[j - 1] ^ (st[j - 1] >> K::s)) + j);
        size_t i = 1, j = 0;
        for (size_t k = std::max(N, key.size()); k; k--) { st[i] = W((st[i] ^ ((st[i - 1] ^ (st[i - 1] >> K::s)) * K::a1)) + key[j] + j); if (++i >= N) { st[0] = st[N - 1]; i = 1; } if (++j >= key.size()) j = 0; }
        for (size_t k = N - 1; k; k--) { st[i] = W((st[i] ^ ((st[i - 1] ^ (st[i - 1] >> K::s)) * K::a2)) - i); if (++i >= N) { st[0] = st[N - 1]; i = 1; } }
        st[0] = W(1) << (sizeof(W) * 8 - 1);
        std::stringstream ss; for (W w : st) ss << w << ' '; ss << N; ss >> g; if (!ss) broken("cannot load a state");
    }
    W next() { return W(g()); }
};
template <class W> static W seed_value(Rng & g) { W s = 0; while (!s) switch (g.below(4)) { case 0: s = W(g.below(100)); break; case 1: s = W(1) << g.below(sizeof(W) * 8); break; case 2: s = W(~(W(1) << g.below(sizeof(W) * 8))); break; default: s = W(g.next()); } return s; }   // 0 asks for the time
template <class T> struct One { T t; Model<T> m; };
template <class T> static void draw(One<T> & o, Rng & g, const char * key, uint64_t n) {
    typedef typename Kind<T>::W W; const bool w32 = sizeof(W) == 4;
    for (uint64_t i = 0; i < n; i++) {
        uint64_t got, want; unsigned how = unsigned(g.below(7)); W a = o.m.next();
        if (how == 0 || how > 4) { got = uint64_t(o.t.rand()); want = a; }
        else if (how == 1) { got = uint32_t(o.t.nextInt32()); want = uint32_t(a); }
        else if (how == 2) { got = o.t.nextUInt32(); want = uint32_t(a); }
        else {
            switch (g.below(4)) { case 0: got = uint64_t(o.t.nextInt64()); break; case 1: got = o.t.nextUInt64(); break; case 2: got = uint64_t(o.t.nextInt()); break; default: got = o.t.nextUInt(); }
            want = a;
            if (w32) { W b = o.m.next(); want = uint64_t(a) << 32 | b; if (got != want) want = uint64_t(b) << 32 | a; }      // which half is drawn first is the compiler's choice
        }
        CHECK(got == want, key, "number %llu of a stretch (draw kind %u) is %llu instead of %llu", (ull)i, how, (ull)got, (ull)want);
    }
    vf::stat("drawn", n); vf::stat("events", n); step();
}
template <class T> static uint64_t sequences(Rng & g) {
    typedef typename Kind<T>::W W; uint64_t dig = sizeof(W); char t[100];
    std::vector<std::unique_ptr<One<T>>> v; std::string log;
    auto key = [&] { std::vector<W> k(g.chance(1, 8) ? 1 + g.below(2 * Kind<T>::N + 9) : 1 + g.below(9)); for (auto & w : k) w = g.chance(1, 3) ? W(g.below(4)) : W(g.next()); return k; };
    for (int op = 0; op < 40; op++) {
        unsigned how = v.empty() ? unsigned(g.below(6)) : unsigned(g.below(16)); W s = seed_value<W>(g); auto k = key(); One<T> * o = v.empty() ? nullptr : v[g.below(v.size())].get();
        switch (how) {
        case 0: v.emplace_back(new One<T>{ T(s), {} }); v.back()->m.seed(s); break;
        case 1: v.emplace_back(new One<T>{ T(), {} }); v.back()->m.seed(Kind<T>::dflt); break;
        case 2: v.emplace_back(new One<T>{ T(k), {} }); v.back()->m.seed(k, Kind<T>::dflt); break;
        case 3: v.emplace_back(new One<T>{ T(k.data(), k.size()), {} }); v.back()->m.seed(k, Kind<T>::dflt); break;
        case 4: v.emplace_back(new One<T>{ T(k, s), {} }); v.back()->m.seed(k, s); break;
        case 5: v.emplace_back(new One<T>{ T(k.data(), k.size(), s), {} }); v.back()->m.seed(k, s); break;
        case 6: o->t.srand(s); o->m.seed(s); break;
        case 7: o->t.srand(); o->m.seed(Kind<T>::dflt); break;
        case 8: o->t.srand(k); o->m.seed(k, Kind<T>::dflt); break;
        case 9: o->t.srand(k.data(), k.size()); o->m.seed(k, Kind<T>::dflt); break;
        case 10: if (g.chance(1, 2)) o->t.srand(k, s); else o->t.srand(k.data(), k.size(), s); o->m.seed(k, s); break;
        case 11: { auto c = new One<T>(*o); v.emplace_back(c); vf::stat("copies"); break; }
        case 12: { One<T> * p = v[g.below(v.size())].get(); *p = *o; vf::stat("copies"); break; }
        case 13: if (v.size() > 1) { size_t i = g.below(v.size()); v.erase(v.begin() + i); } break;
        default: draw(*o, g, "sequence", g.chance(1, 3) ? g.below(2 * Kind<T>::N + 3) : g.below(40)); break;
        }
        if (how <= 5) { if (v.back()->t.rand_max() != W(~W(0))) fail("rand_max", "rand_max() is %llu", (ull)v.back()->t.rand_max()); }
        dig = hash2(dig, how * 131 + s); vf::stat("operations");
        if (how <= 12) { One<T> & w = how <= 5 || how == 11 ? *v.back() : *o; draw(w, g, how <= 5 ? "sequence.constructed" : how <= 10 ? "sequence.reseeded" : "sequence.copied", 1 + g.below(4)); }
        if (v.size() > 4) v.erase(v.begin());
    }
    snprintf(t, sizeof t, "mt%d: 40 operations, digest %llx", int(sizeof(W) * 8), (ull)dig);
    if (g.chance(1, 300)) G().samples.push_back(t);
    for (auto & o : v) draw(*o, g, "sequence", Kind<T>::N + 7);
    return dig;
}
// an engine whose words are extreme, to reach the ends of the ranges
static Rng * feed;
struct Extreme {
    typedef uint64_t value_type; typedef size_t size_type;
    uint64_t rand() { switch (feed->below(5)) { case 0: return 0; case 1: return ~uint64_t(0); case 2: return feed->below(4); case 3: return ~feed->below(1024); default: return feed->next(); } }
    uint64_t rand_max() const { return ~uint64_t(0); }
    void srand(uint64_t = 0) {}
    int32_t nextInt32() { return int32_t(rand()); } uint32_t nextUInt32() { return uint32_t(rand()); } int64_t nextInt64() { return int64_t(rand()); }
    uint64_t nextUInt64() { return rand(); } intptr_t nextInt() { return intptr_t(rand()); } size_t nextUInt() { return size_t(rand()); }
};
typedef jstd::BasicRandomGenerator<Extreme> ExtremeGen;
// draws within bounds; every value of a small range turns up
template <class Gen, class S, class F1, class F2> static void ranged(const char * what, Rng & g, F1 two, F2 upto) {
    typedef typename std::make_unsigned<S>::type U; const bool sgn = std::is_signed<S>::value;
    for (int i = 0; i < 60; i++) {
        S lo, hi; const S MIN = std::numeric_limits<S>::min(), MAX = std::numeric_limits<S>::max();
        switch (g.below(8)) {
        case 0: lo = MIN; hi = MAX; break;
        case 1: lo = hi = S(g.next()); break;
        case 2: lo = MIN; hi = S(g.next()); break;
        case 3: lo = S(g.next()); hi = MAX; break;
        case 4: lo = S(U(MAX) - U(g.below(5))); hi = MAX; break;
        case 5: lo = MIN; hi = S(U(MIN) + U(g.below(5))); break;
        case 6: lo = S(sgn ? 0 - U(g.below(50)) : U(g.below(50))); hi = S(U(lo) + U(g.below(20))); break;
        default: lo = S(g.next()); hi = S(g.next()); if (lo > hi) std::swap(lo, hi);
        }
        U span = U(hi) - U(lo); bool small = span < 20; std::vector<bool> seen(small ? size_t(span) + 1 : 0);
        for (int k = 0, n = small ? 100 * int(span + 1) : 20; k < n; k++) {
            S x = g.chance(1, 2) ? two(lo, hi) : two(hi, lo);
            CHECK(x >= lo && x <= hi, "range", "%s: %lld is not within %lld and %lld", what, (long long)x, (long long)lo, (long long)hi);
            if (small) seen[size_t(U(x) - U(lo))] = true;
            if (!sgn || k % 2) { S y = upto(hi); CHECK(hi >= 0 ? y >= 0 && y <= hi : y <= 0 && y >= hi, "range.upto", "%s: %lld is not within 0 and %lld", what, (long long)y, (long long)hi); }
            vf::stat("ranged"); vf::stat("events");
        }
        if (!std::is_same<Gen, ExtremeGen>::value) for (size_t k = 0; k < seen.size(); k++) CHECK(seen[k], "range.unreached", "%s: %lld never came up in %llu draws within %lld and %lld", what, (long long)S(U(lo) + U(k)), (ull)seen.size() * 100, (long long)lo, (long long)hi);
        vf::stat(small ? "ranges_covered" : "ranges_wide");
    }
}
template <class F> static F real(Rng & g) { F f; switch (g.below(5)) { case 0: f = F(int64_t(g.below(2001)) - 1000); break; case 1: f = F(int64_t(g.next())); break; case 2: f = F(g.below(1000)) / 997; break; case 3: f = std::ldexp(F(1), int(g.below(60)) - 30); break; default: f = 0; } return g.chance(1, 2) ? f : -f; }
template <class Gen> static uint64_t draws(Rng & g, const char * what) {
    ranged<Gen, int32_t>(what, g, [](int32_t a, int32_t b) { return Gen::nextInt32(a, b); }, [](int32_t b) { return Gen::nextInt32(b); });
    ranged<Gen, uint32_t>(what, g, [](uint32_t a, uint32_t b) { return Gen::nextUInt32(a, b); }, [](uint32_t b) { return Gen::nextUInt32(b); });
    ranged<Gen, int64_t>(what, g, [](int64_t a, int64_t b) { return Gen::nextInt64(a, b); }, [](int64_t b) { return Gen::nextInt64(b); });
    ranged<Gen, uint64_t>(what, g, [](uint64_t a, uint64_t b) { return Gen::nextUInt64(a, b); }, [](uint64_t b) { return Gen::nextUInt64(b); });
    ranged<Gen, intptr_t>(what, g, [](intptr_t a, intptr_t b) { return Gen::nextInt(a, b); }, [](intptr_t b) { return Gen::nextInt(b); });
    ranged<Gen, size_t>(what, g, [](size_t a, size_t b) { return Gen::nextUInt(a, b); }, [](size_t b) { return Gen::nextUInt(b); });
    for (int i = 0; i < 2000; i++) {
        float f = Gen::nextFloat(); double d = Gen::nextDouble(), e = Gen::nextDouble53();
        CHECK(f >= 0 && f <= 1, "range.unit", "%s: nextFloat() %g", what, f); CHECK(d >= 0 && d <= 1, "range.unit", "%s: nextDouble() %g", what, d); CHECK(e >= 0 && e < 1, "range.unit", "%s: nextDouble53() %g", what, e);
        float a = real<float>(g), b = g.chance(1, 8) ? a : real<float>(g), x = Gen::nextFloat(a, b); double p = real<double>(g), q = g.chance(1, 8) ? p : real<double>(g), y = Gen::nextDouble(p, q), z = Gen::nextDouble53(p, q);
        CHECK(x >= std::min(a, b) && x <= std::max(a, b), "range.float", "%s: %.9g is not within %.9g and %.9g", what, x, a, b);
        CHECK(y >= std::min(p, q) && y <= std::max(p, q), "range.double", "%s: %.17g is not within %.17g and %.17g", what, y, p, q); CHECK(z >= std::min(p, q) && z <= std::max(p, q), "range.double", "%s: %.17g is not within %.17g and %.17g", what, z, p, q);
        vf::stat("reals", 6);
    }
    if (std::is_same<Gen, ExtremeGen>::value) return g.next();
    // equal seeds, equal sequences
    uint32_t s = uint32_t(g.range(1, ~0u)); std::vector<uint64_t> one, two; Rng h = g;
    for (int r = 0; r < 2; r++) { Rng k = h; Gen::srand(s); auto & v = r ? two : one; for (int i = 0; i < 700; i++) v.push_back(k.below(3) == 0 ? uint64_t(Gen::rand()) : k.below(2) ? Gen::nextUInt64() : uint64_t(Gen::nextUInt32(1, 1000))); }
    CHECK(one == two, "reseed", "%s: two sequences from seed %u differ", what, s); vf::stat("reseeded");
    for (uint64_t x : one) h.s = hash2(h.s, x);
    return h.s;
}
// the single generator behind the static functions
template <class T> static void shared(Rng & g) {
    typedef typename Kind<T>::Gen Gen; typedef typename Kind<T>::W W; Model<T> m; W s = seed_value<W>(g);
    if (g.chance(1, 2)) Gen::srand(s); else Gen x(s);
    m.seed(s);
    for (size_t i = 0; i < Kind<T>::N * 2 + 5; i++) { W a = m.next(), b = Gen::rand(); CHECK(a == b, "sequence.static", "number %llu after srand(%llu) is %llu instead of %llu", (ull)i, (ull)s, (ull)b, (ull)a); }
    CHECK(Gen::rand_max() == W(~W(0)), "rand_max", "%llu", (ull)Gen::rand_max());
    vf::stat("drawn", Kind<T>::N * 2 + 5);
}
int main(int argc, char ** argv) {
    init(argc, argv);
    { Model<jstd::MT19937_32> a; a.seed({ 0x123, 0x234, 0x345, 0x456 }, 19650218u); Model<jstd::MT19937_64> b; b.seed({ 0x12345, 0x23456, 0x34567, 0x45678 }, 19650218u);      // the authors' published outputs
      if (a.next() != 1067595299u || a.next() != 955945823u || b.next() != 7266447313870364031ull || b.next() != 4946485549665804864ull) broken("the model is not the reference generator"); }
    return run_cases([](uint64_t c, uint64_t seed) {
        Rng g(seed); uint64_t d = hash2(sequences<jstd::MT19937_32>(g), sequences<jstd::MT19937_64>(g));
        shared<jstd::MT19937_32>(g); shared<jstd::MT19937_64>(g);
        if (c % 8 == 0) { d = hash2(d, draws<jstd::MtRandomGen32>(g, "MtRandomGen32")); d = hash2(d, draws<jstd::MtRandomGen64>(g, "MtRandomGen64")); jstd::RandomGen::srand(uint32_t(seed | 1)); d = hash2(d, draws<jstd::RandomGen>(g, "RandomGen")); }
        if (c % 8 == 1) { Rng f(seed + 1); feed = &f; draws<ExtremeGen>(g, "an engine of extreme words"); }
        nontrivial(d);
    });
}
