// C25: the SIMD wrappers of BitVec.h against their meaning on an array of lanes.
#include "prelude.h"
#include "common.h"
#include "jstd/basic/stddef.h"
#include "jstd/basic/stdint.h"
#include "jstd/basic/stdsize.h"
#include "jstd/support/BitVec.h"
using namespace vf;
struct V128 { uint8_t b[16]; };
struct V256 { uint8_t b[32]; };
static __m128i in(const V128 & v) { __m128i m; memcpy(&m, v.b, 16); return m; }
static __m256i in(const V256 & v) { __m256i m; memcpy(&m, v.b, 32); return m; }
static V128 out(__m128i m) { V128 v; memcpy(v.b, &m, 16); return v; }
static V256 out(__m256i m) { V256 v; memcpy(v.b, &m, 32); return v; }
static std::string hexs(const uint8_t * p, size_t n) { std::string s; char t[4]; for (size_t i = 0; i < n; i++) { snprintf(t, sizeof t, "%02x", p[i]); s += t; } return s; }
static uint64_t evals;
template <class V> static void same(const char * name, const V & got, const V & want, const V & of, int lane = -1) {
    evals++;
    CHECK(memcmp(got.b, want.b, sizeof got.b) == 0, name, "%s (lane %d) of %s is %s instead of %s", name, lane, hexs(of.b, sizeof of.b).c_str(), hexs(got.b, sizeof got.b).c_str(), hexs(want.b, sizeof want.b).c_str());
}
template <class V> static void num(const char * name, uint64_t got, uint64_t want, const V & of, int lane = -1) {
    evals++;
    CHECK(got == want, name, "%s (lane %d) of %s is %llx instead of %llx", name, lane, hexs(of.b, sizeof of.b).c_str(), (unsigned long long)got, (unsigned long long)want);
}
template <class L, class V> static L lane(const V & v, int i) { L l; memcpy(&l, v.b + i * sizeof(L), sizeof l); return l; }
template <class L, class V> static V with(V v, int i, L l) { memcpy(v.b + i * sizeof(L), &l, sizeof l); return v; }
template <class V> static V vec(Rng & g) {
    V v; uint64_t kind = g.below(6); uint8_t a = uint8_t(g.next()), c = uint8_t(g.next());
    for (auto & b : v.b) switch (kind) { case 0: b = 0; break; case 1: b = 255; break; case 2: b = g.chance(1, 8) ? uint8_t(g.next()) : 0; break; case 3: b = g.chance(1, 2) ? a : c; break; case 4: b = uint8_t(0x7f + g.below(3)); break; default: b = uint8_t(g.next()); }
    return v;
}
static uint64_t value(Rng & g) { switch (g.below(4)) { case 0: return g.below(3) - 1; case 1: return uint64_t(1) << g.below(64); case 2: return ~(uint64_t(1) << g.below(64)); default: return g.next(); } }
template <int I> static void lane16(const V256 & v, uint64_t x) {
    num("mm256_extract_epi16", uint32_t(jstd::AVX::mm256_extract_epi16<I>(in(v))), lane<uint16_t>(v, I), v, I);
    same("mm256_insert_epi16", out(jstd::AVX::mm256_insert_epi16<I>(in(v), int(uint16_t(x)))), with(v, I, uint16_t(x)), v, I);
    same("mm256_insert_epi16_gcc", out(jstd::AVX::mm256_insert_epi16_gcc<I>(in(v), int(uint16_t(x)))), with(v, I, uint16_t(x)), v, I);
}
template <int I> static void lane32(const V256 & v, uint64_t x) {
    num("mm256_extract_epi32", uint32_t(jstd::AVX::mm256_extract_epi32<I>(in(v))), lane<uint32_t>(v, I), v, I);
    same("mm256_insert_epi32", out(jstd::AVX::mm256_insert_epi32<I>(in(v), int32_t(x))), with(v, I, uint32_t(x)), v, I);
}
template <int I> static void lane64(const V256 & v, uint64_t x) {
    num("mm256_extract_epi64", uint64_t(jstd::AVX::mm256_extract_epi64<I>(in(v))), lane<uint64_t>(v, I), v, I);
    same("mm256_insert_epi64", out(jstd::AVX::mm256_insert_epi64<I>(in(v), int64_t(x))), with(v, I, x), v, I);
}
template <int... I> static void lanes16(std::integer_sequence<int, I...>, const V256 & v, uint64_t x) { (lane16<I>(v, x), ...); }
template <int... I> static void lanes32(std::integer_sequence<int, I...>, const V256 & v, uint64_t x) { (lane32<I>(v, x), ...); }
template <int... I> static void lanes64(std::integer_sequence<int, I...>, const V256 & v, uint64_t x) { (lane64<I>(v, x), ...); }
static void one(Rng & g) {
    V256 v = vec<V256>(g), w = vec<V256>(g); V128 a = vec<V128>(g), b = g.chance(1, 4) ? a : vec<V128>(g); uint64_t x = value(g);
    lanes16(std::make_integer_sequence<int, 16>(), v, x); lanes32(std::make_integer_sequence<int, 8>(), v, x); lanes64(std::make_integer_sequence<int, 4>(), v, x);
    V128 gt, lt; for (int i = 0; i < 16; i++) { gt.b[i] = int8_t(a.b[i]) > int8_t(b.b[i]) ? 255 : 0; lt.b[i] = int8_t(a.b[i]) < int8_t(b.b[i]) ? 255 : 0; }
    same("_mm_cmpgt_epi8_fixed", out(jstd::_mm_cmpgt_epi8_fixed(in(a), in(b))), gt, a); same("_mm_cmplt_epi8_fixed", out(jstd::_mm_cmplt_epi8_fixed(in(a), in(b))), lt, a);
    V128 s; for (int i = 0; i < 4; i++) s = with(s, i, uint32_t(x)); same("mm_set1_epi32", out(jstd::SSE::mm_set1_epi32(int(uint32_t(x)))), s, a);
    for (int i = 0; i < 2; i++) s = with(s, i, x); same("mm_set1_epi64", out(jstd::SSE::mm_set1_epi64(int64_t(x))), s, a);
    num("mm_cvtsi128_si32_low", jstd::SSE::mm_cvtsi128_si32_low(in(a)), lane<uint16_t>(a, 0), a); num("mm_cvtsi128_si32_high", jstd::SSE::mm_cvtsi128_si32_high(in(a)), lane<uint16_t>(a, 1), a);
    num("mm256_cvtsi256_si32_low", jstd::AVX::mm256_cvtsi256_si32_low(in(v)), lane<uint16_t>(v, 0), v); num("mm256_cvtsi256_si32_high", jstd::AVX::mm256_cvtsi256_si32_high(in(v)), lane<uint16_t>(v, 1), v);
    num("mm_cvtsi128_si16", jstd::AVX512::mm_cvtsi128_si16(in(a)), lane<uint16_t>(a, 0), a);
    V128 o1; V256 o2; memset(o1.b, 255, 16); memset(o2.b, 255, 32);
    same("_mm_setones_si128", out(jstd::_mm_setones_si128()), o1, a);
#ifdef __AVX2__
    same("_mm256_setones_si256", out(jstd::_mm256_setones_si256()), o2, v);
#endif
    // the names it adds to those of the compiler
    V256 ab; memcpy(ab.b, a.b, 16); memcpy(ab.b + 16, b.b, 16);
    same("_mm256_set_m128i", out(_mm256_set_m128i(in(b), in(a))), ab, ab); same("_mm256_setr_m128i", out(_mm256_setr_m128i(in(a), in(b))), ab, ab);
    same("_mm256_set_m128", out(_mm256_castps_si256(_mm256_set_m128(_mm_castsi128_ps(in(b)), _mm_castsi128_ps(in(a))))), ab, ab);
    same("_mm256_setr_m128", out(_mm256_castps_si256(_mm256_setr_m128(_mm_castsi128_ps(in(a)), _mm_castsi128_ps(in(b))))), ab, ab);
    same("_mm256_set_m128d", out(_mm256_castpd_si256(_mm256_set_m128d(_mm_castsi128_pd(in(b)), _mm_castsi128_pd(in(a))))), ab, ab);
    same("_mm256_setr_m128d", out(_mm256_castpd_si256(_mm256_setr_m128d(_mm_castsi128_pd(in(a)), _mm_castsi128_pd(in(b))))), ab, ab);
    num("_mm256_cvtsi256_si32", uint32_t(_mm256_cvtsi256_si32(in(v))), lane<uint32_t>(v, 0), v);
    same("_mm_setr_epi64x", out(_mm_setr_epi64x(int64_t(x), int64_t(~x * 3))), with(with(a, 0, x), 1, ~x * 3), a);
    bool zeros = true, ones = true, andn = true; for (int i = 0; i < 32; i++) { zeros = zeros && !(v.b[i] & w.b[i]); andn = andn && !(~v.b[i] & w.b[i] & 255); ones = ones && v.b[i] == 255; }
    num("_mm256_test_all_zeros", uint64_t(_mm256_test_all_zeros(in(v), in(w))), zeros, v);
    num("_mm256_test_mix_ones_zeros", uint64_t(_mm256_test_mix_ones_zeros(in(v), in(w))), !zeros && !andn, v);
#ifdef __AVX2__
    num("_mm256_test_all_ones", uint64_t(_mm256_test_all_ones(in(v))), ones, v);
#endif
    jstd::IntVec128 u1; u1.m128 = in(a); jstd::IntVec256 u2; u2.m256 = in(v);
    for (int i = 0; i < 32; i++) { num("IntVec256.u8", u2.u8[i], v.b[i], v, i); num("IntVec256.i16", uint16_t(u2.i16[i / 2]), lane<uint16_t>(v, i / 2), v, i); num("IntVec256.u64", u2.u64[i / 8], lane<uint64_t>(v, i / 8), v, i); }
    for (int i = 0; i < 16; i++) { num("IntVec128.u8", u1.u8[i], a.b[i], a, i); num("IntVec128.i32", uint32_t(u1.i32[i / 4]), lane<uint32_t>(a, i / 4), a, i); num("IntVec128.u64", u1.u64[i / 8], lane<uint64_t>(a, i / 8), a, i); }
}
int main(int argc, char ** argv) {
    init(argc, argv);
    return run_cases([](uint64_t c, uint64_t seed) {
        Rng g(seed); evals = 0;
        for (int i = 0; i < 1000; i++) { one(g); step(); }
        nontrivial(seed); vf::stat("operands", 1000); vf::stat("events", evals);
        if (c % 97 == 5) { Rng h(seed); V256 v = vec<V256>(h); G().samples.push_back("vector " + hexs(v.b, 32)); }
    });
}
