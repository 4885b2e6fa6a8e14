// C24: bit scans, rounding to powers of two and integer logarithms. CFG 1: as compiled here; 2: for 32 bit words.
#include "prelude.h"
#include "common.h"
#include "jstd/basic/stddef.h"
#include "jstd/basic/stdint.h"
#include "jstd/basic/stdsize.h"
#include "jstd/basic/platform.h"
#if CFG == 2
#undef JSTD_WORD_LEN
#define JSTD_WORD_LEN 32
#endif
#include "jstd/support/BitUtils.h"
#include "jstd/support/Power2.h"
#include "jstd/math/log10_int.h"
using namespace vf;
namespace bu = jstd::BitUtils; namespace rt = jstd::run_time; namespace ct = jstd::compile_time;
// the meaning, by counting bits one at a time
struct Ref { unsigned pop, lo, hi, log10; };           // number of bits, lowest and highest one, floor(log10)
static Ref ref(uint64_t v) {
    Ref r = { 0, 64, 0, 0 };
    for (unsigned i = 0; i < 64; i++) if (v >> i & 1) { r.pop++; if (r.lo == 64) r.lo = i; r.hi = i; }
    for (uint64_t q = v / 10; q; q /= 10) r.log10++;
    return r;
}
static unsigned ceil_log2(uint64_t v) { unsigned k = 0; while (k < 64 && (uint64_t(1) << k) < v) k++; return k; }      // 0 for 0 and 1
static unsigned floor_log2(uint64_t v) { unsigned k = 0; while (v >>= 1) k++; return k; }
template <class C> static std::string sh(C c) { char b[40]; snprintf(b, sizeof b, "%llu", (unsigned long long)c); return b; }
static uint64_t evals;
#define EQ(name, got, want, v) do { auto g_ = (got); auto w_ = (want); evals++; \
    CHECK(uint64_t(g_) == uint64_t(w_), name, name "(%llu) is %llu instead of %llu", (unsigned long long)(v), (unsigned long long)g_, (unsigned long long)w_); } while (0)
static const uint64_t TOP = uint64_t(1) << 63;
static void v64(uint64_t v) {
    Ref r = ref(v);
    EQ("popcnt64", bu::popcnt64(v), r.pop, v); EQ("internal_popcnt64", bu::__internal_popcnt64(v), r.pop, v);
    EQ("countTrailingZeros64", bu::countTrailingZeros64(v), r.lo, v); EQ("countLeadingZeros64", bu::countLeadingZeros64(v), v ? 63 - r.hi : 64, v);
    EQ("internal_ctzll", bu::__internal_ctzll(v), r.lo, v); EQ("internal_clzll", bu::__internal_clzll(v), v ? 63 - r.hi : 64, v);
    uint64_t lo = v ? uint64_t(1) << r.lo : 0, hi = v ? uint64_t(1) << r.hi : 0;
    EQ("ls1b64", bu::ls1b64(v), lo, v); EQ("ms1b64", bu::ms1b64(v), hi, v); EQ("clearLowBit64", bu::clearLowBit64(v), v ^ lo, v);
    if (v) { EQ("bsf64", bu::bsf64(v), r.lo, v); EQ("bsr64", bu::bsr64(v), r.hi, v); }
    unsigned cl = ceil_log2(v);
    EQ("log2_64", bu::log2_64(v), cl, v);
    EQ("jm_log10_u64", jstd::jm_log10_u64(v), r.log10, v);
#if CFG == 1
    EQ("popcnt", bu::popcnt(v), r.pop, v); EQ("countTrailingZeros", bu::countTrailingZeros(v), r.lo, v); EQ("countLeadingZeros", bu::countLeadingZeros(v), v ? 63 - r.hi : 64, v);
    EQ("ls1b", bu::ls1b(v), lo, v); EQ("ms1b", bu::ms1b(v), hi, v); EQ("clearLowBit", bu::clearLowBit(v), v ^ lo, v); EQ("BitUtils.log2_int", bu::log2_int(v), cl, v);
    if (v) { EQ("bsf", bu::bsf(v), r.lo, v); EQ("bsr", bu::bsr(v), r.hi, v); }
#endif
}
static void v32(uint32_t v) {
    Ref r = ref(v); if (!v) r.lo = 32;
    EQ("popcnt32", bu::popcnt32(v), r.pop, v); EQ("internal_popcnt", bu::__internal_popcnt(v), r.pop, v); EQ("internal_popcnt_slow", bu::__internal_popcnt_slow(v), r.pop, v);
    EQ("internal_hakmem_popcnt", bu::__internal_hakmem_popcnt(v), r.pop, v);
    EQ("countTrailingZeros32", bu::countTrailingZeros32(v), r.lo, v); EQ("countLeadingZeros32", bu::countLeadingZeros32(v), v ? 31 - r.hi : 32, v);
    EQ("internal_ctz", bu::__internal_ctz(v), r.lo, v); EQ("internal_clz", bu::__internal_clz(v), v ? 31 - r.hi : 32, v);
    uint32_t lo = v ? uint32_t(1) << r.lo : 0, hi = v ? uint32_t(1) << r.hi : 0;
    EQ("ls1b32", bu::ls1b32(v), lo, v); EQ("ms1b32", bu::ms1b32(v), hi, v); EQ("clearLowBit32", bu::clearLowBit32(v), v ^ lo, v);
    if (v) { EQ("bsf32", bu::bsf32(v), r.lo, v); EQ("bsr32", bu::bsr32(v), r.hi, v); }
    EQ("log2_32", bu::log2_32(v), ceil_log2(v), v);
    EQ("jm_log10_u32", jstd::jm_log10_u32(v), r.log10, v);
#if CFG == 2
    EQ("popcnt", bu::popcnt(v), r.pop, v); EQ("countTrailingZeros", bu::countTrailingZeros(v), r.lo, v); EQ("countLeadingZeros", bu::countLeadingZeros(v), v ? 31 - r.hi : 32, v);
    EQ("ls1b", bu::ls1b(v), lo, v); EQ("ms1b", bu::ms1b(v), hi, v); EQ("clearLowBit", bu::clearLowBit(v), v ^ lo, v); EQ("BitUtils.log2_int", bu::log2_int(v), ceil_log2(v), v);
    if (v) { EQ("bsf", bu::bsf(v), r.lo, v); EQ("bsr", bu::bsr(v), r.hi, v); }
#endif
}
// the run time forms over one integer type; a signed value stands for the unsigned one of its width
template <class T> static void typed(T t) {
    typedef typename std::make_unsigned<T>::type U;
    uint64_t v = U(t); const unsigned W = sizeof(T) * 8; const uint64_t top = uint64_t(1) << (W - 1);
    if (v) {
        EQ("run_time.is_pow2", rt::is_pow2(t), (v & (v - 1)) == 0, v);
        EQ("run_time.bitScanForward", rt::bitScanForward(t), ref(v).lo, v); EQ("run_time.bitScanReverse", rt::bitScanReverse(t), floor_log2(v), v);
        EQ("run_time.countTrailingZeros", rt::countTrailingZeros(t), ref(v).lo, v);
        if (W >= 32) EQ("run_time.countLeadingZeros", rt::countLeadingZeros(t), W - 1 - floor_log2(v), v);
    }
    EQ("run_time.clear_low_bit", U(rt::clear_low_bit(t)), v & (v - 1), v);
    EQ("run_time.prev_pow2", rt::prev_pow2(t), v > 1 ? uint64_t(1) << (floor_log2(v) - 1) : 0, v);
    EQ("run_time.round_down", rt::round_down(t), v > 1 ? uint64_t(1) << floor_log2(v - 1) : 0, v);
    EQ("run_time.round_to", rt::round_to(t), v ? uint64_t(1) << floor_log2(v) : 0, v);
    if (v <= top) EQ("run_time.round_up", rt::round_up(t), v ? uint64_t(1) << ceil_log2(v) : 0, v);
    else if (W >= 32) EQ("run_time.round_up", rt::round_up(t), U(~U(0)), v);                // no such power: the largest number
    if (v < top) EQ("run_time.next_pow2", rt::next_pow2(t), v ? uint64_t(2) << floor_log2(v) : 1, v);
    else if (W >= 32) EQ("run_time.next_pow2", rt::next_pow2(t), U(~U(0)), v);
    if (v <= top || W >= 32) EQ("run_time.log2_int", rt::log2_int(t), ceil_log2(v), v);
}
// the compile time forms, of 2^K - 1, 2^K, 2^K + 1 and of scattered numbers
struct Fixed { size_t n; bool pow2; size_t clz, ctz, clear, to[2], down[2], up[2], next[2], min[3], max[3]; long long mn[2], mx[2]; };
template <size_t N> constexpr Fixed fixed() {
    constexpr size_t M = N / 3 * 2 + 5; constexpr long long A = (long long)N, B = 77;
    return Fixed{ N, ct::is_pow2<N>::value, ct::countLeadingZeros<N>::value, ct::countTrailingZeros<N>::value, ct::clear_low_bit<N>::value,
        { ct::round_to_pow2<N>::value, ct::round_to_power2<N>::value }, { ct::round_down_pow2<N>::value, ct::round_down_power2<N>::value },
        { ct::round_up_pow2<N>::value, ct::round_up_power2<N>::value }, { ct::next_pow2<N>::value, ct::next_power2<N>::value },
        { ct::cmin<N, M>::value, ct::cmin<M, N>::value, ct::cmin<N, N>::value }, { ct::cmax<N, M>::value, ct::cmax<M, N>::value, ct::cmax<N, N>::value },
        { ct::Min<long long, A, B>(), ct::Min<B, A>() }, { ct::Max<long long, A, B>(), ct::Max<B, A>() } };
}
static void check_fixed(const Fixed & f) {
    volatile size_t hide = f.n; const size_t v = hide, M = v / 3 * 2 + 5; const long long A = (long long)v, B = 77;
    if (v) {
        EQ("compile_time.is_pow2", f.pow2, ref(v).pop == 1, v); EQ("forms.is_pow2", f.pow2, rt::is_pow2(v), v);
        EQ("compile_time.countLeadingZeros", f.clz, 63 - floor_log2(v), v); EQ("forms.countLeadingZeros", f.clz, rt::countLeadingZeros(v), v);
        EQ("compile_time.countTrailingZeros", f.ctz, ref(v).lo, v); EQ("forms.countTrailingZeros", f.ctz, rt::countTrailingZeros(v), v);
    }
    EQ("compile_time.clear_low_bit", f.clear, v & (v - 1), v); EQ("forms.clear_low_bit", f.clear, rt::clear_low_bit(v), v);
    uint64_t to = v ? uint64_t(1) << floor_log2(v) : 0, down = v > 1 ? uint64_t(1) << floor_log2(v - 1) : 0;
    uint64_t up = v > TOP ? ~uint64_t(0) : v ? uint64_t(1) << ceil_log2(v) : 0, next = v >= TOP ? ~uint64_t(0) : v ? uint64_t(2) << floor_log2(v) : 1;
    EQ("compile_time.round_to_pow2", f.to[0], to, v); EQ("compile_time.round_to_power2", f.to[1], to, v); EQ("forms.round_to", f.to[0], rt::round_to(v), v);
    EQ("compile_time.round_down_pow2", f.down[0], down, v); EQ("compile_time.round_down_power2", f.down[1], down, v); EQ("forms.round_down", f.down[0], rt::round_down(v), v);
    EQ("compile_time.round_up_pow2", f.up[0], up, v); EQ("compile_time.round_up_power2", f.up[1], up, v); EQ("forms.round_up", f.up[0], rt::round_up(v), v);
    EQ("compile_time.next_pow2", f.next[0], next, v); EQ("compile_time.next_power2", f.next[1], next, v); EQ("forms.next_pow2", f.next[0], rt::next_pow2(v), v);
    for (int i = 0; i < 3; i++) { EQ("compile_time.cmin", f.min[i], std::min(v, i < 2 ? M : v), v); EQ("compile_time.cmax", f.max[i], std::max(v, i < 2 ? M : v), v); }
    for (int i = 0; i < 2; i++) { EQ("compile_time.Min", f.mn[i], std::min(A, B), v); EQ("compile_time.Max", f.mx[i], std::max(A, B), v); }
    vf::stat("compile_time");
}
constexpr size_t scatter(size_t i) { size_t z = (i + 1) * 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z ^= z >> 27; return z >> (i * 7 % 61); }
template <size_t... K> static void all_fixed(std::index_sequence<K...>) {
    static constexpr Fixed t[] = { fixed<(size_t(1) << K) - 1>()..., fixed<(size_t(1) << K)>()..., fixed<(size_t(1) << K) + 1>()..., fixed<(size_t(1) << K) + (size_t(1) << K / 2)>()...,
        fixed<~(size_t(1) << K)>()..., fixed<(~size_t(0) << K)>()..., fixed<scatter(K)>()..., fixed<scatter(K + 64)>()..., fixed<K>()..., fixed<K + 64>()... };
    for (auto & f : t) check_fixed(f);
}
static void types(uint64_t v) {
    typed<uint8_t>(uint8_t(v)); typed<int8_t>(int8_t(v)); typed<uint16_t>(uint16_t(v)); typed<int16_t>(int16_t(v));
    typed<uint32_t>(uint32_t(v)); typed<int32_t>(int32_t(v)); typed<uint64_t>(v); typed<int64_t>(int64_t(v)); typed<long>(long(v)); typed<unsigned long>(v); typed<long long>((long long)v); typed<unsigned long long>(v); typed<char>(char(v));
}
static uint64_t value(Rng & g) {
    switch (g.below(6)) {
    case 0: { uint64_t p = 1; for (uint64_t k = g.below(20); k; k--) p *= 10; return p + g.below(3) - 1; }
    case 1: return (uint64_t(1) << g.below(64)) + g.below(5) - 2;
    case 2: return ~((uint64_t(1) << g.below(64)) + g.below(5) - 2);
    case 3: return (uint64_t(1) << g.below(64)) | (uint64_t(1) << g.below(64));
    case 4: return g.next() >> g.below(64);
    default: return g.next() & g.next() & g.next();
    }
}
int main(int argc, char ** argv) {
    init(argc, argv);
    const uint64_t blocks = argu("blocks", 1 << 14), len = (uint64_t(1) << 32) / blocks, part = argu("part", 16);
    return run_cases([&](uint64_t c, uint64_t seed) {
        Rng g(seed); evals = 0; uint64_t before = c % blocks * len;
        if (c == 0) { all_fixed(std::make_index_sequence<64>()); for (unsigned v = 0; v < 70000; v++) types(v); }
        // a stretch of the 32 bit numbers (of each block, one in PART, or all of them), and numbers of all widths
        for (uint64_t i = 0, s = part > 1 ? g.below(part) : 0; i < len / part; i++) { uint32_t v = uint32_t(before + s + i * part); v32(v); if (i % 64 == 0) { typed<uint32_t>(v); typed<int32_t>(int32_t(v)); v64(v); } }
        vf::stat("values_32", len / part);
        for (int i = 0; i < 300; i++) { uint64_t v = value(g); v64(v); v32(uint32_t(v)); v32(uint32_t(v >> 32)); types(v); }
        for (unsigned k = 0; k < 64; k++) for (int d = -2; d <= 2; d++) { uint64_t v = (uint64_t(1) << k) + d; if (c % 16 == 0) { v64(v); v32(uint32_t(v)); types(v); } }
        vf::stat("values_64", 300); vf::stat("events", evals); nontrivial(seed);
        if (c % 997 == 5) G().samples.push_back("32 bit numbers from " + sh(before) + ", and " + sh(value(g)));
    });
}
