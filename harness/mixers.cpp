// C20: the integer mixers against arithmetic done on 16 bit digits. CFG 1: as compiled here; CFG 2: the portable multiplication
// (no 128 bit integer type); CFG 3: the multiplication for ARM.
#include "prelude.h"
#include "common.h"
#include <bitset>
#include <filesystem>
#include <thread>
#if CFG >= 2
#undef __SIZEOF_INT128__
#endif
#if CFG == 3
#define __ARM64__ 1
#endif
#include "jstd/basic/stddef.h"
#include "jstd/basic/stdint.h"
#include "jstd/basic/stdsize.h"
#include "jstd/hasher/hashes.h"
#if CFG == 1
#include "jstd/hasher/hash_crc32.h"
#include "jstd/hasher/hash_helper.h"
#endif
using namespace vf;
namespace jh = jstd::hashes;
struct Wide { uint64_t lo, hi; };
static Wide mul(uint64_t a, uint64_t b) {            // 16 bit digits, carries kept apart
    uint64_t d[9] = { 0 };
    for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) {
        uint64_t p = ((a >> 16 * i) & 0xffff) * ((b >> 16 * k) & 0xffff);
        for (int j = i + k; p; j++) { d[j] += p & 0xffff; p >>= 16; p += d[j] >> 16; d[j] &= 0xffff; }
    }
    Wide w = { 0, 0 }; for (int i = 3; i >= 0; i--) { w.lo = w.lo << 16 | d[i]; w.hi = w.hi << 16 | d[i + 4]; }
    return w;
}
#define EQ(name, got, want, ...) do { uint64_t g_ = uint64_t(got), w_ = uint64_t(want); step(); vf::stat("events"); vf::stat("of_" name); \
    CHECK(g_ == w_, name, name "(%llx, %llx) is %llx instead of %llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)g_, (unsigned long long)w_); } while (0)
static const uint64_t PHI = 11400714818402800987ull;
static uint64_t fib64(uint64_t v) { return mul(v, PHI).lo >> 28; }
static uint64_t mum(uint64_t v, uint64_t m) { Wide w = mul(v, m); return w.lo ^ w.hi; }
#if CFG == 1
static uint32_t crc(uint32_t c, uint64_t v, int bits) { for (int i = 0; i < bits; i++) { uint32_t bit = (c ^ uint32_t(v >> i)) & 1; c = (c >> 1) ^ (bit ? 0x82f63b78u : 0); } return c; }
#endif
struct H { typedef size_t result_type; template <class T> size_t operator()(const T & x) const noexcept { return std::hash<T>()(x) * 3 + 1; } };
struct H32 { typedef uint32_t result_type; template <class T> uint32_t operator()(const T & x) const noexcept { return uint32_t(std::hash<T>()(x)) * 3 + 1; } };
template <class T> static void functors(uint64_t a, const char * ty) {
    T t = T(a); uint64_t b = 0, v = uint64_t(t); (void)ty;         // an integer is extended by its sign
    EQ("SimpleHash", jstd::SimpleHash<H>()(t), v);
    EQ("SimpleHash32", jstd::SimpleHash<H32>()(t), uint32_t(v));
    EQ("FibonacciHash", jstd::FibonacciHash<H>()(t), fib64(v));
    EQ("FibonacciHash32", jstd::FibonacciHash<H32>()(t), uint32_t(fib64(v)));
    EQ("MumHash", jstd::MumHash<H>()(t), mum(v, PHI));
    EQ("MumHash32", jstd::MumHash<H32>()(t), uint32_t(mum(v, PHI)));
    jstd::fibonacci_hash_policy<H> fp; jstd::mum_hash_policy<H> mp;
    EQ("fibonacci_policy", fp.get_hash_code(t), fib64(v)); EQ("mum_policy", mp.get_hash_code(t), mum(v, PHI));
    EQ("fibonacci_policy.index", fp.template index_for_hash<T>(v, 0), fib64(v) >> 63); EQ("mum_policy.index", mp.template index_for_hash<T>(v, 0), mum(v, PHI) >> 63);
    for (unsigned k = 1; k < 64; k += 1 + unsigned((a >> 7) & 7)) {
        size_t cap = size_t(1) << k;
        auto f = fp.calc_next_capacity(cap), m = mp.calc_next_capacity(cap);
        EQ("shift", f, 64 - k); EQ("shift", m, 64 - k); EQ("shift", cap, size_t(1) << k);
        fp.commit(f); mp.commit(m);
        EQ("fibonacci_policy.index", fp.template index_for_hash<T>(v, cap - 1), fib64(v) >> (64 - k));
        EQ("mum_policy.index", mp.template index_for_hash<T>(v, cap - 1), mum(v, PHI) >> (64 - k));
        EQ("mum_policy.index_of_string", mp.template index_for_hash<std::string>(v, cap - 1), v >> (64 - k));
        EQ("fibonacci_policy.index_of_string", fp.template index_for_hash<std::string>(v, cap - 1), v >> (64 - k));
        EQ("round_index", fp.round_index(v, cap - 1), v % cap); EQ("round_index", mp.round_index(v, cap - 1), v % cap);
        auto c1 = fp; auto c2 = mp; EQ("fibonacci_policy.copy", c1.template index_for_hash<T>(v, 0), fp.template index_for_hash<T>(v, 0)); EQ("mum_policy.copy", c2.template index_for_hash<T>(v, 0), mp.template index_for_hash<T>(v, 0));
    }
    fp.reset(); mp.reset(); EQ("reset", fp.template index_for_hash<T>(v, 0), fib64(v) >> 63); EQ("reset", mp.template index_for_hash<T>(v, 0), mum(v, PHI) >> 63);
#if CFG == 1
    EQ("hash_helper", (jstd::hash_helper<T, uint32_t, jstd::HashFunc_CRC32C>::getHashCode(t)), uint32_t(v));
    EQ("hash_helper", (jstd::hash_helper<T, uint32_t, jstd::HashFunc_Time31>::getHashCode(t)), uint32_t(v));
    EQ("hash_helper", (jstd::hash_helper<T, uint32_t, jstd::HashFunc_Time31Std>::getHashCode(t)), uint32_t(v));
    EQ("hash", (jstd::hash<T>()(t)), uint32_t(v));
#endif
}
static uint64_t value(Rng & g) {
    switch (g.below(8)) {
    case 0: return g.below(100);
    case 1: return uint64_t(1) << g.below(64);
    case 2: return (uint64_t(1) << g.below(64)) - 1;
    case 3: return ~((uint64_t(1) << g.below(64)) - g.below(3));
    case 4: return 0x8000000000000000ull + g.below(5) - 2;
    case 5: return (uint64_t(g.below(3) - 1) << 32) + g.below(7) - 3;
    case 6: return g.next() >> g.below(64);
    default: return g.next();
    }
}
static void one(uint64_t a, uint64_t b) {
    Wide w = mul(a, b);
    auto p = jh::uint128_mul(a, b); EQ("uint128_mul.low", p.low, w.lo); EQ("uint128_mul.high", p.high, w.hi);
    auto q = p; jh::_uint128_t r; EQ("uint128.zero", r.low | r.high, 0); r = q; EQ("uint128.copy", r.low ^ w.lo, r.high ^ w.hi); EQ("uint128.low", r.low, w.lo);
    EQ("mum_hash64", jh::mum_hash64(a, b), w.lo ^ w.hi);
    EQ("mum_mul_mix64", jh::mum_mul_mix64(a, b), w.lo ^ w.hi);
    uint64_t p32 = mul(uint32_t(a), uint32_t(b)).lo;
    EQ("mum_hash32", jh::mum_hash32(uint32_t(a), uint32_t(b)), uint32_t(p32) ^ (p32 >> 32));
    EQ("mum_mul_mix32", jh::mum_mul_mix32(uint32_t(a), uint32_t(b)), uint32_t(p32) ^ (p32 >> 32));
    EQ("mum_hash", jh::mum_hash(a), mum(a, PHI));
    EQ("mum_mul_mix", jh::mum_mul_mix(a), mum(a, 0x9E3779B97F4A7C15ull));
    EQ("fibonacci_hash64", jh::fibonacci_hash64(a), fib64(a));
    EQ("fibonacci_hash", jh::fibonacci_hash(a), fib64(a));
    EQ("fibonacci_hash32", jh::fibonacci_hash32(a), mul(uint32_t(a), 2654435761u).lo >> 12);
#if CFG == 1
    uint64_t c = crc(~0u, a, 64), c0 = crc(0, a, 64);
    EQ("intel_simple_int_crc32", jh::intel_simple_int_crc32(a), c);
    EQ("intel_int_crc32_x86", jh::intel_int_crc32_x86(uint32_t(a)), crc(~0u, uint32_t(a), 32));
    EQ("intel_int_crc32_x64", jh::intel_int_crc32_x64(a), c | c0 << 32);
    EQ("int_hash_crc32", jh::int_hash_crc32(a), c | c0 << 32);
    EQ("simple_int_hash_crc32", jh::simple_int_hash_crc32(a), c);
#endif
    if (a % 16 != 3) return;
    functors<bool>(a, "bool"); functors<char>(a, "char"); functors<signed char>(a, "signed char"); functors<unsigned char>(a, "unsigned char");
    functors<short>(a, "short"); functors<unsigned short>(a, "unsigned short"); functors<int>(a, "int"); functors<unsigned>(a, "unsigned");
    functors<long>(a, "long"); functors<unsigned long>(a, "unsigned long"); functors<long long>(a, "long long"); functors<unsigned long long>(a, "unsigned long long"); functors<wchar_t>(a, "wchar_t");
    std::string s = std::to_string(b); double d = double(b);
    EQ("SimpleHash.string", jstd::SimpleHash<H>()(s), H()(s)); EQ("FibonacciHash.string", jstd::FibonacciHash<H>()(s), H()(s)); EQ("MumHash.string", jstd::MumHash<H>()(s), H()(s));
    EQ("SimpleHash.double", jstd::SimpleHash<H>()(d), H()(d)); EQ("MumHash.double", jstd::MumHash<H>()(d), H()(d));
}
int main(int argc, char ** argv) {
    init(argc, argv);
    return run_cases([](uint64_t c, uint64_t seed) {
        Rng g(seed);
        if (c < 64) for (int i = 0; i < 64; i++) { one(uint64_t(1) << c, uint64_t(1) << i); one(~(uint64_t(1) << c), ~(uint64_t(1) << i)); one((uint64_t(1) << c) - 1, ~uint64_t(0) >> i); one(~uint64_t(0) << c, ~uint64_t(0) << i); }
        uint64_t dig = 0;
        for (int i = 0; i < 400; i++) { uint64_t a = value(g), b = value(g); one(a, b); dig = hash2(dig, hash2(a, b)); if (c % 499 == 7 && i == 0) { char t[80]; snprintf(t, sizeof t, "pair %llx %llx", (unsigned long long)a, (unsigned long long)b); G().samples.push_back(t); } }
        nontrivial(dig); vf::stat("pairs", 400);
    });
}
