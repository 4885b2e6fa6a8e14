// C19: the byte-string hash functions and the string hash helpers against their definitions, on strings placed
// so that a read outside them faults, and among neighbours that change.
#include "prelude.h"
#include "jstd/basic/stddef.h"
#include "jstd/basic/stdint.h"
#include "jstd/basic/stdsize.h"
#include "jstd/hasher/hashes.h"
#include "jstd/hasher/hash_crc32.h"
#include "jstd/hasher/fnv1a.h"
#include "jstd/hasher/hash_helper.h"
#ifdef __SHA__          // a build of its own: the processor need not have these instructions
#define JSTD_HAVE_SMID_SHA 1
#include <string.h>
#include <cpuid.h>
#include "jstd/hasher/sha1.h"
#endif
#include "common.h"
#include "guard.h"
using namespace vf;
typedef const unsigned char * P;
namespace jh = jstd::hashes;

// ------------------------------------------------------------------ definitions
static uint32_t crc_byte(uint32_t c, unsigned b) {
    static uint32_t t[256]; static bool ready = false;
    if (!ready) { for (uint32_t i = 0; i < 256; i++) { uint32_t x = i; for (int k = 0; k < 8; k++) x = (x >> 1) ^ (x & 1 ? 0x82f63b78u : 0); t[i] = x; } ready = true; }
    return t[(c ^ b) & 255] ^ (c >> 8);
}
static uint32_t crc_pad(P p, size_t n, size_t unit) {          // CRC32C without final inversion, the tail extended by zeros to a whole unit
    uint32_t c = ~0u; for (size_t i = 0; i < n; i++) c = crc_byte(c, p[i]);
    for (size_t i = n; i % unit; i++) c = crc_byte(c, 0);
    return c;
}
static uint32_t crc_std(P p, size_t n) { uint32_t c = ~0u; for (size_t i = 0; i < n; i++) c = crc_byte(c, p[i]); return ~c; }
static uint32_t times(P p, size_t n, uint32_t s) { uint32_t h = 0; for (size_t i = 0; i < n; i++) h = h * s + p[i]; return h; }
template <class U> static uint32_t ap(P p, size_t n) {
    uint32_t h = 0;
    for (size_t i = 0; i < n; i++) { U u; memcpy(&u, p + i * sizeof(U), sizeof u); h ^= i % 2 ? ~((h << 11) ^ uint32_t(u) ^ (h >> 5)) : ((h << 7) ^ uint32_t(u) ^ (h >> 3)); }
    return h;
}
template <class U> static uint32_t djb(P p, size_t n) { uint32_t h = 5381; for (size_t i = 0; i < n; i++) { U u; memcpy(&u, p + i * sizeof(U), sizeof u); h = h * 33 + uint32_t(u); } return h; }
static uint32_t openssl(P p, size_t n) {
    uint32_t h = 0, i = 0; size_t k = 0;
    for (; k + 1 < n; k += 2) { h ^= uint32_t(p[k] | p[k + 1] << 8) << (i & 15); i++; }
    if (k < n) h ^= uint32_t(p[k]) << (i & 15);
    return h;
}
static uint32_t rd32(P p) { return p[0] | p[1] << 8 | p[2] << 16 | uint32_t(p[3]) << 24; }
static uint32_t rd16(P p) { return p[0] | p[1] << 8; }
static uint32_t rotl(uint32_t x, int r) { return x << r | x >> (32 - r); }
static const uint32_t PR = 709607, BASIS = 2166136261u;
static uint32_t fin(uint32_t a, uint32_t b) { uint32_t h = (a ^ rotl(b, 5)) * PR; return h ^ (h >> 16); }
static void fnv_small(P p, size_t n, uint32_t & a, uint32_t & b) {        // the low four bits of n say which pieces there are
    if (n & 8) { a = (a ^ rd32(p)) * PR; b = (b ^ rd32(p + 4)) * PR; p += 8; }
    if (n & 4) { a = (a ^ rd16(p)) * PR; b = (b ^ rd16(p + 2)) * PR; p += 4; }
    if (n & 2) { a = (a ^ rd16(p)) * PR; p += 2; }
    if (n & 1) a = (a ^ uint32_t(int(*(const signed char *)p))) * PR;
}
static uint32_t yoshimura(P p, size_t n) {
    uint32_t a = BASIS, b = BASIS;
    if (n < 16) { fnv_small(p, n, a, b); return fin(a, b); }
    size_t k = (n + 15) / 16, off = n - 8 * k;
    for (size_t i = 0; i < k; i++, p += 8) {
        a = (a ^ (rotl(rd32(p), 5) ^ rd32(p + off))) * PR;
        b = (b ^ (rotl(rd32(p + 4 + off), 5) ^ rd32(p + 4))) * PR;
    }
    return fin(a, b);
}
struct V16 { unsigned char b[16]; };
static V16 ld(P p) { V16 v; memcpy(v.b, p, 16); return v; }
static V16 rot(V16 v) { V16 r{}; for (int i = 0; i < 16; i++) r.b[i] = i >= 5 ? v.b[i - 5] : 0; return r; }    // whole register moved by five bytes
static V16 operator ^ (V16 x, V16 y) { for (int i = 0; i < 16; i++) x.b[i] ^= y.b[i]; return x; }
static V16 mul16(V16 x) {           // eight 16 bit lanes, times the prime's halves
    for (int i = 0; i < 8; i++) { uint32_t l = rd16(x.b + 2 * i), m = i % 2 ? PR >> 16 : PR & 0xffff; l *= m; x.b[2 * i] = (unsigned char)l; x.b[2 * i + 1] = (unsigned char)(l >> 8); }
    return x;
}
static uint32_t triad(P p, size_t n, size_t step) {        // step 96 (one triple of lines a turn) or 192 (two)
    uint32_t a = BASIS, b = BASIS, c = BASIS;
    if (n >= step) {
        V16 A, B, C; for (int i = 0; i < 4; i++) { uint32_t v = BASIS; memcpy(A.b + 4 * i, &v, 4); } B = C = A;
        size_t k = (n + step - 1) / step, off = n - k * (step / 2);
        for (size_t i = 0; i < k; i++, p += step / 2)
            for (size_t o = 0; o < step / 2; o += 48) {
                A = mul16(A ^ (rot(ld(p + o)) ^ ld(p + o + off)));
                B = mul16(B ^ (rot(ld(p + o + 16 + off)) ^ ld(p + o + 16)));
                C = mul16(C ^ (rot(ld(p + o + 32)) ^ ld(p + o + 32 + off)));
            }
        A = mul16(A ^ B); A = mul16(A ^ C);
        a = (a ^ rd32(A.b)) * PR; b = (b ^ rd32(A.b + 12)) * PR; a = (a ^ rd32(A.b + 4)) * PR; b = (b ^ rd32(A.b + 8)) * PR;
    } else if (n >= 24) {
        size_t k = (n + 23) / 24, off = n - k * 12;
        for (size_t i = 0; i < k; i++, p += 12) {
            a = (a ^ (rotl(rd32(p), 5) ^ rd32(p + off))) * PR;
            b = (b ^ (rotl(rd32(p + 4 + off), 5) ^ rd32(p + 4))) * PR;
            c = (c ^ (rotl(rd32(p + 8), 5) ^ rd32(p + 8 + off))) * PR;
        }
        a = (a ^ rotl(c, 5)) * PR;
    } else {
        if (n & 16) { a = (a ^ (rotl(rd32(p), 5) ^ rd32(p + 4))) * PR; b = (b ^ (rotl(rd32(p + 8), 5) ^ rd32(p + 12))) * PR; p += 16; }
        fnv_small(p, n & 15, a, b);
    }
    return fin(a, b);
}
static uint64_t msvc_fnv(P p, size_t n) {
    uint64_t h = 14695981039346656037ull, prime = 1099511628211ull; size_t unit = n == 8 ? 4 : n == 4 ? 2 : 1;
    for (size_t i = 0; i < n; i += unit) { uint64_t u = 0; for (size_t k = unit; k-- > 0; ) u = u << 8 | p[i + k]; h = (h ^ u) * prime; }
    return h;
}

#ifdef __SHA__
// SHA-1 compression of the string extended by zeros to whole blocks (no length, no final 1 bit), the first two words of the state folded
static uint32_t sha_f(unsigned t, uint32_t b, uint32_t c, uint32_t d) { return t == 0 ? (b & c) | (~b & d) : t == 2 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d; }
static const uint32_t SHA_K[4] = { 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6 };
static uint32_t sha1_zeros(P p, size_t n) {
    uint32_t h[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
    for (size_t o = 0; o < n; o += 64) {
        uint32_t w[80]; for (size_t i = 0; i < 16; i++) { w[i] = 0; for (size_t k = 0; k < 4; k++) { size_t at = o + 4 * i + k; w[i] = w[i] << 8 | (at < n ? p[at] : 0); } }
        for (int i = 16; i < 80; i++) w[i] = rotl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (unsigned i = 0; i < 80; i++) { uint32_t t = rotl(a, 5) + sha_f(i / 20, b, c, d) + e + SHA_K[i / 20] + w[i]; e = d; d = c; c = rotl(b, 30); b = a; a = t; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    return h[0] ^ h[1];
}
// The mix of SHA instructions sha1_msg2() is defined by: two chains of msg2 over the even and odd lines (the last one extended by zeros), joined by msg1 and four rounds
struct Sh { uint32_t w[4]; };       // w[3] is the high word
static Sh sh_ld(P p, size_t n, size_t o) { Sh r; for (size_t i = 0; i < 4; i++) { r.w[i] = 0; for (size_t k = 4; k-- > 0; ) { size_t at = o + 4 * i + k; r.w[i] = r.w[i] << 8 | (at < n ? p[at] : 0); } } return r; }
static Sh sh_msg2(Sh a, Sh b) { Sh r; r.w[3] = rotl(a.w[3] ^ b.w[2], 1); r.w[2] = rotl(a.w[2] ^ b.w[1], 1); r.w[1] = rotl(a.w[1] ^ b.w[0], 1); r.w[0] = rotl(a.w[0] ^ r.w[3], 1); return r; }
static uint32_t sha_lines(P p, size_t n, bool fold) {
    if (n == 0) return 0;
    Sh x{}, y{};
    for (size_t o = 0; o < n; o += 32) { x = sh_msg2(sh_ld(p, n, o), x); if (o + 16 < n) y = sh_msg2(sh_ld(p, n, o + 16), y); }
    Sh m; m.w[3] = x.w[1] ^ x.w[3]; m.w[2] = x.w[0] ^ x.w[2]; m.w[1] = y.w[3] ^ x.w[1]; m.w[0] = y.w[2] ^ x.w[0];
    uint32_t a = m.w[3], b = m.w[2], c = m.w[1], d = m.w[0], e = 0;
    for (int i = 0; i < 4; i++) { uint32_t t = sha_f(1, b, c, d) + rotl(a, 5) + y.w[3 - i] + e + SHA_K[1]; e = d; d = c; c = rotl(b, 30); b = a; a = t; }
    return fold ? a ^ b : a;
}
static bool has_sha() { unsigned a, b = 0, c, d; return __get_cpuid_count(7, 0, &a, &b, &c, &d) && (b >> 29 & 1); }
#endif

// ------------------------------------------------------------------ the functions under test
typedef const char * S;
struct Fn { const char * name; size_t unit; uint64_t (*code)(P, size_t); uint64_t (*ref)(P, size_t); };      // sizes in bytes, multiples of unit
#define F(n, u, c, r) { n, u, [](P p, size_t n_) -> uint64_t { (void)p; (void)n_; return c; }, [](P p, size_t n_) -> uint64_t { return r; } }
typedef wchar_t W; typedef unsigned short U16;
static const Fn FNS[] = {
    F("hash_crc32", 1, jh::hash_crc32(S(p), n_), crc_pad(p, n_, 8)),
    F("intel_crc32_x64", 1, jh::intel_crc32_x64(S(p), n_), crc_pad(p, n_, 8)),
    F("intel_crc32_x86", 1, jh::intel_crc32_x86(S(p), n_), crc_pad(p, n_, 4)),
    F("intel_crc32_simple_x64", 1, jh::intel_crc32_simple_x64(S(p), n_), crc_std(p, n_)),
    F("intel_crc32_simple_x86", 1, jh::intel_crc32_simple_x86(S(p), n_), crc_std(p, n_)),
    F("Times31", 1, jh::Times31(S(p), n_), times(p, n_, 31)),
    F("Times31Std", 1, jh::Times31Std(S(p), n_), times(p, n_, 31)),
    F("BKDRHash", 1, jh::BKDRHash(S(p), n_), times(p, n_, 131)),
    F("BKDRHash_31", 1, jh::BKDRHash_31(S(p), n_), times(p, n_, 31)),
    F("BKDRHash_31_std", 1, jh::BKDRHash_31_std(S(p), n_), times(p, n_, 31)),
    F("Times31<uchar>", 1, jh::Times31(p, n_), times(p, n_, 31)),
    F("Times31<wchar_t>", 4, jh::Times31((const W *)p, n_ / 4), times(p, n_, 31)),
    F("Times31Std<wchar_t>", 4, jh::Times31Std((const W *)p, n_ / 4), times(p, n_, 31)),
    F("BKDRHash<wchar_t>", 4, jh::BKDRHash((const W *)p, n_ / 4), times(p, n_, 131)),
    F("BKDRHash<ushort>", 2, jh::BKDRHash((const U16 *)p, n_ / 2), times(p, n_, 131)),
    F("Times31<char16_t>", 2, jh::Times31((const char16_t *)p, n_ / 2), times(p, n_, 31)),
    F("APHash", 1, jh::APHash(S(p), n_), ap<unsigned char>(p, n_)),
    F("APHash<wchar_t>", 4, jh::APHash((const W *)p, n_ / 4), ap<uint32_t>(p, n_ / 4)),
    F("APHash<ushort>", 2, jh::APHash((const U16 *)p, n_ / 2), ap<uint16_t>(p, n_ / 2)),
    F("DJBHash", 1, jh::DJBHash(S(p), n_), djb<unsigned char>(p, n_)),
    F("DJBHash<wchar_t>", 4, jh::DJBHash((const W *)p, n_ / 4), djb<uint32_t>(p, n_ / 4)),
    F("OpenSSL_Hash", 1, jh::OpenSSL_Hash(S(p), n_), openssl(p, n_)),
    F("OpenSSL_Hash<uchar>", 1, jh::OpenSSL_Hash(p, n_), openssl(p, n_)),
    F("FNV1A_Yoshimura", 1, jh::FNV1A_Yoshimura(S(p), n_), yoshimura(p, n_)),
    F("FNV1A_Yoshimitsu_TRIADii_xmm", 1, jh::FNV1A_Yoshimitsu_TRIADii_xmm(S(p), n_), triad(p, n_, 96)),
    F("FNV1A_penumbra", 1, jh::FNV1A_penumbra(S(p), n_), triad(p, n_, 192)),
    F("msvc_fnv_1a", 1, jh::msvc_fnv_1a(p, n_), msvc_fnv(p, n_)),
    F("secondaryHash", 1, jstd::HashUtils<uint32_t>().secondaryHash(S(p), n_), times(p, n_, 31)),
    F("OpenSSLHash", 1, jstd::HashUtils<uint32_t>().OpenSSLHash(S(p), n_), openssl(p, n_)),
#ifdef __SHA__
    F("sha1_x86", 1, jstd::sha1::sha1_x86(S(p), n_), sha1_zeros(p, n_)),
    F("sha1_msg2", 1, jstd::sha1::sha1_msg2(S(p), n_), sha_lines(p, n_, true)),
    F("sha1_msg2_x86", 1, jstd::sha1::sha1_msg2_x86(S(p), n_), sha_lines(p, n_, false)),
#endif
};
static const size_t NF = sizeof FNS / sizeof FNS[0];
static size_t NFN = NF;

static std::vector<unsigned char> make(Rng & g, size_t n, int kind) {
    std::vector<unsigned char> v(n);
    for (auto & b : v)
        switch (kind) {
        case 0: b = (unsigned char)g.next(); break;
        case 1: b = (unsigned char)(0x80 + g.below(128)); break;
        case 2: b = 0; break;
        case 3: b = 0xff; break;
        case 4: b = (unsigned char)('a' + g.below(26)); break;
        case 5: b = (unsigned char)(g.chance(1, 3) ? 0 : g.next()); break;
        default: b = (unsigned char)(1 + g.below(255)); break;
        }
    return v;
}
static const char * g_what = "";
static Arena * A1, * A2;

static void one_function(Rng & g, const Fn & f, const std::vector<unsigned char> & d) {
    size_t n = d.size() / f.unit * f.unit; uint64_t want = f.ref(d.data(), n);
    for (int how = 0; how < PL_COUNT; how++) {
        G().prog->op = size_t(&f - FNS) * 8 + how;
        P p = A1->place(how, d.data(), n, g, f.unit);
        uint64_t got = f.code(p, n); step(); vf::stat("events"); vf::stat("placements");
        CHECK(got == want, f.name, "%s of %zu bytes placed %s (address mod 16 = %zu): %llx instead of %llx; bytes %s", f.name, n, place_name(how), size_t(p) % 16,
              (unsigned long long)got, (unsigned long long)want, hex(d.data(), n).c_str());
        CHECK(n == 0 || memcmp(p, d.data(), n) == 0, f.name, "%s changed its argument", f.name);
    }
    A1->done();
}

// ------------------------------------------------------------------ helpers: one value for all forms of one string
template <size_t FID> static uint32_t def(P p, size_t bytes) { return FID == jstd::HashFunc_CRC32C ? crc_pad(p, bytes, 8) : times(p, bytes, 31); }
#define SAME(form, expr) do { uint32_t got_ = uint32_t(expr); vf::stat("events"); vf::stat("helper_calls"); step(); \
    CHECK(got_ == want, "helper", "%s, hash function %zu, of %zu units of %zu bytes: %x instead of %x; %s", form, FID, n, sizeof(C), got_, want, hex(d.data(), bytes).c_str()); } while (0)
template <class C, size_t FID> static void helpers(Rng & g, const std::vector<unsigned char> & d) {
    size_t n = d.size() / sizeof(C), bytes = n * sizeof(C); typedef std::basic_string<C> Str; typedef jstd::basic_string_view<C> View;
    uint32_t want = def<FID>(d.data(), bytes);
    Str s; s.resize(n); if (n) memcpy(&s[0], d.data(), bytes);
    bool nul = s.find(C(0)) != Str::npos;
    for (int how = 0; how < PL_COUNT; how++) {
        const C * p = (const C *)A1->place(how, d.data(), bytes, g, sizeof(C)); View v(p, n);
        SAME("hash_helper<string_view>", (jstd::hash_helper<View, uint32_t, FID>::getHashCode(v)));
        SAME("string_hash_helper<string_view>", (jstd::string_hash_helper<View, uint32_t, FID>::getHashCode(v)));
        SAME("hash<string_view>", (jstd::hash<View, uint32_t, FID>()(v)));
        SAME("hash_helper<const C *>(p, n)", (jstd::hash_helper<const C *, uint32_t, FID>::getHashCode(p, n)));
        SAME("hash_helper<C *>(p, n)", (jstd::hash_helper<C *, uint32_t, FID>::getHashCode((C *)p, n)));
        if (!nul) {         // the same with its terminator, flush against the end
            std::vector<unsigned char> z(d.begin(), d.begin() + bytes); z.insert(z.end(), sizeof(C), 0);
            const C * q = (const C *)A2->place(how, z.data(), z.size(), g, sizeof(C));
            SAME("hash_helper<const C *>", (jstd::hash_helper<const C *, uint32_t, FID>::getHashCode(q)));
            SAME("hash_helper<C *>", (jstd::hash_helper<C *, uint32_t, FID>::getHashCode((C *)q)));
            SAME("hash<const C *>", (jstd::hash<const C *, uint32_t, FID>()(q)));
        }
    }
    SAME("hash_helper<string>", (jstd::hash_helper<Str, uint32_t, FID>::getHashCode(s)));
    SAME("string_hash_helper<string>", (jstd::string_hash_helper<Str, uint32_t, FID>::getHashCode(s)));
    SAME("hash<string>", (jstd::hash<Str, uint32_t, FID>()(s)));
    if (n == 0) {
        View e; SAME("hash<string_view> of a default constructed view", (jstd::hash<View, uint32_t, FID>()(e)));
        SAME("string_hash_helper of a default constructed view", (jstd::string_hash_helper<View, uint32_t, FID>::getHashCode(e)));
        vf::stat("empty_views");
    }
    A1->done(); A2->done();
}
template <class C, size_t FID> static void pointers(Rng & g, const std::vector<unsigned char> & d) {      // other character pointers
    size_t n = d.size() / sizeof(C), bytes = n * sizeof(C); uint32_t want = def<FID>(d.data(), bytes);
    bool nul = false; for (size_t i = 0; i < n; i++) { C c; memcpy(&c, &d[i * sizeof(C)], sizeof(C)); nul = nul || c == 0; }
    for (int how = 0; how < PL_COUNT; how++) {
        const C * p = (const C *)A1->place(how, d.data(), bytes, g, sizeof(C));
        SAME("hash_helper<const C *>(p, n)", (jstd::hash_helper<const C *, uint32_t, FID>::getHashCode(p, n)));
        SAME("hash_helper<C *>(p, n)", (jstd::hash_helper<C *, uint32_t, FID>::getHashCode((C *)p, n)));
        if (!nul) {
            std::vector<unsigned char> z(d.begin(), d.begin() + bytes); z.insert(z.end(), sizeof(C), 0);
            const C * q = (const C *)A2->place(how, z.data(), z.size(), g, sizeof(C));
            SAME("hash_helper<const C *>", (jstd::hash_helper<const C *, uint32_t, FID>::getHashCode(q)));
            SAME("hash_helper<C *>", (jstd::hash_helper<C *, uint32_t, FID>::getHashCode((C *)q)));
        }
    }
    A1->done(); A2->done();
}
// A pointer to something that is no character: what it points to is not a string, and may be smaller than a pointer.
template <class T, size_t FID> static void addresses(Rng & g) {
    T x; unsigned char raw[sizeof(T)]; for (auto & b : raw) b = (unsigned char)g.next(); memcpy(&x, raw, sizeof x);
    T * p = (T *)A1->place(PL_END, raw, sizeof raw, g, alignof(T));
    uint32_t a = jstd::hash_helper<T *, uint32_t, FID>::getHashCode(p), b = jstd::hash_helper<T *, uint32_t, FID>::getHashCode(p);
    CHECK(a == b, "helper", "the hash code of one pointer changed"); vf::stat("events");
    T * q = (T *)A1->place(PL_HEAP, raw, sizeof raw, g, alignof(T)); (void)jstd::hash_helper<T *, uint32_t, FID>::getHashCode(q); A1->done();
}
template <size_t FID> static void all_helpers(Rng & g, const std::vector<unsigned char> & d) {
    helpers<char, FID>(g, d); helpers<wchar_t, FID>(g, d);
    pointers<unsigned char, FID>(g, d); pointers<short, FID>(g, d); pointers<unsigned short, FID>(g, d);
    addresses<int, FID>(g); addresses<float, FID>(g);
}

static size_t a_length(Rng & g) {
    switch (g.below(8)) {
    case 0: case 1: case 2: return g.below(33);
    case 3: return g.below(100);
    case 4: { static const uint64_t e[] = { 8, 16, 24, 32, 48, 64, 96, 128, 192, 256, 288, 384, 512 }; return g.pick(e) + g.below(5) - 2; }
    case 5: return g.below(600);
    case 6: return g.below(5000);
    default: return g.below(300);
    }
}
// ------------------------------------------------------------------ a string of 2^32 + 5 bytes: zeros, but for the first, the last and one in the middle
static const size_t LONG = (1ull << 32) + 5;
static const struct { const char * name; uint64_t want; } LONG_WANT[] = {           // computed by the definitions above (--set huge=2)
    { "hash_crc32", 0xe36d105full },
    { "intel_crc32_x64", 0xe36d105full },
    { "intel_crc32_x86", 0xe36d105full },
    { "intel_crc32_simple_x64", 0xe0900588ull },
    { "intel_crc32_simple_x86", 0xe0900588ull },
    { "Times31", 0xbc7ba908ull },
    { "Times31Std", 0xbc7ba908ull },
    { "BKDRHash", 0x51bb59cull },
    { "BKDRHash_31", 0xbc7ba908ull },
    { "BKDRHash_31_std", 0xbc7ba908ull },
    { "Times31<uchar>", 0xbc7ba908ull },
    { "APHash", 0x18c54b55ull },
    { "DJBHash", 0x26c0e293ull },
    { "OpenSSL_Hash", 0xcc001a9ull },
    { "OpenSSL_Hash<uchar>", 0xcc001a9ull },
    { "FNV1A_Yoshimura", 0x4bd84f0aull },
    { "FNV1A_Yoshimitsu_TRIADii_xmm", 0x5e473837ull },
    { "FNV1A_penumbra", 0xeb56e122ull },
    { "msvc_fnv_1a", 0xa9d345ed15461e6dull },
    { "secondaryHash", 0xbc7ba908ull },
    { "OpenSSLHash", 0xcc001a9ull },
    { "sha1_x86", 0xf0c809e7ull },
    { "sha1_msg2", 0x13846141ull },
    { "sha1_msg2_x86", 0xaad01e6eull },
};
static void huge(const Fn & f, bool define) {
    if (f.unit != 1) return;
    address_space(16);
    unsigned char * p = (unsigned char *)mmap(nullptr, LONG + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) broken("mmap of a huge string");
    p += 4096 - LONG % 4096; p[0] = 0xc1; p[(1ull << 31) - 3] = 0x33; p[LONG - 1] = 0x5a;         // flush against the end of the mapping
    G().prog->op = size_t(&f - FNS) * 8 + 7;
    if (define) { printf("    { \"%s\", 0x%llxull },\n", f.name, (unsigned long long)f.ref(p, LONG)); fflush(stdout); }
    else for (auto & w : LONG_WANT) if (!strcmp(w.name, f.name)) {
        uint64_t got = f.code(p, LONG); vf::stat("events"); vf::stat("huge_strings");
        CHECK(got == w.want, f.name, "%s of a string of 2^32+5 bytes is %llx instead of %llx", f.name, (unsigned long long)got, (unsigned long long)w.want);
        nontrivial(hash2(size_t(&f - FNS), 77));
    }
    munmap(p - (4096 - LONG % 4096), LONG + 4096); address_space(6);
}
int main(int argc, char ** argv) {
#ifdef __SHA__
    if (!has_sha()) NFN = NF - 3;
#endif
    init(argc, argv); A1 = new Arena(8192); A2 = new Arena(8192);
    return run_cases([](uint64_t c, uint64_t seed) {
        Rng g(seed);
        if (argu("huge", 0)) { arm(400); if (c < NFN) huge(FNS[c], argu("huge", 0) == 2); return; }
        size_t n = c < 512 ? size_t(c) : a_length(g); int kind = int(g.below(7));
        auto d = make(g, n, kind);
        for (size_t i = 0; i < NFN; i++) one_function(g, FNS[i], d);
        if (c % 4 == 0 || n < 40) { all_helpers<jstd::HashFunc_CRC32C>(g, d); all_helpers<jstd::HashFunc_Time31>(g, d); all_helpers<jstd::HashFunc_Time31Std>(g, d); }
        if (n > 2) nontrivial(hash2(n * 8 + kind, hash2(d[0] | d[n - 1] << 8, d[n / 2])));
        stat_max("max_length", n);
        if (c % 997 == 3) G().samples.push_back("length " + std::to_string(n) + " kind " + std::to_string(kind) + " " + hex(d.data(), n, 12));
    });
}
