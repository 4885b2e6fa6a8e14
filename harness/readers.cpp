// C18: threads that only call const operations of one map, and threads that work on maps of their own, under ThreadSanitizer.
#include "prelude.h"
#include "jstd/basic/stddef.h"
#undef JSTD_THREAD_SANITIZER        // the code that users run is the one that is watched (the other one does not compile)
#include "maps.h"
#include "common.h"
#include <thread>
#include <atomic>
using namespace vf;
#ifndef CFG
#define CFG 1
#endif
#if CFG == 1
typedef uint64_t K; typedef uint64_t V; static K mk(uint64_t i) { return i * 977; } static uint64_t kid(const K & k) { return k / 977; }
#elif CFG == 2
typedef std::string K; typedef uint64_t V; static K mk(uint64_t i) { return "key number " + std::to_string(i); } static uint64_t kid(const K & k) { return strtoull(k.c_str() + 11, nullptr, 10); }
#else
typedef int K; typedef uint64_t V; static K mk(uint64_t i) { return int(i); } static uint64_t kid(const K & k) { return uint64_t(k); }
#endif
#if CFG == 3
typedef MAPT<K, V> M;
#else
struct H { uint64_t s = 5; size_t operator () (const K & k) const { return Rng::mix(kid(k) + s); } };
struct E { bool operator () (const K & a, const K & b) const { return a == b; } };
#if FAM == 3
typedef MAPT<K, V, H, E, LAYOUT(K, V)> M;
#else
typedef MAPT<K, V, H, E> M;
#endif
#endif
typedef std::map<uint64_t, uint64_t> Model;

static std::atomic<int> ready, go; static std::atomic<uint64_t> bad;
// the counters are relaxed throughout: an ordering one would also order, for the race detector, the operations around it and so hide races
struct Count { std::atomic<uint64_t> v; uint64_t operator ++ () { return v.fetch_add(1, std::memory_order_relaxed) + 1; } uint64_t operator ++ (int) { return v.fetch_add(1, std::memory_order_relaxed); }
               uint64_t operator -- (int) { return v.fetch_sub(1, std::memory_order_relaxed); } operator uint64_t () const { return v.load(std::memory_order_relaxed); } };
static Count lookups, walks, copies, writes, overlaps, inside, ranges;
static char bad_text[200];
static void wrong(const char * t) { if (bad.fetch_add(1) == 0) snprintf(bad_text, sizeof bad_text, "%s", t); }
#define T_CHECK(c, t) do { if (!(c)) { wrong(t); return; } } while (0)

static void reader(const M & m, M & nm, const Model & r, uint64_t seed, int rounds, uint64_t U) {
    Rng g(seed); ready++; while (!go) std::this_thread::yield();
    for (int i = 0; i < rounds; i++) {
        if (++inside > 1) overlaps++;
        switch (g.below(14)) {
        case 0: case 1: { uint64_t x = g.below(U); auto f = r.find(x); auto it = m.find(mk(x)); T_CHECK((it != m.end()) == (f != r.end()) && (f == r.end() || it->second == f->second), "find() of a concurrent reader"); lookups++; break; }
        case 2: { uint64_t x = g.below(U); T_CHECK(m.contains(mk(x)) == (r.count(x) != 0) && m.count(mk(x)) == r.count(x), "contains()/count() of a concurrent reader"); lookups++; break; }
        case 3: { uint64_t x = g.below(U); auto f = r.find(x); try { uint64_t v = m.at(mk(x)); T_CHECK(f != r.end() && v == f->second, "at() of a concurrent reader"); } catch (std::out_of_range &) { T_CHECK(f == r.end(), "at() of a concurrent reader"); } lookups++; break; }
        case 4: case 5: { size_t n = 0; uint64_t s = 0, e = 0; for (auto it = m.begin(); it != m.end(); ++it) { n++; s += it->second; if (n > r.size()) break; } for (auto & kv : r) e += kv.second; T_CHECK(n == r.size() && s == e, "a walk of a concurrent reader"); walks++; break; }
#if FAM <= 3
        case 6: { M c(m); T_CHECK(c.size() == r.size(), "a concurrent copy"); size_t n = 0; for (auto & kv : c) { auto f = r.find(kid(kv.first)); T_CHECK(f != r.end() && f->second == kv.second, "a concurrent copy"); n++; } T_CHECK(n == r.size(), "a concurrent copy");
                  c[mk(U + 1)] = 5; c.erase(mk(g.below(U))); copies++; break; }
#endif
        case 7: { T_CHECK(m.size() == r.size() && m.empty() == r.empty() && m.capacity() >= r.size(), "size() of a concurrent reader"); (void)m.load_factor(); (void)m.max_load_factor(); auto h = m.hash_function(); auto e = m.key_eq(); K k = mk(1); T_CHECK(e(k, k) && h(k) == h(k), "function objects"); lookups++; break; }
        case 8: { const M & cm = m; size_t n = 0; for (auto it = cm.cbegin(); it != cm.cend(); it++) n++; T_CHECK(n == r.size(), "a const walk of a concurrent reader"); walks++; break; }
        // the forms for maps that are not const only look, too
        case 9: { uint64_t x = g.below(U); auto f = r.find(x); auto it = nm.find(mk(x)); T_CHECK((it != nm.end()) == (f != r.end()) && (f == r.end() || it->second == f->second), "find() of a concurrent reader, map not const");
                  try { uint64_t v = nm.at(mk(x)); T_CHECK(f != r.end() && v == f->second, "at() of a concurrent reader, map not const"); } catch (std::out_of_range &) { T_CHECK(f == r.end(), "at() of a concurrent reader, map not const"); } lookups++; break; }
        case 10: { size_t n = 0; uint64_t s = 0, e = 0; for (auto & kv : nm) { n++; s += kv.second; if (n > r.size()) break; } for (auto & kv : r) e += kv.second; T_CHECK(n == r.size() && s == e, "a walk of a concurrent reader, map not const"); walks++; break; }
        case 11: { uint64_t x = g.below(U); auto f = r.find(x);
#if FAM == 3
                  auto q = m.equal_range(mk(x)); T_CHECK((q.first != q.second) == (f != r.end()) && (f == r.end() || q.first->second == f->second), "equal_range() of a concurrent reader"); auto nq = nm.equal_range(mk(x)); T_CHECK((nq.first != nq.second) == (f != r.end()), "equal_range() of a concurrent reader"); (void)m.bucket_count();
#elif FAM < 3
                  T_CHECK(m.max_size() >= m.size() && m.max_bucket_count() >= m.bucket_count(), "max_size() of a concurrent reader");
#endif
                  auto it = m.find(mk(x)), i2 = it; typename M::const_iterator i3(nm.find(mk(x))); T_CHECK(it == i2 && i3 == it && (it == m.end()) == (f == r.end()), "iterators of a concurrent reader"); (void)m.get_allocator(); T_CHECK(m.begin() == m.cbegin() && m.end() == m.cend(), "iterators of a concurrent reader"); lookups++; break; }
#if FAM <= 3
        case 12: { M c(m, m.get_allocator()), d; d = m; T_CHECK(c.size() == r.size() && d.size() == r.size(), "a concurrent copy"); uint64_t x = g.below(U); T_CHECK(c.contains(mk(x)) == (r.count(x) != 0) && d.contains(mk(x)) == (r.count(x) != 0), "a concurrent copy"); copies++; break; }
#endif
#if FAM <= 3
        case 13: { M c; c.insert(m.begin(), m.end()); M d(m.begin(), m.end()); T_CHECK(c.size() == r.size() && d.size() == r.size(), "a map filled from a range of the shared one"); ranges++; break; }
#endif
        }
        inside--;
        if (g.chance(1, 20)) std::this_thread::yield();
    }
}
static void owner(uint64_t seed, int rounds, uint64_t U, bool start_empty) {
    Rng g(seed); ready++; while (!go) std::this_thread::yield();
    M m; Model r;
    if (!start_empty) for (uint64_t i = 0; i < U / 2; i++) { m[mk(i)] = i; r[i] = i; }
    for (int i = 0; i < rounds; i++) {
        if (++inside > 1) overlaps++;
        uint64_t x = g.below(U);
        switch (g.below(14)) {
        case 0: case 1: case 2: { bool f = m.insert(M::value_type(mk(x), uint64_t(i))).second; T_CHECK(f == (r.count(x) == 0), "insert() into a map of its own"); r.insert({ x, uint64_t(i) }); break; }
        case 3: case 4: T_CHECK(m.erase(mk(x)) == r.erase(x), "erase() from a map of its own"); break;
        case 5: { auto it = m.find(mk(x)); T_CHECK((it != m.end()) == (r.count(x) != 0), "find() in a map of its own"); break; }
#if FAM <= 3
        case 6: { M e; T_CHECK(e.empty() && e.find(mk(x)) == e.end() && !e.contains(mk(x)) && e.begin() == e.end() && e.erase(mk(x)) == 0, "an empty map of its own"); M e2(e), e3(std::move(e2)); e = e3; e.swap(e2); e.clear(); e.shrink_to_fit(); e.reserve(0); if (g.chance(1, 2)) { e[mk(x)] = 1; T_CHECK(e.size() == 1, "an empty map of its own"); } break; }
#endif
        case 7: { if (g.chance(1, 10)) { m.clear(); r.clear(); } if (g.chance(1, 3)) m.shrink_to_fit(); if (g.chance(1, 5)) m.rehash(g.below(200)); break; }
#if FAM <= 3
        case 8: { M c(m); M d(std::move(m)); m = std::move(c); T_CHECK(m.size() == r.size(), "moved maps of its own"); break; }
#endif
        case 9: m[mk(x)] = uint64_t(i); r[x] = uint64_t(i); break;
        case 10: { T_CHECK(m.emplace(mk(x), uint64_t(i)).second == r.emplace(x, uint64_t(i)).second, "emplace() into a map of its own"); x = g.below(U); T_CHECK(m.try_emplace(mk(x), uint64_t(i)).second == r.emplace(x, uint64_t(i)).second, "try_emplace() into a map of its own"); break; }
        case 11: { m.insert_or_assign(mk(x), uint64_t(i)); r[x] = uint64_t(i); auto it = m.find(mk(x)); T_CHECK(it != m.end() && it->second == uint64_t(i), "insert_or_assign() into a map of its own"); if (g.chance(1, 2)) { m.erase(it); r.erase(x); } break; }
#if FAM <= 3
        case 12: { M a, b; for (uint64_t j = 0; j < 1 + x % 20; j++) a[mk(j)] = j; a.swap(b); T_CHECK(a.empty() && b.size() == 1 + x % 20, "swapped maps of its own"); b = a; T_CHECK(b.empty(), "assigned maps of its own"); break; }
#endif
        case 13: { M a; a.max_load_factor(0.5f); a.reserve(x % 64); for (uint64_t j = 0; j < 1 + x % 40; j++) a[mk(j)] = j; T_CHECK(a.size() == 1 + x % 40, "a map of its own"); a.clear(); T_CHECK(a.empty() && a.begin() == a.end(), "a cleared map of its own"); break; }
        }
        writes++; inside--;
        if (g.chance(1, 20)) std::this_thread::yield();
    }
    size_t n = 0; for (auto & kv : m) { auto f = r.find(kid(kv.first)); T_CHECK(f != r.end() && f->second == kv.second, "a map of its own at the end"); n++; }
    T_CHECK(n == r.size(), "a map of its own at the end");
}
int main(int argc, char ** argv) {
    init(argc, argv); std::string last;
    return run_cases([&](uint64_t, uint64_t seed) {
        Rng g(seed); static const uint64_t us[] = { 1, 10, 15, 40, 150, 600 };
        uint64_t U = g.pick(us), nr = g.range(1, 4), no = g.below(4), rounds = g.range(30, 150), how = g.below(6);
        Model r; std::unique_ptr<M> m(new M);
        // how the shared map came to be: empty ones have a storage they share with others
        if (how == 1) { for (uint64_t i = 0; i < 20; i++) (*m)[mk(i)] = i; m->clear(); }
        else if (how == 2) { M a; a[mk(3)] = 3; m.reset(new M(std::move(a))); r[3] = 3; }
        else if (how == 3) { M a; a[mk(3)] = 3; M b(std::move(a)); m.reset(new M(std::move(a))); }        // moved-from
        else if (how >= 4) { for (uint64_t i = 0; i < U; i++) { uint64_t x = g.below(U); (*m)[mk(x)] = i; r[x] = i; } for (uint64_t i = 0; i < U / 3; i++) { uint64_t x = g.below(U); m->erase(mk(x)); r.erase(x); } }
        ready = 0; go = 0; bad = 0; inside.v = 0;
        std::vector<std::thread> ts; const M & cm = *m;
        for (uint64_t i = 0; i < nr; i++) ts.emplace_back(reader, std::cref(cm), std::ref(*m), std::cref(r), g.next(), int(rounds), U + 5);
        for (uint64_t i = 0; i < no; i++) ts.emplace_back(owner, g.next(), int(rounds), U + 5, g.chance(1, 2));
        while (ready < int(nr + no)) std::this_thread::yield();
        go = 1;
        for (auto & t : ts) t.join();
        CHECK(!bad, "concurrent-result-wrong", "%s (%llu readers, %llu owners, shared map of kind %llu with %zu elements)", bad_text, (unsigned long long)nr, (unsigned long long)no, (unsigned long long)how, r.size());
        size_t n = 0; for (auto & kv : cm) { CHECK(r.count(kid(kv.first)) && r[kid(kv.first)] == kv.second, "changed-by-readers", "key %llu", (unsigned long long)kid(kv.first)); n++; }
        CHECK(n == r.size(), "changed-by-readers", "%zu elements instead of %zu", n, r.size());
        vf::stat("threads", nr + no); if (nr + no > 1) vf::nontrivial(hash2(seed, how));
        vf::stat("events", (nr + no) * rounds);
        char b[120]; snprintf(b, sizeof b, FNAME " shared map kind %llu, %zu elements: %llu readers, %llu owners, %llu rounds", (unsigned long long)how, r.size(), (unsigned long long)nr, (unsigned long long)no, (unsigned long long)rounds); last = b;
    }, [&] {
        vf::stat("reader_lookups", lookups); vf::stat("reader_walks", walks); vf::stat("reader_copies", copies); vf::stat("ranges_read", ranges); vf::stat("owner_operations", writes); vf::stat("overlapping_operations", overlaps);
        G().samples.push_back(last);
    });
}
