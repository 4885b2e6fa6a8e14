// C11: memory and work of maps whose size is bounded while elements come and go.
#include "maps.h"
#include "elems.h"
#include <deque>
using namespace vf;
#ifndef CFG
#define CFG 1
#endif
#if CFG == 1
typedef uint64_t K; typedef uint64_t V;
#else
typedef std::string K; typedef uint64_t V;
#endif
typedef Acct<std::pair<const K, V>, 7> Al;
#if FAM == 3
typedef MAPT<K, V, MHash<K>, MEq<K>, LAYOUT(K, V), Al> M;
#else
typedef MAPT<K, V, MHash<K>, MEq<K>, Al> M;
#endif
// The bounds. Measured maxima are in the evidence; these leave a wide margin.
static const uint64_t CAP_FACTOR = 16, CAP_MIN = 64;

struct Run {
    Rng g{1}; std::string log; uint64_t digest = 0;
    M * m; std::deque<uint64_t> live; std::unordered_set<uint64_t> in; uint64_t next = 0, n = 0, pattern = 0, ops = 0, peak = 0;
    uint64_t eq0, h0, al0;
    K mk(uint64_t i) { return Conv<K>::make(i); }

    void bounds(const char * when) {
        uint64_t cap = m->capacity(), ref = std::max<uint64_t>(peak, CAP_MIN / CAP_FACTOR);
        stat_max("max_capacity_per_mille_of_peak", peak ? (peak >= 32 ? cap * 1000 / peak : 0) : 0);
        CHECK(cap <= CAP_FACTOR * ref + CAP_MIN, "capacity-not-bounded", "%s: capacity() is %llu, there were never more than %llu elements", when, (unsigned long long)cap, (unsigned long long)peak);
        CHECK(m->size() == in.size(), "wrong-size", "%s: %zu instead of %zu", when, m->size(), in.size());
        // memory: the blocks in use are those of the table
        uint64_t per = sizeof(M::value_type) + 4;
        CHECK(BL().bytes <= (CAP_FACTOR * ref + CAP_MIN + 512) * per * 2 + 4096, "memory-not-bounded", "%s: %llu bytes are allocated, there were never more than %llu elements of %zu bytes", when, (unsigned long long)BL().bytes, (unsigned long long)peak, sizeof(M::value_type));
    }
    void add(uint64_t id) {
        uint64_t e = CN().eqs;
        bool f = m->try_emplace(mk(id), id).second; CHECK(f, "insert-wrong", "new key %llu was not inserted", (unsigned long long)id);
        live.push_back(id); in.insert(id); ops++; if (in.size() > peak) peak = in.size();
        single(CN().eqs - e, "insert");
    }
    void del(size_t at) {
        uint64_t id = live[at]; live[at] = live.back(); live.pop_back(); erase(id);
    }
    void del_front() { uint64_t id = live.front(); live.pop_front(); erase(id); }
    void erase(uint64_t id) {
        uint64_t e = CN().eqs;
        size_t c = m->erase(mk(id)); CHECK(c == 1, "erase-wrong", "erase(%llu) = %zu", (unsigned long long)id, c); in.erase(id); ops++;
        single(CN().eqs - e, "erase");
    }
    void probe_absent() {
        uint64_t e = CN().eqs;
        for (int i = 0; i < 4; i++) { uint64_t x = (1ull << 40) + g.below(1 << 20); CHECK(m->find(mk(x)) == m->end(), "phantom-key", "find of an absent key"); ops++; vf::stat("absent_lookups"); }
        if (!live.empty()) { uint64_t x = live[g.below(live.size())]; auto it = m->find(mk(x)); CHECK(it != m->end() && it->second == x, "lost-key", "%llu", (unsigned long long)x); ops++; }
        single((CN().eqs - e) / 4, "find");
    }
    void single(uint64_t eqs, const char * what) {
        stat_max("max_eq_calls_of_one_operation", eqs);
        CHECK(eqs <= 64, "operation-not-bounded", "%s compared %llu keys, the map has %zu elements and a well distributed hash", what, (unsigned long long)eqs, m->size());
    }
    void run_case(uint64_t seed, bool big) {
        g = Rng(seed); live.clear(); in.clear(); log.clear(); peak = 0; ops = 0; KM() = KeyMap();
        static const uint64_t ns[] = { 1, 2, 3, 5, 7, 8, 9, 12, 13, 14, 15, 16, 26, 28, 29, 30, 52, 55, 56, 57, 60, 100, 112, 120, 224, 240, 448, 480, 900, 1000 };
        n = big ? g.range(2000, 12000) : g.pick(ns); pattern = g.below(11);
        HMode hm; if (CFG == 1 && FAM != 3 && g.chance(1, 3)) hm.pre = 1; else hm.pre = 1;
        GHM() = hm; next = g.below(1000) + 1;
        digest = hash2(n * 8 + pattern, seed);
        char b[80]; snprintf(b, sizeof b, "n=%llu pattern=%llu", (unsigned long long)n, (unsigned long long)pattern); log = b;
        G().on_fail = [this] { printf("CASE %s, after %llu operations\n", log.c_str(), (unsigned long long)ops); };
        M map(g.chance(1, 2) ? 0 : n, MHash<K>(hm), MEq<K>(), Al(1)); m = &map;
        if (g.chance(1, 3)) map.max_load_factor(float(g.range(50, 95)) / 100);
        for (uint64_t i = 0; i < n; i++) add(next++);
        bounds("after filling");
        eq0 = CN().eqs; h0 = CN().hashes; al0 = BL().allocs; uint64_t ops0 = ops, cap0 = map.capacity();
        uint64_t turns = (big ? n * 6 : 200 + n * 30) * argu("turns", 1);
        for (uint64_t i = 0; i < turns; i++) {
            vf::step();
            switch (pattern) {
            case 0: del_front(); add(next++); break;                                             // FIFO
            case 1: del(g.below(live.size())); add(next++); break;                               // random replacement
            case 2: { uint64_t id = live.back(); live.pop_back(); erase(id); add(next++); break; }    // LIFO
            case 3: { uint64_t id = live.back(); live.pop_back(); erase(id); add(id); break; }   // one key again and again
            case 4: if (i % (2 * n) < n) { if (!live.empty()) del_front(); else add(next++); } else if (in.size() < n) add(next++); else del_front(); break;     // sawtooth
            case 5: { size_t k = 1 + g.below(std::min<uint64_t>(n, 8)); for (size_t j = 0; j < k && !live.empty(); j++) del(g.below(live.size())); while (in.size() < n && k--) add(next++); break; }    // bursts
            case 6: { uint64_t id = live.front(); live.pop_front(); erase(id); uint64_t back = g.below(3) ? next++ : id; add(back); break; }     // some keys return
            case 7: // emptied by clear() when half of the elements have been replaced
                if (i % n == n - 1) { m->clear(); live.clear(); in.clear(); ops++; while (in.size() < n) add(next++); }
                else { del(g.below(live.size())); add(next++); }
                break;
            case 8: { // erased through iterators and predicates
                if (g.below(8)) { uint64_t at = g.below(live.size()), id = live[at]; live[at] = live.back(); live.pop_back(); auto it = m->find(mk(id)); CHECK(it != m->end(), "lost-key", "%llu", (unsigned long long)id); m->erase(it); in.erase(id); ops++; }
                else { uint64_t r = g.below(8); std::deque<uint64_t> keep; for (uint64_t id : live) if (id % 8 == r && keep.size() + 1 < live.size()) in.erase(id); else keep.push_back(id);
                       // one at a time, or by walking
                       if (g.below(2)) { for (uint64_t id : live) if (!in.count(id)) { CHECK(m->erase(mk(id)) == 1, "erase-wrong", "erase(%llu)", (unsigned long long)id); ops++; } }
                       else for (auto it = m->begin(); it != m->end(); ) if (!in.count(it->second)) { it = m->erase(it); ops++; } else ++it;
                       live.swap(keep); }
                while (in.size() < n) add(next++);
                break; }
            case 9: { // every way of inserting, new keys and present ones
                del(g.below(live.size())); uint64_t id = next++; V v = id; K k = mk(id);
                for (int twice = 0; twice < 2; twice++) switch (g.below(5)) {
                case 0: (*m)[k] = v; break; case 1: m->emplace(k, v); break; case 2: m->insert(std::make_pair(k, v)); break;
                case 3: m->insert_or_assign(k, v); break; case 4: m->try_emplace(k, v); break; }
                live.push_back(id); in.insert(id); ops += 2; if (in.size() > peak) peak = in.size();
                break; }
            case 10: // the map changes its place now and then
                del(g.below(live.size())); add(next++);
                if (i % 64 == 63) { M o(0, MHash<K>(GHM()), MEq<K>(), Al(1)); if (g.below(2)) { o = std::move(*m); m->swap(o); } else { M t(std::move(*m)); m->swap(t); } }
                break;
            }
            if (i % 8 == 0) { probe_absent(); bounds("during churn"); }
        }
        uint64_t done = ops - ops0, eqs = CN().eqs - eq0, hs = CN().hashes - h0, als = BL().allocs - al0;
        bounds("after churn");
        vf::stat("churn_ops", done); vf::stat("events", ops);
        stat_max("max_eq_calls_per_1000_ops", eqs * 1000 / done); stat_max("max_hash_calls_per_1000_ops", hs * 1000 / done);
        stat_max("max_allocations_per_1000_ops", als * 1000 / done);
        // one key again and again: nothing averages over good and bad places
        CHECK(eqs <= done * (FAM == 3 ? 8 : 5) * (pattern == 3 || n < 4 ? 5 : 1) / 2 + 1000, "too-many-comparisons", "%llu key comparisons in %llu operations on at most %llu elements", (unsigned long long)eqs, (unsigned long long)done, (unsigned long long)peak);
        CHECK(hs <= done * 40 + 20000, "too-many-rehashes", "%llu hash calls in %llu operations on at most %llu elements", (unsigned long long)hs, (unsigned long long)done, (unsigned long long)peak);
        if (map.capacity() != cap0) vf::stat("capacity_changed_by_churn");
        // as full as it gets: insert until the capacity is about to change, then look absent keys up
        uint64_t cap = map.capacity(), lim = n * 4 + 300;
        for (uint64_t i = 0; i < lim && map.capacity() == cap; i++) { probe_absent(); add(next++); }
        vf::stat("filled_to_the_brim");
        vf::nontrivial(digest);
        for (uint64_t id : in) { auto it = map.find(mk(id)); CHECK(it != map.end() && it->second == id, "lost-key", "%llu", (unsigned long long)id); }
    }
};
int main(int argc, char ** argv) {
    init(argc, argv);
    Run d;
    return run_cases([&](uint64_t c, uint64_t seed) { d.run_case(seed, c % 40 == 39); }, [&] { G().samples.push_back(std::string(FNAME " ") + d.log); });
}
