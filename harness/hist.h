// History driver: generates histories of operations on several maps of one type, executes them on the
// real map and on a mathematical map, and compares everything the map reports.
#pragma once
#include "elems.h"

namespace vf {

enum Family { G15, G16, ROBIN, ROBIN16, FLAT16 };

// Operations. The groups are switched on by the property that is being decided.
enum Op : uint8_t {
    // single key
    FIND, CFIND, COUNT, CONTAINS, AT, CAT, IDX_READ, IDX_SET_L, IDX_SET_R,
    INS_CL, INS_L, INS_R, INS_PAIR_L, INS_PAIR_R, EMP_KV_L, EMP_KV_R, EMP_PAIR, EMP_PW,
    TRY_L, TRY_R, TRY_0, IOA_L, IOA_CL, IOA_R, ERASE_KEY, CLEAR,
    // hints
    INS_HINT_L, INS_HINT_R, INS_HINT_PAIR, EMP_HINT, TRY_HINT_L, TRY_HINT_R, IOA_HINT_L, IOA_HINT_R,
    // bulk
    INS_RANGE, INS_RANGE_1PASS, INS_ILIST, CTOR_RANGE, CTOR_RANGE_1PASS, CTOR_ILIST, ASG_ILIST,
    // iteration
    WALK, WALK_FROM, SET_THROUGH_ITER,
    // erase by iterator
    ERASE_IT, ERASE_CIT, ERASE_RANGE, ERASE_CRANGE, ERASE_IF, ERASE_WHILE_WALKING, ERASE_KEYS,
    // capacity
    RESERVE, RESERVE_EXACT, REHASH, SHRINK, CLEAR_DESTROY, MLF,
    // whole maps
    COPY_CTOR, COPY_CTOR_ALLOC, COPY_ASSIGN, SELF_ASSIGN, MOVE_CTOR, MOVE_CTOR_ALLOC, MOVE_ASSIGN, SELF_SWAP,
    SWAP_MEMBER, SWAP_FREE, SWAP_STD, RECREATE,
    OP_COUNT
};
inline const char * op_name(int o) {
    static const char * n[] = {
    "find","cfind","count","contains","at","cat","idx_read","idx_set_l","idx_set_r",
    "ins_cl","ins_l","ins_r","ins_pair_l","ins_pair_r","emp_kv_l","emp_kv_r","emp_pair","emp_pw",
    "try_l","try_r","try_0","ioa_l","ioa_cl","ioa_r","erase_key","clear",
    "ins_hint_l","ins_hint_r","ins_hint_pair","emp_hint","try_hint_l","try_hint_r","ioa_hint_l","ioa_hint_r",
    "ins_range","ins_range_1pass","ins_ilist","ctor_range","ctor_range_1pass","ctor_ilist","asg_ilist",
    "walk","walk_from","set_through_iter",
    "erase_it","erase_cit","erase_range","erase_crange","erase_if","erase_while_walking","erase_keys",
    "reserve","reserve_exact","rehash","shrink","clear_destroy","mlf",
    "copy_ctor","copy_ctor_alloc","copy_assign","self_assign","move_ctor","move_ctor_alloc","move_assign","self_swap",
    "swap_member","swap_free","swap_std","recreate" };
    static_assert(sizeof n / sizeof *n == OP_COUNT, "names");
    return n[o];
}
enum : uint64_t {   // groups
    OG_LOOKUP = 1, OG_INSERT = 2, OG_ERASE = 4, OG_HINT = 8, OG_BULK = 16, OG_ITER = 32, OG_ERASE_IT = 64, OG_CAP = 128, OG_COPY = 256, OG_MOVE = 512, OG_CLEAR = 1024
};
inline uint64_t op_group(int o) {
    if (o <= IDX_READ) return OG_LOOKUP;
    if (o <= IOA_R) return OG_INSERT;
    if (o == ERASE_KEY) return OG_ERASE;
    if (o == CLEAR) return OG_CLEAR;
    if (o <= IOA_HINT_R) return OG_HINT;
    if (o <= ASG_ILIST) return OG_BULK;
    if (o <= SET_THROUGH_ITER) return OG_ITER;
    if (o <= ERASE_KEYS) return OG_ERASE_IT;
    if (o <= MLF) return OG_CAP;
    if (o <= SELF_ASSIGN) return OG_COPY;
    if (o == RECREATE) return OG_CLEAR;
    return OG_MOVE;
}

// Single pass iterator over a vector of pairs: incrementing one copy advances all of them.
template <class P>
struct OnePass {
    using iterator_category = std::input_iterator_tag;
    using value_type = P; using difference_type = std::ptrdiff_t; using pointer = const P *; using reference = const P &;
    const std::vector<P> * v; std::shared_ptr<size_t> pos;     // pos null: end
    bool at_end() const { return !pos || *pos >= v->size(); }
    const P & operator * () const { CHECK(!at_end(), "input-read-past-end", "an input range is read past its end"); return (*v)[*pos]; }
    const P * operator -> () const { return &**this; }
    OnePass & operator ++ () { CHECK(!at_end(), "input-read-past-end", "an input range is advanced past its end"); ++*pos; return *this; }
    OnePass operator ++ (int) { OnePass c(*this); ++*this; return c; }
    friend bool operator == (const OnePass & a, const OnePass & b) { return a.at_end() == b.at_end(); }
    friend bool operator != (const OnePass & a, const OnePass & b) { return !(a == b); }
};

struct TraceEnt { uint8_t op, map; uint64_t id, val; };
struct Plan {
    uint64_t groups = 0;              // which op groups
    uint64_t maps = 1;                // how many maps take part
    bool obj_counts = false;          // compare live objects with sizes after every step
    bool alloc_checks = false;
    bool reserve_promise = false;
    bool churn = false;               // C11
    unsigned sweep_every = 16;
    bool bounded_hash = false;        // robin: few keys per full hash, index bits kept
    uint64_t max_steps = 400;
    unsigned big_every = 24;          // one of so many cases uses a large map
    bool forms = false, load = false, steal = false, huge = false;                // tens or hundreds of thousands of elements
    bool wear = false;                // always start with stretches of keys that come and go
};

template <class Cfg>
struct Driver {
    typedef typename Cfg::Map M;
    typedef typename Cfg::K K;
    typedef typename Cfg::V V;
    typedef typename M::value_type VT;
    typedef std::pair<K, V> P;
    typedef typename M::iterator It;
    typedef typename M::const_iterator CIt;
    typedef typename M::hasher H;
    typedef typename M::key_equal E;
    typedef typename M::allocator_type A;
    static constexpr bool full = Cfg::family <= ROBIN;
    static constexpr bool own_hash = std::is_same<H, MHash<K>>::value;
    static constexpr bool own_alloc = Cfg::own_alloc;
    static constexpr bool set_val = !std::is_same<V, Empty>::value;
    typedef std::map<uint64_t, uint64_t> Model;

    struct Cell { std::unique_ptr<M> m; Model r; uint64_t alloc_id = 1; uint64_t htag = 0; };

    Rng g{1};
    Plan plan;
    std::vector<Cell> cells;
    uint64_t U = 1, steps = 1, next_val = 1;
    HMode hm; 
    std::vector<TraceEnt> trace;
    std::vector<unsigned> weights; unsigned wtotal = 0;
    std::vector<uint64_t> hot;
    bool big = false, fill = false;
    static constexpr uint64_t kValMod = std::is_same<V, uint8_t>::value ? 251 : ~0ull;

    K mk(uint64_t i) { return Conv<K>::make(i); }
    V mv(uint64_t t) { return VConv<V>::make(t); }
    static uint64_t kid(const K & k) { return Conv<K>::id(k); }
    static uint64_t vid(const V & v) { return VConv<V>::id(v); }
    uint64_t fresh_val() {
        if (std::is_same<V, Empty>::value) return 0;
        if (std::is_same<V, uint8_t>::value) return 1 + (next_val++ % 250);
        return sizeof(V) == 2 ? 1 + (next_val++ % 65000) : next_val++ & 0x3fffffff;
    }
    static uint64_t default_val() { static uint64_t d = vid(V()); return d; }

    void dump() {
        printf("CASE U=%llu steps=%llu hash{and=%llx or=%llx pre=%u rot=%u div=%u} stride=%llu off=%llu maps=%zu cfg=%s\n",
            (unsigned long long)U, (unsigned long long)steps, (unsigned long long)hm.andm, (unsigned long long)hm.orm, hm.pre, hm.rot, hm.div,
            (unsigned long long)KM().stride, (unsigned long long)KM().off, cells.size(), Cfg::name());
        size_t n = trace.size(), from = n > 60 ? n - 60 : 0;
        for (size_t i = from; i < n; i++)
            printf("TRACE %zu m%d %s id=%llu val=%llu\n", i, trace[i].map, op_name(trace[i].op), (unsigned long long)trace[i].id, (unsigned long long)trace[i].val);
    }

    // ----- construction ---------------------------------------------------------------------
    H make_hash(uint64_t tag) { if constexpr (own_hash) return H(hm, tag); else return H(); }
    E make_eq(uint64_t tag) { if constexpr (std::is_same<E, MEq<K>>::value) return E(tag); else return E(); }
    A make_alloc(uint64_t id) { if constexpr (own_alloc) return A(id); else { (void)id; return A(); } }
    uint64_t tag_counter = 0;
    // the constructor forms that leave out arguments; false: use the full form
    template <class... S> bool short_form(Cell & c, uint64_t cap, S &&... src) {
        if constexpr (own_hash && own_alloc) {
            constexpr bool group = Cfg::family <= G16, bare = sizeof...(S) == 0;
            if (!plan.forms || !g.chance(1, 2)) return false;
            unsigned f = unsigned(g.below(7));
            if (!group && (f == 2 || (bare && (f == 3 || f == 4)))) return false;
            c.htag = 0;     // whatever is left out is default constructed
            if (f == 0 || f == 1 || f == 5) c.alloc_id = A().id;
            switch (f) {
            case 0: c.m.reset(new M(src...)); break;
            case 1: c.m.reset(new M(src..., cap)); break;
            case 2: if constexpr (group) c.m.reset(new M(src..., make_alloc(c.alloc_id))); break;
            case 3: if constexpr (group || !bare) c.m.reset(new M(src..., cap, make_alloc(c.alloc_id))); break;
            case 4: if constexpr (group || !bare) c.m.reset(new M(src..., cap, make_hash(0), make_alloc(c.alloc_id))); break;
            case 5: c.m.reset(new M(src..., cap, make_hash(0))); break;
            case 6: if constexpr (bare) c.m.reset(new M(make_alloc(c.alloc_id))); else c.m.reset(new M(src..., cap, make_hash(0), make_eq(0), make_alloc(c.alloc_id))); break;
            }
            vf::stat("short_constructors"); check_policy(c, "construction");
            return true;
        } else return false;
    }
    void create(Cell & c, uint64_t cap) {
        c.htag = ++tag_counter;
        c.alloc_id = own_alloc ? g.range(1, 3) : 1;
        c.r.clear();
        if (short_form(c, cap)) { }
        else if constexpr (Cfg::family <= ROBIN)
            c.m.reset(new M(cap, make_hash(c.htag), make_eq(c.htag), make_alloc(c.alloc_id)));
        else
            c.m.reset(new M(cap));
        if ((plan.load || plan.steal) && g.chance(1, 3)) c.m->max_load_factor(float(g.range(25, 90)) / 100.0f);
    }
    uint64_t tag_of(const M & m) {
        if constexpr (own_hash) { return m.hash_function().tag; } else return 0;
    }
    void check_policy(Cell & c, const char * after) {
        if constexpr (own_hash && full) {
            CHECK(c.m->hash_function().tag == c.htag && c.m->hash_function().m.andm == hm.andm, "hasher-lost", "hash_function() has state %llu instead of %llu after %s", (unsigned long long)c.m->hash_function().tag, (unsigned long long)c.htag, after);
            CHECK(c.m->key_eq().tag == c.htag, "key_eq-lost", "key_eq() has state %llu instead of %llu after %s", (unsigned long long)c.m->key_eq().tag, (unsigned long long)c.htag, after);
        }
        if constexpr (own_alloc) {
            CHECK(c.m->get_allocator().owner() == A(c.alloc_id).owner() , "allocator-propagation", "get_allocator() is allocator %llu, it must be %llu after %s", (unsigned long long)c.m->get_allocator().id, (unsigned long long)c.alloc_id, after);
        }
    }

    // ----- comparison -----------------------------------------------------------------------
    void check_val(const char * key, const V & v, uint64_t want, uint64_t id) {
        uint64_t got = vid(v);
        CHECK(got == want, key, "key %llu has value %llu, the model says %llu", (unsigned long long)id, (unsigned long long)got, (unsigned long long)want);
    }
    template <class I, class Ref> void check_ref(const char * key, Ref & m, I it, uint64_t id, uint64_t want) {
        CHECK(it != m.end(), key, "the iterator returned for key %llu is end()", (unsigned long long)id);
        CHECK(kid(it->first) == id, key, "the iterator returned for key %llu refers to key %llu", (unsigned long long)id, (unsigned long long)kid(it->first));
        check_val(key, it->second, want, id);
    }
    void check_size(Cell & c) {
        size_t n = c.m->size();
        CHECK(n == c.r.size(), "wrong-size", "size() is %zu, the model has %zu", n, c.r.size());
        CHECK(c.m->empty() == c.r.empty(), "wrong-empty", "empty() is wrong at size %zu", n);
    }
    void check_absent(Cell & c, uint64_t id) {
        const M & cm = *c.m;
        CHECK(!cm.contains(mk(id)), "phantom-key", "contains() is true for absent key %llu", (unsigned long long)id);
        CHECK(c.m->find(mk(id)) == c.m->end(), "phantom-key", "find() finds absent key %llu", (unsigned long long)id);
    }
    void check_present(Cell & c, uint64_t id, uint64_t want) {
        auto it = c.m->find(mk(id));
        CHECK(it != c.m->end(), "lost-key", "key %llu is not found", (unsigned long long)id);
        check_ref("find-wrong", *c.m, it, id, want);
    }
    std::vector<uint8_t> seen_small; 
    void walk(Cell & c, int style) {
        M & m = *c.m; const M & cm = m;
        std::map<uint64_t, int> seen;
        size_t n = 0, limit = c.r.size();
        auto visit = [&](const K & k, const V & v) {
            n++;
            CHECK(n <= limit, "walk-too-long", "the walk has more than size()=%zu steps", limit);
            uint64_t id = kid(k);
            auto f = c.r.find(id);
            CHECK(f != c.r.end(), "walk-phantom", "the walk visits key %llu, which is not in the map", (unsigned long long)id);
            CHECK(seen[id]++ == 0, "walk-duplicate", "the walk visits key %llu twice", (unsigned long long)id);
            check_val("walk-wrong-value", v, f->second, id);
        };
        CHECK((m.begin() == m.end()) == c.r.empty(), "begin-end", "begin()==end() is %d at size %zu", int(m.begin() == m.end()), c.r.size());
        CHECK((cm.begin() == cm.end()) == c.r.empty(), "begin-end", "const begin()==end() is wrong at size %zu", c.r.size());
        switch (style % 5) {
        case 0: for (auto it = m.begin(); it != m.end(); ++it) visit(it->first, it->second); break;
        case 1: for (auto it = cm.begin(); it != cm.end(); ++it) visit((*it).first, (*it).second); break;
        case 2: for (auto & kv : m) visit(kv.first, kv.second); break;
        case 3: for (auto it = m.cbegin(); it != m.cend(); it++) visit(it->first, it->second); break;
        case 4: for (auto it = m.begin(); it != m.end();) { auto old = it++; visit(old->first, old->second); } break;
        }
        CHECK(n == limit, "walk-too-short", "the walk has %zu steps, size() is %zu", n, limit);
        stat("walk_steps", n);
    }
    // everything that is observable
    void sweep(Cell & c) {
        check_size(c);
        walk(c, int(g.below(5)));
        M & m = *c.m; const M & cm = m;
        if (c.r.size() <= 64 || g.chance(1, 4)) {
            for (auto & kv : c.r) {
                check_present(c, kv.first, kv.second);
                CHECK(cm.count(mk(kv.first)) == 1, "lost-key", "count() of key %llu is not 1", (unsigned long long)kv.first);
            }
        } else {
            auto it = c.r.lower_bound(g.below(U));
            for (int i = 0; i < 40 && it != c.r.end(); i++, ++it) check_present(c, it->first, it->second);
        }
        for (int i = 0; i < 12; i++) {
            uint64_t id = g.below(id_space());
            if (!c.r.count(id)) check_absent(c, id);
        }
        if constexpr (Cfg::family <= ROBIN) {
            // a map without storage reports a capacity of 1, it holds nothing
            CHECK(m.size() <= m.capacity(), "size-over-capacity", "size %zu capacity %zu", m.size(), m.capacity());
            if (plan.load && !exact && m.size() && m.capacity() > 64) { float lf = m.load_factor(), x = m.max_load_factor(); CHECK(lf <= x + 0.01f, "load-factor-above-max", "load_factor() is %g with max_load_factor() %g at size %zu, capacity %zu", double(lf), double(x), m.size(), m.capacity()); stat("load_factors"); }
            if (m.size()) { float lf = m.load_factor(); CHECK(lf > 0.0f && lf <= 1.0f, "load-factor", "load_factor() is %g at size %zu", double(lf), m.size()); }
        }
        check_policy(c, "the history");
        stat("sweeps");
    }
    bool exact = true;              // the forms that ignore the load factor are used
    uint64_t id_space() const { return std::is_same<K, uint8_t>::value ? std::min<uint64_t>(U + 20, 256) : U + 20; }

    void check_objects() {
        uint64_t total = 0;
        for (auto & c : cells) total += c.m->size();
        count_objs<K>(total);
        count_objs<V>(total);
    }
    template <class T> struct RegOf { static constexpr bool has = false; };
    template <int T, size_t Pd, bool Cp> struct RegOf<Obj<T, Pd, Cp>> { static constexpr bool has = true; static Registry & reg() { return Obj<T, Pd, Cp>::reg(); } };
    template <class T> void count_objs(uint64_t total) {
        if constexpr (RegOf<T>::has) {
            uint64_t n = RegOf<T>::reg().count();
            CHECK(n == total, "live-objects", "%llu %s objects are alive, the maps hold %llu elements", (unsigned long long)n, T::what(), (unsigned long long)total);
        }
    }
    void check_storage(Cell & c) {
        if constexpr (own_alloc) {
            for (auto it = c.m->begin(); it != c.m->end(); ++it) {
                uintptr_t a = (uintptr_t)std::addressof(*it);
                auto b = BL().find(a);
                CHECK(b && a + sizeof(VT) <= b->first + b->second.bytes, "element-outside-storage", "an element lives at %p, outside every block obtained from the allocator", (void *)a);
                CHECK(a % alignof(VT) == 0, "misaligned-element", "element at %p, alignment %zu", (void *)a, alignof(VT));
                CHECK(b->second.owner == A(c.alloc_id).owner(), "element-in-foreign-storage", "an element lives in a block of allocator %llu, the map has allocator %llu", (unsigned long long)b->second.owner, (unsigned long long)c.alloc_id);
            }
        }
    }

    // ----- one case -------------------------------------------------------------------------
    void choose_hash() {
        hm = HMode();
        unsigned k = unsigned(g.below(10));
        if (plan.huge && !plan.bounded_hash) {
            switch (k) {
            case 0: case 1: hm.pre = 0; break;
            case 2: hm.andm = ~0ull << 32; break;
            case 3: hm.andm = 0xffffffffull; break;
            case 4: hm.pre = 0; hm.rot = unsigned(g.below(24)); break;
            case 5: hm.div = unsigned(g.range(2, 6)); break;
            default: hm.pre = 1; break;
            }
            return;
        }
        if (plan.bounded_hash) {
            // Robin hood tables need about as many distinct homes as keys: a few keys may share a hash,
            // homes may be contiguous or strided, but never more keys than homes.
            unsigned bits = 2; while ((1ull << bits) < 2 * (U + 20)) bits++;
            switch (k) {
            case 0: case 1: hm.pre = 0; break;
            case 2: case 3: hm.pre = 1; break;
            case 4: hm.pre = 0; hm.rot = unsigned(g.below(7)); break;                                    // strided homes
            case 5: hm.pre = 1; hm.div = unsigned(g.range(2, U > 100 ? 4 : 6)); break;                   // groups of equal hashes
            case 6: hm.pre = 0; hm.div = unsigned(g.range(2, 5)); hm.rot = 4; break;                     // groups of equal hashes, strided
            case 7: hm.pre = 1; hm.orm = g.next() << 40; break;                                          // little entropy above
            case 8: hm.pre = 0; hm.rot = unsigned(g.below(6)); hm.orm = (1ull << hm.rot) - 1; break;     // homes end in ones: the end of the table
            default: hm.pre = 1; hm.andm = (1ull << (bits + 1 + g.below(6))) - 1; break;
            }
            return;
        }
        switch (k) {
        case 0: hm.pre = 0; break;
        case 1: hm.pre = 1; break;
        case 2: hm.andm = 0; hm.orm = g.chance(1, 2) ? 0 : g.next(); break;                              // constant
        case 3: hm.andm = 0xffull << (8 * g.below(8)); hm.orm = g.next() & ~hm.andm; break;              // one byte varies
        case 4: hm.andm = g.next() & g.next() & g.next(); hm.orm = g.next() & ~hm.andm; break;           // sparse bits
        case 5: hm.pre = 0; hm.rot = unsigned(g.below(64)); break;
        case 6: hm.andm = (1ull << g.below(6)) - 1; break;                                               // few values
        case 7: hm.andm = ~0ull << (40 + g.below(20)); break;                                            // only high bits
        case 8: hm.andm = g.next() | g.next(); break;
        case 9: hm.pre = 0; hm.andm = 7; hm.rot = 61; break;
        }
        if (__builtin_popcountll(hm.andm) < 8) { U = std::min<uint64_t>(U, 260); big = false; if (g.chance(1, 8)) { U = g.range(240, 640); fill = true; } }        // every operation is linear
    }
    // stretches of neighbouring keys come and go: full runs of slots are emptied while others fill (marks of erased slots pile up)
    void wear(Cell & c) {
        if constexpr (Cfg::family != ROBIN) if (plan.wear && (plan.groups & OG_CAP) && g.chance(1, 2)) c.m->max_load_factor(float(g.range(20, 100)) / 100.0f);
        for (uint64_t rounds = plan.wear ? g.range(6, 24) : g.range(2, 7); rounds--; ) {
            bool add = c.r.size() < U / 8 || g.chance(1, 2);
            uint64_t len = std::max<uint64_t>(1, U * g.range(1, 8) / 8), start = g.chance(1, 3) ? 0 : g.below(U), p = g.chance(2, 3) ? 8 : g.range(3, 8), step = g.chance(3, 4) ? 1 : 7;
            for (uint64_t j = 0, i = start; j < len; j++, i = (i + step) % U) {
                if (!g.chance(p, 8)) continue;
                auto f = c.r.find(i);
                if (add && f == c.r.end()) {
                    uint64_t w = fresh_val(); auto res = c.m->try_emplace(mk(i), mv(w));
                    CHECK(res.second, "insert-result", "try_emplace of new key %llu returned 0", (unsigned long long)i);
                    check_ref("insert-iterator", *c.m, res.first, i, w); c.r[i] = w; stat("wear_inserted");
                } else if (!add && f != c.r.end()) {
                    auto n = c.m->erase(mk(i)); CHECK(n == 1, "erase-result", "erase() of present key %llu returned %d", (unsigned long long)i, int(n));
                    c.r.erase(i); stat("wear_erased");
                }
                if (g.chance(1, 16)) { uint64_t k = g.below(U); CHECK(c.m->contains(mk(k)) == (c.r.count(k) != 0), c.r.count(k) ? "lost-key" : "phantom-key", "contains(%llu) while stretches come and go", (unsigned long long)k); }
            }
            check_size(c);
        }
        sweep(c);
    }
    void setup(uint64_t seed) {
        g = Rng(seed);
        trace.clear();
        cells.clear();
        next_val = 1;
        static const uint64_t us[] = { 1, 2, 3, 4, 6, 8, 12, 14, 15, 16, 17, 24, 28, 30, 31, 32, 40, 56, 64, 80, 100, 128, 200, 256, 400, 700 };
        U = g.pick(us);
        big = g.chance(1, plan.big_every);
        if (big) U = g.range(500, 3000);
        if (plan.wear) { big = true; U = g.chance(1, 8) ? g.range(64, 300) : g.range(300, 5000); }
        if (plan.huge) { big = true; U = g.chance(1, 6) ? g.range(140000, 600000) : g.chance(1, 4) ? (1ull << g.range(13, 17)) + g.below(600) : g.range(8000, 90000); if (plan.maps > 1) U = std::min<uint64_t>(U, 40000); }
        if (std::is_same<K, uint8_t>::value) U = std::min<uint64_t>(U, 230);
        KM() = KeyMap();
        fill = false; exact = g.chance(1, 2);
        choose_hash();
        bool wearing = U >= 24 && (plan.wear || g.chance(1, 5));
        if (wearing && (plan.wear || g.chance(1, 2))) {
            hm = HMode(); hm.pre = g.chance(1, 8) ? 1 : 0;
            if (g.chance(1, 4)) hm.rot = unsigned(g.below(3));
            if (g.chance(1, 3)) { if (plan.bounded_hash) { hm.rot = unsigned(g.range(1, 2)); hm.div = unsigned(g.range(2, 1u << hm.rot)); } else { hm.rot = unsigned(g.below(6)); hm.div = unsigned(g.range(2, 48)); } }
        }
        if (std::is_same<K, uint8_t>::value) U = std::min<uint64_t>(U, 230);
        GHM() = hm;
        steps = g.range(plan.max_steps / 8 + 1, plan.max_steps);
        if (U > 100) steps += plan.max_steps;
        if (big && !plan.huge && !plan.wear) steps += U / 2;
        if (plan.huge && (plan.maps > 1 || (plan.groups & (OG_COPY | OG_MOVE | OG_CAP | OG_BULK | OG_ITER)))) steps = std::min<uint64_t>(steps, 100);
        if (!own_hash) {
            if (Cfg::family == ROBIN || Cfg::family >= ROBIN16) {
                uint64_t maxs = 0; while ((U + 20) << (maxs + 1) <= (1u << 18)) maxs++;
                KM().stride = 1ull << g.below(std::min<uint64_t>(maxs, 12) + 1);
                KM().off = g.below(2) ? 0 : g.below(1u << 20);
                if (g.chance(1, 4)) KM().off = KM().stride - 1;
            } else {
                KM().stride = 1ull << (3 * g.below(plan.huge ? 4 : 6)); KM().off = g.next() & 0xfff;
            }
            if (std::is_same<K, int>::value && g.chance(1, 6)) { KM().stride = 1; KM().off = 0u - U / 2; }   // negative keys too
        }
        // weights
        weights.assign(OP_COUNT, 0);
        uint64_t profile = g.below(5);
        for (int o = 0; o < OP_COUNT; o++) {
            uint64_t gr = op_group(o);
            if (!(plan.groups & gr) || !supported(o)) continue;
            unsigned w = 4;
            switch (gr) {
            case OG_LOOKUP: w = 4; break;
            case OG_INSERT: w = profile == 1 ? 2 : profile == 2 ? 8 : 4; break;
            case OG_ERASE: w = profile == 1 ? 90 : profile == 2 ? 12 : 45; break;
            case OG_CLEAR: w = (o == RECREATE) ? 1 : (g.chance(1, 3) ? 1 : 0); break;
            case OG_HINT: w = 3; break;
            case OG_BULK: w = 2; break;
            case OG_ITER: w = 3; break;
            case OG_ERASE_IT: w = (o == ERASE_IT || o == ERASE_CIT) ? 10 : (o == ERASE_RANGE || o == ERASE_CRANGE || o == ERASE_IF || o == ERASE_WHILE_WALKING) ? 2 : 1; break;
            case OG_CAP: w = (o == CLEAR_DESTROY) ? 1 : 2; break;
            case OG_COPY: case OG_MOVE: w = 2; break;
            }
            weights[o] = w;
        }
        wtotal = 0; for (unsigned w : weights) wtotal += w;
        cells.resize(plan.maps);
        for (auto & c : cells) { static const uint64_t caps[] = { 0, 0, 0, 1, 2, 3, 7, 14, 15, 16, 31, 64, 100 }; create(c, g.pick(caps)); }
        // start with a filled map: the interesting thresholds are reached at once
        if (((big || fill) && !plan.wear) || g.chance(1, 3)) {
            for (auto & c : cells) {
                if (!fill && g.chance(1, 4)) continue;
                uint64_t den = g.range(1, 6), num = fill ? den : g.range(1, den);
                for (uint64_t i = 0; i < U; i++) if (g.chance(num, den)) {
                    uint64_t w = fresh_val();
                    auto res = c.m->emplace(mk(i), mv(w));
                    CHECK(res.second && !c.r.count(i), "insert-result", "emplace of new key %llu returned %d", (unsigned long long)i, int(res.second));
                    check_ref("insert-iterator", *c.m, res.first, i, w);
                    c.r[i] = w;
                    stat("prefill");
                }
                sweep(c);
                maxsize = std::max<uint64_t>(maxsize, c.r.size());
                if (plan.huge) for (uint64_t rounds = g.below(4); rounds--; ) {
                    // a large part goes, others come
                    uint64_t p = g.range(1, 8), q = g.below(9), step = g.chance(1, 2) ? 1 : 2 * g.below(U) + 1;
                    for (uint64_t j = 0, i = g.below(U); j < U; j++, i = (i + step) % U) {
                        bool in = c.r.count(i) != 0;
                        if (in && g.chance(p, 8)) { auto n = c.m->erase(mk(i)); CHECK(n == 1, "erase-result", "erase() of present key %llu returned %d", (unsigned long long)i, int(n)); c.r.erase(i); stat("mass_erased"); }
                        else if (!in && g.chance(q, 8)) { uint64_t w = fresh_val(); auto res = c.m->try_emplace(mk(i), mv(w)); CHECK(res.second, "insert-result", "try_emplace of new key %llu returned 0", (unsigned long long)i); check_ref("insert-iterator", *c.m, res.first, i, w); c.r[i] = w; }
                    }
                    check_size(c); sweep(c);
                }
            }
        }
        if (wearing) for (auto & c : cells) wear(c);
    }
    static constexpr bool supported(int o) {
        if (Cfg::family <= ROBIN) {
            if constexpr (!Cfg::copyable) {
                switch (o) {
                case IDX_SET_L: case INS_CL: case INS_L: case INS_PAIR_L: case EMP_KV_L: case EMP_PW: case TRY_L: case IOA_L: case IOA_CL:
                case INS_HINT_L: case TRY_HINT_L: case IOA_HINT_L: case INS_RANGE: case INS_RANGE_1PASS: case INS_ILIST: case CTOR_RANGE: case CTOR_RANGE_1PASS:
                case CTOR_ILIST: case ASG_ILIST: case COPY_CTOR: case COPY_CTOR_ALLOC: case COPY_ASSIGN: case SELF_ASSIGN: case MOVE_CTOR_ALLOC: case MOVE_ASSIGN: return false;
                }
            }
            return true;
        }
        switch (o) {
        case IOA_HINT_L: case IOA_HINT_R: case TRY_HINT_L: case TRY_HINT_R: case CTOR_RANGE: case CTOR_RANGE_1PASS: case ASG_ILIST: case INS_RANGE_1PASS:
        case ERASE_IT: case ERASE_CIT: case ERASE_RANGE: case ERASE_CRANGE: case ERASE_IF: case ERASE_WHILE_WALKING: case ERASE_KEYS:
        case COPY_ASSIGN: case SELF_ASSIGN: case MOVE_ASSIGN: case SWAP_FREE: case SWAP_STD: case COPY_CTOR_ALLOC: case MOVE_CTOR_ALLOC: case INS_ILIST:
        case SELF_SWAP: case CTOR_ILIST: case COPY_CTOR: case MOVE_CTOR: case SWAP_MEMBER: return false;
        }
        return true;
    }
    Op pick_op() {
        unsigned r = unsigned(g.below(wtotal));
        for (int o = 0; o < OP_COUNT; o++) { if (r < weights[o]) return Op(o); r -= weights[o]; }
        return FIND;
    }
    uint64_t pick_id() {
        if (!hot.empty() && g.chance(1, 4)) return hot[g.below(hot.size())];
        uint64_t id = g.below(U);
        if (hot.size() < 8) hot.push_back(id); else hot[g.below(8)] = id;
        return id;
    }
    std::vector<P> make_input(std::vector<std::pair<uint64_t, uint64_t>> & desc) {
        std::vector<P> v;
        size_t n = g.skewed(40);
        for (size_t i = 0; i < n; i++) desc.push_back({ g.below(U), fresh_val() });
        if constexpr (Cfg::copyable) for (auto & d : desc) v.push_back(P(mk(d.first), mv(d.second)));
        return v;
    }
    // the iterator must be able to continue to end(), visiting distinct stored keys
    void walk_from(Cell & c, It it) {
        size_t n = 0; std::set<uint64_t> s;
        for (; it != c.m->end(); ++it) {
            CHECK(++n <= c.r.size(), "walk-too-long", "the rest of the walk is longer than size()=%zu", c.r.size());
            uint64_t id = kid(it->first);
            CHECK(c.r.count(id), "walk-phantom", "the rest of the walk visits key %llu, which is not in the map", (unsigned long long)id);
            CHECK(s.insert(id).second, "walk-duplicate", "the rest of the walk visits key %llu twice", (unsigned long long)id);
        }
    }

    void one(uint64_t stepno) {
        Op op = pick_op();
        size_t ci = g.below(cells.size());
        Cell & c = cells[ci];
        M & m = *c.m; const M & cm = m;
        uint64_t id = pick_id(), v = fresh_val();
        trace.push_back({ uint8_t(op), uint8_t(ci), id, v });
        vf::step(); G().prog->op = op;
        ops[op]++;
        auto f = c.r.find(id);
        const bool present = f != c.r.end();
        const uint64_t old = present ? f->second : 0;
        if (present) hits[op]++;
        size_t cap_before = 0, size_before = c.r.size();
        cap_before = m.capacity();
        auto insert_result = [&](auto res, uint64_t val) {
            CHECK(res.second == !present, "insert-result", "%s of key %llu returned %d, the key was %s", op_name(op), (unsigned long long)id, int(res.second), present ? "present" : "absent");
            if (!present) c.r[id] = val;
            check_ref("insert-iterator", m, res.first, id, c.r[id]);
            if (g.chance(1, 16)) walk_from(c, res.first);
        };
        auto insert_hinted = [&](auto it, uint64_t val) {
            if (!present) c.r[id] = val;
            check_ref("insert-iterator", m, It(it), id, c.r[id]);
        };
        auto assign_result = [&](auto res) {
            CHECK(res.second == !present, "insert-result", "%s of key %llu returned %d, the key was %s", op_name(op), (unsigned long long)id, int(res.second), present ? "present" : "absent");
            c.r[id] = v;
            check_ref("insert-iterator", m, res.first, id, v);
        };
        auto hint = [&]() -> CIt { switch (g.below(3)) { case 0: return m.cbegin(); case 1: return m.cend(); default: return CIt(m.find(mk(g.below(U)))); } };
        // the arguments are the key and the value of elements of the map itself
        auto own = [&]() -> bool {
            if constexpr (Cfg::copyable) {
                if (!present || !(op_group(op) & (OG_LOOKUP | OG_INSERT | OG_ERASE)) || !g.chance(1, 6)) return false;
                auto it = m.find(mk(id)); CHECK(it != m.end(), "lost-key", "find() misses key %llu", (unsigned long long)id);
                const K & k = it->first; V & w = it->second; stat("own_references");
                switch (g.below(9)) {
                case 0: CHECK(cm.count(k) == 1 && cm.contains(k), "own-reference", "count() or contains() of the key in an element, %llu", (unsigned long long)id); break;
                case 1: check_ref("own-reference", m, m.find(k), id, old); check_ref("own-reference", cm, cm.find(k), id, old); break;
                case 2: check_val("own-reference", m[k], old, id); break;
                case 3: check_val("own-reference", m.at(k), old, id); check_val("own-reference", cm.at(k), old, id); break;
                case 4: insert_result(m.insert(*it), old); break;
                case 5: insert_result(m.emplace(k, w), old); break;
                case 6: insert_result(m.try_emplace(k, w), old); break;
                case 7: { auto e = g.chance(1, 4) ? it : m.begin(); uint64_t nv = c.r[kid(e->first)]; const V & x = e->second; auto r = m.insert_or_assign(k, x); CHECK(!r.second, "insert-result", "insert_or_assign of a present key, %llu", (unsigned long long)id); c.r[id] = nv; check_ref("own-reference", m, r.first, id, nv); break; }
                case 8: { size_t n = size_t(m.erase(k)); CHECK(n == 1, "erase-result", "erase() of the key in an element, %llu, returned %zu", (unsigned long long)id, n); c.r.erase(id); break; }
                }
                return true;
            } else return false;
        };
        if (!own()) switch (op) {
        case FIND: { auto it = m.find(mk(id)); if (present) { CHECK(it != m.end(), "lost-key", "find() misses key %llu", (unsigned long long)id); check_ref("find-wrong", m, it, id, old); if (g.chance(1, 16)) walk_from(c, it); }
                     else CHECK(it == m.end(), "phantom-key", "find() finds absent key %llu", (unsigned long long)id); break; }
        case CFIND: { auto it = cm.find(mk(id)); if (present) { CHECK(it != cm.end(), "lost-key", "const find() misses key %llu", (unsigned long long)id); check_ref("find-wrong", cm, it, id, old); }
                      else CHECK(it == cm.end(), "phantom-key", "const find() finds absent key %llu", (unsigned long long)id); break; }
        case COUNT:
            if constexpr (Cfg::family >= ROBIN) if (g.chance(1, 3)) {
                auto r = m.equal_range(mk(id)); auto q = cm.equal_range(mk(id)); bool one = r.first != r.second && std::next(r.first) == r.second, cone = q.first != q.second && std::next(q.first) == q.second;
                CHECK(present ? one && cone : r.first == r.second && q.first == q.second, "equal-range-wrong", "equal_range() of key %llu is wrong", (unsigned long long)id);
                if (present) { check_ref("equal-range-wrong", m, r.first, id, old); check_ref("equal-range-wrong", cm, q.first, id, old); }
                stat("equal_ranges");
            }
            CHECK(cm.count(mk(id)) == (present ? 1u : 0u), "count-wrong", "count() of key %llu is wrong", (unsigned long long)id); break;
        case CONTAINS: CHECK(cm.contains(mk(id)) == present, "contains-wrong", "contains() of key %llu is wrong", (unsigned long long)id); break;
        case AT: case CAT:
            {
                bool thrown = false;
                try { if (op == AT) { V & r = m.at(mk(id)); if (present) check_val("at-wrong", r, old, id); }
                      else { const V & r = cm.at(mk(id)); if (present) check_val("at-wrong", r, old, id); } }
                catch (std::out_of_range &) { thrown = true; }
                CHECK(thrown == !present, "at-throw", "at() of key %llu %s, the key is %s", (unsigned long long)id, thrown ? "threw" : "did not throw", present ? "present" : "absent");
            }
            break;
        case IDX_READ: { V & r = m[mk(id)]; if (!present) c.r[id] = default_val(); check_val("index-wrong", r, c.r[id], id); break; }
        case IDX_SET_L: if constexpr (Cfg::copyable) { K k = mk(id); V & r = m[k]; check_val("index-wrong", r, present ? old : default_val(), id); r = mv(v); c.r[id] = v; CHECK(kid(k) == id, "argument-changed", "operator[] changed its argument"); } break;
        case IDX_SET_R: { m[mk(id)] = mv(v); c.r[id] = v; break; }
        case INS_CL: if constexpr (Cfg::copyable) { const VT p(mk(id), mv(v)); insert_result(m.insert(p), v); arg_ok(p.first, p.second, id, v); } break;
        case INS_L: if constexpr (Cfg::copyable) { VT p(mk(id), mv(v)); insert_result(m.insert(p), v); arg_ok(p.first, p.second, id, v); } break;
        case INS_R: { VT p(mk(id), mv(v)); insert_result(m.insert(std::move(p)), v); break; }
        case INS_PAIR_L: if constexpr (Cfg::copyable) { P p(mk(id), mv(v)); if (g.chance(1, 2)) insert_result(m.insert(p), v); else { const P & q = p; insert_result(m.insert(q), v); } arg_ok(p.first, p.second, id, v); } break;
        case INS_PAIR_R: insert_result(m.insert(P(mk(id), mv(v))), v); break;
        case EMP_KV_L: if constexpr (Cfg::copyable) { K k = mk(id); V w = mv(v); insert_result(m.emplace(k, w), v); arg_ok(k, w, id, v); } break;
        case EMP_KV_R: insert_result(m.emplace(mk(id), mv(v)), v); break;
        case EMP_PAIR: if constexpr (Cfg::copyable) { P p(mk(id), mv(v)); if (g.chance(1, 2)) { insert_result(m.emplace(p), v); arg_ok(p.first, p.second, id, v); } else insert_result(m.emplace(std::move(p)), v); }
                       else insert_result(m.emplace(P(mk(id), mv(v))), v); break;
        case EMP_PW: if constexpr (Cfg::copyable && Cfg::piecewise) { K k = mk(id); V w = mv(v); insert_result(m.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(w)), v); arg_ok(k, w, id, v); } break;
        case TRY_L: if constexpr (Cfg::copyable) { K k = mk(id); V w = mv(v); if (g.chance(1, 2)) insert_result(m.try_emplace(k, w), v); else { const K & q = k; insert_result(m.try_emplace(q, w), v); } arg_ok(k, w, id, v); } break;
        case TRY_R: insert_result(m.try_emplace(mk(id), mv(v)), v); break;
        case TRY_0: insert_result(m.try_emplace(mk(id)), default_val()); break;
        case IOA_L: if constexpr (Cfg::copyable) { K k = mk(id); V w = mv(v); assign_result(m.insert_or_assign(k, w)); arg_ok(k, w, id, v); } break;
        case IOA_CL: if constexpr (Cfg::copyable) { const K k = mk(id); const V w = mv(v); assign_result(m.insert_or_assign(k, w)); arg_ok(k, w, id, v); } break;
        case IOA_R: if constexpr (Cfg::family >= ROBIN) if (g.chance(1, 3)) {
                if constexpr (Cfg::copyable) if (g.chance(1, 2)) { const VT p(mk(id), mv(v)); assign_result(m.insert_always(p)); arg_ok(p.first, p.second, id, v); break; }
                if (full && g.chance(1, 2)) { if constexpr (full) assign_result(m.insert_always(P(mk(id), mv(v)))); break; }
                VT p(mk(id), mv(v)); assign_result(m.insert_always(std::move(p))); break;
            }
            assign_result(m.insert_or_assign(mk(id), mv(v))); break;
        case ERASE_KEY: { size_t n = size_t(m.erase(mk(id))); CHECK(n == (present ? 1u : 0u), "erase-result", "erase() of %s key %llu returned %zu", present ? "present" : "absent", (unsigned long long)id, n); if (present) c.r.erase(id); break; }
        case CLEAR: m.clear(); c.r.clear(); break;
        case INS_HINT_L: if constexpr (Cfg::copyable) { const VT p(mk(id), mv(v)); insert_hinted(m.insert(hint(), p), v); arg_ok(p.first, p.second, id, v); } break;
        case INS_HINT_R: { VT p(mk(id), mv(v)); insert_hinted(m.insert(hint(), std::move(p)), v); break; }
        case INS_HINT_PAIR: if constexpr (full) insert_hinted(m.insert(hint(), P(mk(id), mv(v))), v); break;
        case EMP_HINT: insert_hinted(m.emplace_hint(hint(), mk(id), mv(v)), v); break;
        case TRY_HINT_L: if constexpr (full && Cfg::copyable) { K k = mk(id); V w = mv(v); insert_hinted(m.try_emplace(hint(), k, w), v); arg_ok(k, w, id, v); } break;
        case TRY_HINT_R: if constexpr (full) insert_hinted(m.try_emplace(hint(), mk(id), mv(v)), v); break;
        case IOA_HINT_L: if constexpr (full && Cfg::copyable) { K k = mk(id); V w = mv(v); auto it = m.insert_or_assign(hint(), k, w); c.r[id] = v; check_ref("insert-iterator", m, It(it), id, v); arg_ok(k, w, id, v); } break;
        case IOA_HINT_R: if constexpr (full) { auto it = m.insert_or_assign(hint(), mk(id), mv(v)); c.r[id] = v; check_ref("insert-iterator", m, It(it), id, v); } break;
        case INS_RANGE: if constexpr (Cfg::copyable) {
            std::vector<std::pair<uint64_t, uint64_t>> d; auto in = make_input(d);
            m.insert(in.begin(), in.end()); for (auto & x : d) c.r.insert(x); inputs_ok(in, d); sweep(c); } break;
        case INS_RANGE_1PASS: if constexpr (full && Cfg::copyable) {
            std::vector<std::pair<uint64_t, uint64_t>> d; auto in = make_input(d);
            OnePass<P> b{ &in, std::make_shared<size_t>(0) }, e{ &in, nullptr };
            m.insert(b, e); for (auto & x : d) c.r.insert(x); inputs_ok(in, d); sweep(c); } break;
        case INS_ILIST: if constexpr (full && Cfg::copyable) {
            uint64_t a = g.below(U), b = g.below(U), w = fresh_val(), x = fresh_val();
            m.insert({ VT(mk(id), mv(v)), VT(mk(a), mv(w)), VT(mk(b), mv(x)) });
            c.r.insert({ id, v }); c.r.insert({ a, w }); c.r.insert({ b, x }); sweep(c); } break;
        case CTOR_RANGE: case CTOR_RANGE_1PASS: if constexpr (full && Cfg::copyable) {
            std::vector<std::pair<uint64_t, uint64_t>> d; auto in = make_input(d);
            uint64_t cap = g.skewed(100);
            c.htag = ++tag_counter;
            c.m.reset();
            if (op == CTOR_RANGE && short_form(c, cap, in.begin(), in.end())) { }
            else if (op == CTOR_RANGE) c.m.reset(new M(in.begin(), in.end(), cap, make_hash(c.htag), make_eq(c.htag), make_alloc(c.alloc_id)));
            else { OnePass<P> b{ &in, std::make_shared<size_t>(0) }, e{ &in, nullptr }; 
                   c.m.reset(new M(b, e, cap, make_hash(c.htag), make_eq(c.htag), make_alloc(c.alloc_id))); }
            c.r.clear(); for (auto & x : d) c.r.insert(x); inputs_ok(in, d); sweep(c); return; } break;
        case CTOR_ILIST: if constexpr (full && Cfg::copyable) {
            uint64_t a = g.below(U), b = g.below(U), w = fresh_val(), x = fresh_val();
            c.htag = ++tag_counter;
            c.m.reset();
            std::initializer_list<VT> il = { VT(mk(id), mv(v)), VT(mk(a), mv(w)), VT(mk(b), mv(x)) };
            uint64_t cap = g.skewed(64);
            if (!short_form(c, cap, il)) c.m.reset(new M(il, cap, make_hash(c.htag), make_eq(c.htag), make_alloc(c.alloc_id)));
            c.r.clear(); c.r.insert({ id, v }); c.r.insert({ a, w }); c.r.insert({ b, x }); sweep(c); return; } break;
        case ASG_ILIST: if constexpr (Cfg::assign_ilist && Cfg::copyable) {
            uint64_t a = g.below(U), b = g.below(U), w = fresh_val(), x = fresh_val();
            m = { VT(mk(id), mv(v)), VT(mk(a), mv(w)), VT(mk(b), mv(x)) };
            c.r.clear(); c.r.insert({ id, v }); c.r.insert({ a, w }); c.r.insert({ b, x });
            c.htag = tag_of(m); after_ilist_assign(c); sweep(c); } break;
        case WALK: walk(c, int(g.below(5))); break;
        case WALK_FROM: { auto it = m.find(mk(id)); if (present) walk_from(c, it); break; }
        case SET_THROUGH_ITER: if constexpr (set_val) {
            if (g.chance(1, 2)) { if (present) { auto it = m.find(mk(id)); it->second = mv(v); c.r[id] = v; } }
            else { for (auto it = m.begin(); it != m.end(); ++it) if (g.chance(1, 2)) { uint64_t w = fresh_val(); c.r[kid(it->first)] = w; (*it).second = mv(w); } }
            walk(c, int(g.below(5))); } break;
        case ERASE_IT: case ERASE_CIT: if constexpr (full) {
            if (c.r.empty()) break;
            It it = m.begin();
            bool by_find = present && g.chance(2, 3);
            if (by_find) it = m.find(mk(id)); else for (uint64_t n = g.below(std::min<uint64_t>(c.r.size(), 20)); n--;) ++it;
            // what the traversal has visited so far / will still visit
            std::set<uint64_t> after; bool deep = c.r.size() < 200 || g.chance(1, 10);
            if (deep) { It j = it; for (++j; j != m.end(); ++j) after.insert(kid(j->first)); }
            uint64_t k = kid(it->first);
            It nx = op == ERASE_IT ? m.erase(it) : m.erase(CIt(it));
            c.r.erase(k);
            if (deep) check_rest(c, nx, after, "erase(iterator)"); else if (nx != m.end()) CHECK(c.r.count(kid(nx->first)), "erase-iterator", "erase(iterator) returned an iterator to key %llu, which is not in the map", (unsigned long long)kid(nx->first));
        } break;
        case ERASE_RANGE: case ERASE_CRANGE: if constexpr (full) {
            It a = m.begin(); uint64_t n = c.r.size(), skip = g.below(n + 1), len = g.chance(1, 8) ? n - skip : std::min<uint64_t>(n - skip, g.skewed(30));
            for (uint64_t i = 0; i < skip; i++) ++a;
            It b = a; std::vector<uint64_t> dead;
            for (uint64_t i = 0; i < len; i++) { dead.push_back(kid(b->first)); ++b; }
            std::set<uint64_t> after; for (It j = b; j != m.end(); ++j) after.insert(kid(j->first));
            It nx = op == ERASE_RANGE ? m.erase(a, b) : m.erase(CIt(a), CIt(b));
            for (uint64_t k : dead) c.r.erase(k);
            check_rest(c, nx, after, "erase(first,last)");
            sweep(c);
        } break;
        case ERASE_IF: if constexpr (full) {
            uint64_t mod = g.range(1, 5), rem = g.below(mod); size_t want = 0;
            for (auto & kv : c.r) if (kv.second % mod == rem) want++;
            size_t calls = 0;
            size_t n = size_t(std::erase_if(m, [&](const auto & kv) { calls++; return vid(kv.second) % mod == rem; }));
            CHECK(n == want, "erase_if-count", "erase_if returned %zu, %zu elements satisfy the predicate", n, want);
            for (auto i = c.r.begin(); i != c.r.end();) if (i->second % mod == rem) i = c.r.erase(i); else ++i;
            sweep(c);
        } break;
        case ERASE_WHILE_WALKING: if constexpr (full) {
            // the usual loop: it = erase(it) or ++it, every element must be met exactly once
            uint64_t mod = g.range(1, 4); std::set<uint64_t> met; auto before = c.r;
            for (It it = m.begin(); it != m.end();) {
                uint64_t k = kid(it->first);
                CHECK(met.insert(k).second, "erase-walk-repeat", "key %llu is met twice while erasing along the walk", (unsigned long long)k);
                CHECK(before.count(k), "walk-phantom", "key %llu was not in the map", (unsigned long long)k);
                if (k % mod == 0) { it = m.erase(it); c.r.erase(k); } else ++it;
            }
            CHECK(met.size() == before.size(), "erase-walk-skip", "the walk met %zu of %zu elements while erasing", met.size(), before.size());
            sweep(c);
        } break;
        case ERASE_KEYS: if constexpr (full && Cfg::copyable) {
            std::vector<K> ks; std::set<uint64_t> ids; size_t n = g.skewed(12);
            for (size_t i = 0; i < n; i++) { uint64_t k = g.below(U); ks.push_back(mk(k)); ids.insert(k); }
            size_t want = 0; for (uint64_t k : ids) want += c.r.count(k);
            size_t got = size_t(m.erase(ks.begin(), ks.end()));
            CHECK(got == want, "erase-keys-count", "erase of a range of keys returned %zu instead of %zu", got, want);
            for (uint64_t k : ids) c.r.erase(k);
        } break;
        case RESERVE: { uint64_t n = g.chance(1, 5) ? 0 : g.skewed(300); if (!exact && Cfg::family == ROBIN) n = std::max<uint64_t>(n, m.size()); if constexpr (Cfg::family >= ROBIN) { if (g.chance(1, 4)) m.resize(n); else m.reserve(n); } else m.reserve(n); sweep(c); break; }
        case RESERVE_EXACT:
            if constexpr (Cfg::family <= G16) reserve_promise(c);
            else {   // the exact forms, which ignore the load factor
                uint64_t n = g.chance(1, 5) ? 0 : g.skewed(300);
                if (!exact) m.reserve(std::max<uint64_t>(n, m.size())); else switch (g.below(3)) { case 0: m.reserve(n, true); break; case 1: m.rehash(n, true); break; default: m.shrink_to_fit(true); }
                sweep(c);
            }
            break;
        case REHASH: { uint64_t n = g.chance(1, 5) ? 0 : g.skewed(300); if (!exact && Cfg::family == ROBIN) n = std::max<uint64_t>(n, m.size()); m.rehash(n); sweep(c); break; }
        case SHRINK: { if (exact && g.chance(1, 3)) m.shrink_to_fit(true); else m.shrink_to_fit(); sweep(c); break; }
        case CLEAR_DESTROY: m.clear(true); c.r.clear(); sweep(c); break;
        case MLF: if constexpr (!full) { float f = float(g.range(0, 100)) / 100.0f; m.max_load_factor(f); float got = m.max_load_factor(); CHECK(got > 0 && got <= 1.0f && (f < 0.5f || f > 0.75f || (got > f - 0.01f && got < f + 0.01f)), "max-load-factor", "max_load_factor(%g) made it %g", double(f), double(got)); sweep(c); } else { float was = m.max_load_factor(), f = float(g.range(0, 100)) / 100.0f; m.max_load_factor(f); float got = m.max_load_factor(); CHECK(got > 0 && got <= 1.0f, "max-load-factor", "max_load_factor() is %g", double(got));
            if (plan.load) if (Cfg::family == ROBIN ? f >= 0.3f && f <= 0.6f : f >= 0.5f && f <= 0.875f) CHECK(got > f - 0.01f && got < f + 0.01f, "max-load-factor", "max_load_factor(%g) made it %g", double(f), double(got)); sweep(c);
            CHECK(m.capacity() <= std::max<size_t>(cap_before, 64 + 8 * m.size()), "mlf-capacity", "max_load_factor(%g) grew the capacity from %zu to %zu at size %zu", double(f), cap_before, m.capacity(), m.size());
            if (!(plan.load && g.chance(1, 2))) m.max_load_factor(was); } break;
        case COPY_CTOR: if constexpr (full && Cfg::copyable) {
            if (cells.size() < 2) { M t(cm); check_copy(t, c); break; }
            Cell & d = cells[(ci + 1) % cells.size()]; 
            d.m.reset(); d.m.reset(new M(cm)); d.r = c.r; d.htag = c.htag;
            if constexpr (own_alloc) d.alloc_id = A(c.alloc_id).select_on_container_copy_construction().id;
            after_copy(c, d); } break;
        case COPY_CTOR_ALLOC: if constexpr (full && Cfg::copyable) {
            if (cells.size() < 2) break;
            Cell & d = cells[(ci + 1) % cells.size()]; uint64_t aid = g.range(1, 3);
            d.m.reset(); d.m.reset(new M(cm, make_alloc(aid))); d.r = c.r; d.htag = c.htag; d.alloc_id = aid;
            after_copy(c, d); } break;
        case COPY_ASSIGN: if constexpr (full && Cfg::copyable) {
            if (cells.size() < 2) break;
            Cell & d = cells[(ci + 1) % cells.size()];
            *d.m = cm; d.r = c.r; d.htag = c.htag;
            if constexpr (own_alloc) if (A::propagate_on_container_copy_assignment::value) d.alloc_id = c.alloc_id;
            after_copy(c, d); } break;
        case SELF_ASSIGN: if constexpr (full && Cfg::copyable) { M & self = m; m = static_cast<const M &>(self); sweep(c); } break;
        case MOVE_CTOR: if constexpr (full) {
            if (cells.size() < 2) break;
            Cell & d = cells[(ci + 1) % cells.size()]; Held was = held(m);
            d.m.reset(); d.m.reset(new M(std::move(m))); same(was, *d.m, "move construction"); d.r = std::move(c.r); d.htag = c.htag; d.alloc_id = c.alloc_id;
            after_move(c, d); } break;
        case MOVE_CTOR_ALLOC: if constexpr (full && Cfg::copyable) {
            if (cells.size() < 2) break;
            Cell & d = cells[(ci + 1) % cells.size()]; uint64_t aid = g.range(1, 3);
            d.m.reset(); d.m.reset(new M(std::move(m), make_alloc(aid))); d.r = std::move(c.r); d.htag = c.htag; d.alloc_id = aid;
            after_move(c, d); } break;
        case MOVE_ASSIGN: if constexpr (full && Cfg::copyable) {
            if (cells.size() < 2) break;
            Cell & d = cells[(ci + 1) % cells.size()];
            bool steals = true; Held was = held(m);
            if constexpr (own_alloc) steals = A::propagate_on_container_move_assignment::value || A(c.alloc_id) == A(d.alloc_id);
            *d.m = std::move(m); if (steals) same(was, *d.m, "move assignment"); d.r = std::move(c.r); d.htag = c.htag;
            if constexpr (own_alloc) if (A::propagate_on_container_move_assignment::value) d.alloc_id = c.alloc_id;
            after_move(c, d); } break;
        case SELF_SWAP: if constexpr (full) { m.swap(m); sweep(c); } break;
        case SWAP_MEMBER: case SWAP_FREE: case SWAP_STD: if constexpr (full) {
            if (cells.size() < 2) break;
            Cell & d = cells[(ci + 1) % cells.size()];
            bool ok = true;
            if constexpr (own_alloc) ok = A::propagate_on_container_swap::value || A(c.alloc_id) == A(d.alloc_id);
            if (!ok) break;
            Held was = held(m), was2 = held(*d.m);
            if (op == SWAP_MEMBER) m.swap(*d.m); else if (op == SWAP_FREE) { using std::swap; swap(m, *d.m); } else std::swap(m, *d.m);
            same(was, *d.m, "swap"); same(was2, m, "swap");
            std::swap(c.r, d.r); std::swap(c.htag, d.htag);
            if constexpr (own_alloc) if (A::propagate_on_container_swap::value) std::swap(c.alloc_id, d.alloc_id);
            sweep(c); sweep(d); } break;
        case RECREATE: { static const uint64_t caps[] = { 0, 0, 1, 3, 7, 15, 16, 64 }; c.m.reset(); create(c, g.pick(caps)); sweep(c); break; }
        case OP_COUNT: break;
        }
        M & now = *c.m;
        check_size(c);
        if (now.capacity() != cap_before) rehashes++;
        // the touched key again, through another door
        auto f2 = c.r.find(id);
        CHECK(now.contains(mk(id)) == (f2 != c.r.end()), f2 != c.r.end() ? "lost-key" : "phantom-key", "after %s: contains(%llu) is %d", op_name(op), (unsigned long long)id, int(f2 == c.r.end()));
        (void)size_before; (void)stepno;
        if (plan.obj_counts) check_objects();
        maxsize = std::max<uint64_t>(maxsize, c.r.size());
        states.insert(now.capacity() * 1000003 + c.r.size());
    }
    void arg_ok(const K & k, const V & w, uint64_t id, uint64_t v) {
        CHECK(kid_safe(k) && kid(k) == id, "argument-changed", "an lvalue key argument was changed or moved from");
        CHECK(vid_safe(w) && vid(w) == v, "argument-changed", "an lvalue mapped argument was changed or moved from");
    }
    template <class T> static bool safe(const T & t) { if constexpr (RegOf<T>::has) return !t.moved_from(); else { (void)t; return true; } }
    static bool kid_safe(const K & k) { return safe(k); }
    static bool vid_safe(const V & v) { return safe(v); }
    void inputs_ok(const std::vector<P> & in, const std::vector<std::pair<uint64_t, uint64_t>> & d) {
        for (size_t i = 0; i < in.size(); i++) arg_ok(in[i].first, in[i].second, d[i].first, d[i].second);
    }
    void after_ilist_assign(Cell & c) {
        (void)c;
        if constexpr (own_alloc) c.alloc_id = c.m->get_allocator().id;
    }
    void check_rest(Cell & c, It nx, std::set<uint64_t> & after, const char * what) {
        size_t n = 0;
        for (It j = nx; j != c.m->end(); ++j) {
            uint64_t k = kid(j->first);
            CHECK(after.count(k), "erase-iterator", "continuing from the iterator %s returned visits key %llu, which had been visited or erased", what, (unsigned long long)k);
            CHECK(++n <= after.size(), "erase-iterator", "continuing from the iterator %s returned visits too much", what);
        }
        CHECK(n == after.size(), "erase-iterator", "continuing from the iterator %s returned visits %zu of the %zu remaining elements", what, n, after.size());
    }
    void check_copy(M & t, Cell & c) {
        CHECK(t.size() == c.r.size(), "copy-size", "the copy has size %zu, the source %zu", t.size(), c.r.size());
        size_t n = 0;
        for (auto & kv : t) { auto f = c.r.find(kid(kv.first)); CHECK(f != c.r.end(), "copy-content", "the copy has an extra key"); check_val("copy-content", kv.second, f->second, f->first); n++; }
        CHECK(n == c.r.size(), "copy-content", "walking the copy visits %zu of %zu", n, c.r.size());
    }
    void after_copy(Cell & c, Cell & d) {
        sweep(c); sweep(d);
        check_policy(c, "copying from it"); check_policy(d, "copying into it");
        if (plan.alloc_checks) { check_storage(c); check_storage(d); }
        // independence: change the copy, the source must not see it, and the other way round
        uint64_t id = g.below(U), v = fresh_val();
        Cell & x = g.chance(1, 2) ? c : d; Cell & y = &x == &c ? d : c;
        if constexpr (set_val) {
            if (g.chance(1, 2)) { (*x.m)[mk(id)] = mv(v); x.r[id] = v; }
            else { x.m->erase(mk(id)); x.r.erase(id); }
        }
        sweep(y); sweep(x);
        for (int i = 0; i < 3; i++) { uint64_t k = g.below(U), w = fresh_val(); bool was = d.r.count(k) != 0; auto res = d.m->try_emplace(mk(k), mv(w)); CHECK(res.second == !was, "insert-result", "try_emplace into a copy"); if (!was) d.r[k] = w; }
        sweep(d);
    }
    // what a map holds and where: a move between maps that may share storage takes the elements along as they are
    struct Held { const void * at = nullptr; uint64_t copies = 0; float mlf = 0; };
    template <class T> static uint64_t copies_of() { if constexpr (RegOf<T>::has) return RegOf<T>::reg().copies; else return 0; }
    Held held(M & m) { Held h; if (!plan.steal) return h; h.mlf = m.max_load_factor(); if (m.size()) h.at = std::addressof(*m.begin()); h.copies = copies_of<K>() + copies_of<V>(); return h; }
    void same(const Held & was, M & m, const char * what) {
        if (!plan.steal) return;
        Held now = held(m);
        CHECK(now.copies == was.copies, "elements-copied", "%s copied %llu keys or values", what, (unsigned long long)(now.copies - was.copies));
        CHECK(now.at == was.at, "elements-relocated", "%s moved the first element from %p to %p", what, was.at, now.at);
        CHECK(now.mlf == was.mlf, "max-load-factor", "%s turned the maximum load factor %g into %g", what, double(was.mlf), double(now.mlf));
        stat("transfers");
    }
    void after_move(Cell & c, Cell & d) {
        sweep(d);
        check_policy(d, "moving into it");
        if (plan.alloc_checks) check_storage(d);
        // the moved-from map is a valid map with some content
        M & m = *c.m;
        size_t n = m.size(), k = 0;
        CHECK(m.empty() == (n == 0), "moved-from", "empty() and size() disagree on a moved-from map");
        std::set<uint64_t> ids;
        for (auto it = m.begin(); it != m.end(); ++it) { CHECK(++k <= n, "moved-from", "a moved-from map walks further than its size"); ids.insert(kid(it->first)); }
        CHECK(k == n && ids.size() == n, "moved-from", "a moved-from map of size %zu visits %zu elements", n, k);
        for (int i = 0; i < 4; i++) { uint64_t id = g.below(U); CHECK(m.contains(mk(id)) == (ids.count(id) != 0), "moved-from", "lookup in a moved-from map"); }
        c.r.clear();
        c.htag = tag_of(m);
        if constexpr (own_alloc) c.alloc_id = m.get_allocator().id;
        stat("moves_checked");
        switch (g.below(6)) {
        case 0: m.clear(); sweep(c); break;
        case 1: { m.clear(); for (int i = 0; i < 20; i++) { uint64_t id = g.below(U), v = fresh_val(); auto res = m.try_emplace(mk(id), mv(v)); CHECK(res.second == !c.r.count(id), "moved-from", "insertion into a moved-from map"); c.r.insert({ id, v }); } sweep(c); break; }
        case 2: c.m.reset(); create(c, 0); break;
        case 3: { for (auto it = m.begin(); it != m.end(); ++it) c.r[kid(it->first)] = vid(it->second); sweep(c); break; }
        case 4: { m.clear(); m.reserve(g.below(60)); for (int i = 0; i < 20; i++) { uint64_t id = g.below(U), v = fresh_val(); m.emplace(mk(id), mv(v)); c.r.insert({ id, v }); } sweep(c); break; }
        case 5: if constexpr (Cfg::copyable) { m = static_cast<const M &>(*d.m); c.r = d.r; c.htag = d.htag;
                  if constexpr (own_alloc) if (A::propagate_on_container_copy_assignment::value) c.alloc_id = d.alloc_id;
                  sweep(c); sweep(d); } else { m.clear(); sweep(c); } break;
        }
    }
    // reserve(n) on a fresh/cleared table: inserting up to n elements neither grows nor moves anything
    void reserve_promise(Cell & c) {
        M & m = *c.m;
        if (g.chance(1, 2)) { m.clear(g.chance(1, 2)); c.r.clear(); } 
        else { c.m.reset(); create(c, g.below(3) ? 0 : g.skewed(64)); for (int i = int(g.below(30)); i--;) { uint64_t id = g.below(U), v = fresh_val(); c.m->emplace(mk(id), mv(v)); c.r.insert({ id, v }); } }
        M & t = *c.m;
        uint64_t n = c.r.size() + g.skewed(U);
        float mlf_was = t.max_load_factor();
        bool set_mlf = g.chance(1, 3);
        if (set_mlf) for (int i = int(g.range(1, 3)); i--;) t.max_load_factor(float(g.range(10, 100)) / 100.0f);
        t.reserve(n);
        size_t cap = t.capacity();
        std::map<uint64_t, const void *> where;
        for (auto & kv : t) where[kid(kv.first)] = std::addressof(kv);
        for (uint64_t id = 0; t.size() < n && id < id_space(); id++) {
            uint64_t v = fresh_val(); bool was = c.r.count(id) != 0;
            auto res = t.emplace(mk(id), mv(v)); if (!was) c.r[id] = v;
            CHECK(res.second == !was, "insert-result", "emplace after reserve");
            CHECK(t.capacity() == cap, "reserve-promise", "capacity() changed from %zu to %zu at size %zu after reserve(%llu)", cap, t.capacity(), t.size(), (unsigned long long)n);
            if (!was) where[id] = std::addressof(*res.first);
        }
        for (auto & w : where) CHECK(std::addressof(*t.find(mk(w.first))) == w.second, "reserve-promise", "an element moved although reserve(%llu) had been called", (unsigned long long)n);
        stat("reserve_promises");
        sweep(c);
        if (set_mlf) { t.max_load_factor(mlf_was); sweep(c); }
    }

    uint64_t ops[OP_COUNT] = {}, hits[OP_COUNT] = {};
    uint64_t rehashes = 0, maxsize = 0;
    std::unordered_set<uint64_t> states;

    void run_case(uint64_t seed) {
        G().on_fail = [this] { dump(); };
        hot.clear();
        setup(seed);
        uint64_t r0 = rehashes;
        for (uint64_t s = 0; s < steps; s++) {
            one(s);
            if (plan.sweep_every && s % plan.sweep_every == 0) { Cell & c = cells[g.below(cells.size())]; if (c.r.size() > 100 && !g.chance(64, c.r.size())) continue; sweep(c); if (plan.alloc_checks) check_storage(c); }
        }
        for (auto & c : cells) { sweep(c); if (plan.alloc_checks) check_storage(c); }
        bool interesting = rehashes > r0 && maxsize > 0;
        cells.clear();
        if (plan.obj_counts) check_objects();
        if constexpr (own_alloc) {
            CHECK(BL().live.empty(), "leaked-block", "%zu blocks (%llu bytes) are not returned after all maps are destroyed", BL().live.size(), (unsigned long long)BL().bytes);
        }
        if (interesting) {
            uint64_t d = hash2(U, hm.andm ^ hm.orm ^ hm.rot);
            for (auto & t : trace) d = hash2(d, t.op * 1000003u + t.map * 7919u + t.id);
            vf::nontrivial(d);
        }
        stat("events", steps);
    }
    void report() {
        for (int o = 0; o < OP_COUNT; o++) if (ops[o]) { stat((std::string("op.") + op_name(o)).c_str(), ops[o]); if (hits[o]) stat((std::string("hit.") + op_name(o)).c_str(), hits[o]); }
        stat("rehashes", rehashes); stat_max("max_size", maxsize); stat("distinct_capacity_size_states", states.size());
        stat("hash_calls", CN().hashes); stat("eq_calls", CN().eqs);
        char b[400]; std::string t;
        for (size_t i = 0; i < trace.size() && i < 12; i++) { snprintf(b, sizeof b, "%s(%llu)%s ", op_name(trace[i].op), (unsigned long long)trace[i].id, cells.size() > 1 ? "" : ""); t += b; }
        snprintf(b, sizeof b, "%s: universe %llu, %llu steps, hash and=%llx pre=%u rot=%u, begins: ", Cfg::name(), (unsigned long long)U, (unsigned long long)steps, (unsigned long long)hm.andm, hm.pre, hm.rot);
        G().samples.push_back(b + t);
    }
};

} // namespace vf
