// C17: key identity is decided by the hash and equality objects of each map, which carry state that differs between maps.
#include "maps.h"
#include "elems.h"
#include <string_view>
using namespace vf;
#ifndef CFG
#define CFG 1
#endif
// The state of the function objects. Class of a key = what the objects say; everything else about the key is its representation.
struct St { uint64_t mod = 3, andm = ~0ull, salt = 99; unsigned pre = 1; uint64_t tag = 4242; };
#if CFG == 1
// no operator==, no std::hash: only the given objects can compare it
struct K { uint64_t raw; uint64_t rep; };
static K mk(uint64_t cls, uint64_t rep, const St & s) { return K{ cls + rep * s.mod, rep }; }
static uint64_t cls_of(const K & k, const St & s) { return k.raw % s.mod; }
static bool same_rep(const K & a, const K & b) { return a.raw == b.raw && a.rep == b.rep; }
#define CNAME "residues"
#else
// strings: the state says which character set is folded and how many characters count
typedef std::string K;
static K mk(uint64_t cls, uint64_t rep, const St & s) {
    std::string b = "k" + std::to_string(cls % s.mod) + "_";
    for (size_t i = 0; i < b.size(); i++) if (((rep >> i) & 1) && b[i] == 'k') b[i] = 'K';
    if (s.salt & 1) b += std::string(rep % 40, 'x');          // what follows '_' does not count
    return b;
}
static uint64_t cls_of(const char * p, size_t n, const St & s) {
    uint64_t v = 0; for (size_t i = 1; i < n && p[i] != '_'; i++) v = v * 10 + uint64_t(p[i] - '0');
    return v % s.mod;
}
static uint64_t cls_of(const K & k, const St & s) { return cls_of(k.data(), k.size(), s); }
static bool same_rep(const K & a, const K & b) { return a == b; }
#define CNAME "folded strings"
#endif
struct H {
    St s;
    H() {} explicit H(const St & t) : s(t) {}
    size_t operator () (const K & k) const { uint64_t c = cls_of(k, s); if (s.pre) c = Rng::mix(c + s.salt); return c & s.andm; }
};
struct E {
    St s; mutable uint64_t calls = 0;
    E() {} explicit E(const St & t) : s(t) {}
    bool operator () (const K & a, const K & b) const { CN().eqs++; return cls_of(a, s) == cls_of(b, s); }
};
#if FAM == 3
typedef MAPT<K, uint64_t, H, E, LAYOUT(K, uint64_t)> M;
#else
typedef MAPT<K, uint64_t, H, E> M;
#endif
typedef std::map<uint64_t, std::pair<K, uint64_t>> Model;

struct Run {
    Rng g{1}; std::string log; uint64_t digest = 0, merged = 0;
    struct S { std::unique_ptr<M> m; Model r; St s; };
    S t[3];

    void sweep(S & x, const char * when) {
        H h = x.m->hash_function(); E e = x.m->key_eq();
        CHECK(h.s.mod == x.s.mod && h.s.tag == x.s.tag && h.s.andm == x.s.andm && h.s.salt == x.s.salt && h.s.pre == x.s.pre, "hash_function-lost", "%s: hash_function() has tag %llu, the map was given %llu", when, (unsigned long long)h.s.tag, (unsigned long long)x.s.tag);
        CHECK(e.s.mod == x.s.mod && e.s.tag == x.s.tag, "key_eq-lost", "%s: key_eq() has tag %llu, the map was given %llu", when, (unsigned long long)e.s.tag, (unsigned long long)x.s.tag);
        CHECK(x.m->size() == x.r.size(), "wrong-size", "%s: size %zu, %zu classes", when, x.m->size(), x.r.size());
        std::set<uint64_t> seen;
        for (auto & kv : *x.m) {
            uint64_t c = cls_of(kv.first, x.s);
            CHECK(seen.insert(c).second, "one-class-two-elements", "%s: class %llu", when, (unsigned long long)c);
            auto f = x.r.find(c);
            CHECK(f != x.r.end(), "phantom-key", "%s: class %llu", when, (unsigned long long)c);
            CHECK(kv.second == f->second.second, "wrong-value", "%s: class %llu", when, (unsigned long long)c);
            CHECK(same_rep(kv.first, f->second.first), "representation-changed", "%s: class %llu: the stored key is not the one that was inserted first", when, (unsigned long long)c);
        }
        CHECK(seen.size() == x.r.size(), "lost-key", "%s", when);
    }
    void lookup(S & x, const K & k, const char * when) {
        uint64_t c = cls_of(k, x.s); auto f = x.r.find(c); bool in = f != x.r.end();
        const M & cm = *x.m;
        auto i = x.m->find(k); auto ci = cm.find(k);
        CHECK((i != x.m->end()) == in && (ci != cm.end()) == in, "find-wrong", "%s: class %llu, expected %d", when, (unsigned long long)c, in);
        CHECK(cm.contains(k) == in && cm.count(k) == size_t(in), "contains-wrong", "%s: class %llu, expected %d", when, (unsigned long long)c, in);
        if (in) { CHECK(i->second == f->second.second && ci->second == f->second.second && cm.at(k) == f->second.second && x.m->at(k) == f->second.second, "lookup-wrong-element", "%s: class %llu", when, (unsigned long long)c); CHECK(same_rep(i->first, f->second.first), "lookup-wrong-element", "%s: class %llu", when, (unsigned long long)c); }
        else { bool thrown = false; try { (void)cm.at(k); } catch (std::out_of_range &) { thrown = true; } CHECK(thrown, "at-wrong", "%s", when); }
        vf::stat("lookups");
#if CFG == 2
        // convertible arguments
        const char * p = k.c_str();
        struct Conv { const std::string & s; operator std::string () const { return s; } } cv{ k };
        CHECK((x.m->find(K(p)) != x.m->end()) == in, "convertible-lookup-wrong", "%s: find(K(const char *))", when);
#if FAM != 3
        auto a = x.m->find(p); CHECK((a != x.m->end()) == in && (!in || a->second == f->second.second), "convertible-lookup-wrong", "%s: find(const char *)", when);
        auto b = cm.find(p); CHECK((b != cm.end()) == in && (!in || b->second == f->second.second), "convertible-lookup-wrong", "%s: find(const char *) const", when);
        std::string_view sv(k); auto d = x.m->find(sv); CHECK((d != x.m->end()) == in && (!in || d->second == f->second.second), "convertible-lookup-wrong", "%s: find(string_view)", when);
        auto e = x.m->find(cv); CHECK((e != x.m->end()) == in && (!in || e->second == f->second.second), "convertible-lookup-wrong", "%s: find(wrapper)", when);
#else
        auto a = x.m->find(p); CHECK((a != x.m->end()) == in && (!in || a->second == f->second.second), "convertible-lookup-wrong", "%s: find(const char *)", when);
#endif
        CHECK(x.m->count(p) == size_t(in) && x.m->contains(p) == in, "convertible-lookup-wrong", "%s: count/contains(const char *)", when);
        if (in) CHECK(x.m->at(p) == f->second.second, "convertible-lookup-wrong", "%s: at(const char *)", when);
        CHECK(x.m->contains(cv) == in, "convertible-lookup-wrong", "%s: contains(wrapper)", when);
        vf::stat("convertible_lookups");
#endif
    }
    void one(uint64_t v) {
        int which = int(g.below(3)); S & x = t[which];
        uint64_t c = g.below(x.s.mod), rep = g.below(50);
        K k = mk(c, rep, x.s); c = cls_of(k, x.s);
        auto f = x.r.find(c); bool in = f != x.r.end();
        unsigned op = unsigned(g.below(20));
        vf::step(); digest = hash2(digest, op * 3 + which + c * 64 + rep * 7919);
        char b[60]; snprintf(b, sizeof b, "%d.%u(%llu/%llu) ", which, op, (unsigned long long)c, (unsigned long long)rep); log += b; if (log.size() > 1200) log.erase(0, 600);
        bool fresh = false, known = true; uint64_t stored = v; char when[64]; snprintf(when, sizeof when, "operation %u of map %d", op, which);
        if (in && op < 10) { if (!same_rep(f->second.first, k)) merged++; }
        switch (op) {
        case 0: { auto r = x.m->insert(std::make_pair(k, v)); fresh = r.second; CHECK(r.first->second == (in ? f->second.second : v), "insert-returned-wrong-element", "%s", when); break; }
        case 1: { auto r = x.m->emplace(k, v); fresh = r.second; break; }
        case 2: { auto r = x.m->try_emplace(k, v); fresh = r.second; CHECK(r.first->second == (in ? f->second.second : v), "insert-returned-wrong-element", "%s", when); break; }
        case 3: { auto r = x.m->insert_or_assign(k, v); fresh = r.second; if (in) f->second.second = v; CHECK(r.first->second == v, "insert-returned-wrong-element", "%s", when); break; }
        case 4: { uint64_t & w = (*x.m)[k]; fresh = !in; CHECK(w == (in ? f->second.second : 0), "index-wrong", "%s", when); w = v; if (in) f->second.second = v; break; }
        case 5: { K kk = k; uint64_t & w = (*x.m)[std::move(kk)]; fresh = !in; CHECK(w == (in ? f->second.second : 0), "index-wrong", "%s", when); stored = 0; break; }
        case 6: { K kk = k; auto r = x.m->try_emplace(std::move(kk), v); fresh = r.second; break; }
        case 7: { std::pair<K, uint64_t> p(k, v); size_t n = x.m->size(); x.m->insert(&p, &p + 1); fresh = x.m->size() != n; break; }
        case 8: { auto r = x.m->emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v)); fresh = r.second; break; }
        case 9: {
#if CFG == 2
            const char * p = k.c_str(); uint64_t kept = in ? f->second.second : v;
            #define VF_RESULT(R, W) do { fresh = (R).second; CHECK((R).first->second == (W) && cls_of((R).first->first, x.s) == c, "insert-returned-wrong-element", "%s, converted argument", when); } while (0)
            #define VF_HINTED(CALL, W) do { size_t n = x.m->size(); auto it = CALL; fresh = x.m->size() != n; CHECK(it->second == (W) && cls_of(it->first, x.s) == c, "insert-returned-wrong-element", "%s, converted argument and hint", when); } while (0)
            auto hint = g.chance(1, 2) ? x.m->cend() : x.m->cbegin();
            switch (g.below(12)) {
            case 0: { uint64_t & w = (*x.m)[p]; fresh = !in; CHECK(w == (in ? f->second.second : 0), "index-wrong", "%s", when); stored = 0; break; }
            case 1: { auto r = x.m->try_emplace(p, v); VF_RESULT(r, kept); break; }
            case 2: { auto r = x.m->insert_or_assign(p, v); if (in) f->second.second = v; VF_RESULT(r, v); break; }
            case 3: { auto r = x.m->emplace(p, v); VF_RESULT(r, kept); break; }
            case 4: { auto r = x.m->insert(std::make_pair(p, v)); VF_RESULT(r, kept); break; }
            case 5: { auto r = x.m->emplace(std::make_pair(p, v)); VF_RESULT(r, kept); break; }
            case 6: { auto r = x.m->emplace(std::piecewise_construct, std::forward_as_tuple(p), std::forward_as_tuple(v)); VF_RESULT(r, kept); break; }
            case 7: VF_HINTED(x.m->try_emplace(hint, p, v), kept); break;
            case 8: if (in) f->second.second = v; VF_HINTED(x.m->insert_or_assign(hint, p, v), v); break;
            case 9: VF_HINTED(x.m->emplace_hint(hint, p, v), kept); break;
            case 10: { std::pair<const char *, uint64_t> q[1] = { { p, v } }; size_t n = x.m->size(); x.m->insert(q, q + 1); fresh = x.m->size() != n; break; }
            case 11: { size_t n = x.m->erase(p); CHECK(n == size_t(in), "erase-wrong", "%s: converted argument, class %llu", when, (unsigned long long)c); if (in) x.r.erase(f); known = false; break; }
            }
            vf::stat("convertible_insertions"); break;
#else
            auto r = x.m->insert(M::value_type(k, v)); fresh = r.second; break;
#endif
        }
        case 10: case 11: case 12: { size_t n = x.m->erase(k); CHECK(n == size_t(in), "erase-wrong", "%s: class %llu", when, (unsigned long long)c); if (in) x.r.erase(f); known = false; break; }
        case 13: lookup(x, k, when); known = false; break;
        case 14: { S & y = t[(which + 1) % 3]; *x.m = static_cast<const M &>(*y.m); x.r = y.r; x.s = y.s; sweep(x, "copy assignment"); known = false; break; }
        case 15: { S & y = t[(which + 1) % 3]; y.m.reset(new M(static_cast<const M &>(*x.m))); y.r = x.r; y.s = x.s; sweep(y, "copy construction"); known = false; break; }
        case 16: { std::unique_ptr<M> n(new M(std::move(*x.m))); x.m = std::move(n); sweep(x, "move construction"); known = false; break; }
        case 17: { S & y = t[(which + 1) % 3]; *x.m = std::move(*y.m); x.r.swap(y.r); x.s = y.s; sweep(x, "move assignment"); make(y); known = false; break; }
        case 18: { S & y = t[(which + 1) % 3]; if (g.chance(1, 2)) x.m->swap(*y.m); else { using std::swap; swap(*x.m, *y.m); } x.r.swap(y.r); std::swap(x.s, y.s); sweep(x, "swap"); sweep(y, "swap"); known = false; break; }
        case 19: { if (g.chance(1, 4)) { x.m->clear(); x.r.clear(); } else if (g.chance(1, 2)) x.m->rehash(g.below(300)); else x.m->shrink_to_fit(); sweep(x, "capacity operation"); known = false; break; }
        }
        if (known) {
            CHECK(fresh == !in, "insert-wrong", "%s: class %llu, present %d, reported new %d", when, (unsigned long long)c, in, fresh);
            if (!in) x.r.emplace(c, std::make_pair(k, stored));
            lookup(x, mk(c, g.below(50), x.s), when);
        }
    }
    void make(S & x) {
        static const uint64_t mods[] = { 2, 5, 13, 40, 100, 300 };
        x.s = St(); x.s.mod = g.pick(mods); x.s.tag = g.next(); x.s.salt = g.next();
        switch (g.below(4)) {
        case 0: x.s.pre = 0; break;
        case 1: if (FAM <= 2) { x.s.andm = 0; } break;                       // every key has the same hash
        case 2: if (FAM <= 2) { x.s.andm = 0xffull << (8 * g.below(8)); } break;
        case 3: break; }
        static const uint64_t caps[] = { 0, 0, 4, 32 };
        x.r.clear(); x.m.reset(new M(g.pick(caps), H(x.s), E(x.s)));
        if (g.chance(1, 3)) {
            std::vector<std::pair<K, uint64_t>> in; for (uint64_t i = 0; i < 40; i++) in.push_back({ mk(g.below(x.s.mod), g.below(50), x.s), 7000 + i });
            x.m.reset(new M(in.begin(), in.end(), g.pick(caps), H(x.s), E(x.s)));
            for (auto & p : in) x.r.emplace(cls_of(p.first, x.s), p);
            sweep(x, "range construction");
        }
    }
    void run_case(uint64_t seed) {
        g = Rng(seed); log.clear(); digest = 0; merged = 0;
        G().on_fail = [this] { printf("OPS %s\n", log.c_str()); for (auto & x : t) printf("mod %llu and %llx pre %u\n", (unsigned long long)x.s.mod, (unsigned long long)x.s.andm, x.s.pre); };
        for (auto & x : t) make(x);
        uint64_t steps = g.range(50, 500);
        for (uint64_t s = 0; s < steps; s++) one(s + 1);
        for (auto & x : t) { sweep(x, "the end"); for (uint64_t c = 0; c < x.s.mod && c < 60; c++) lookup(x, mk(c, g.below(50), x.s), "the end"); }
        vf::stat("events", steps); vf::stat("equal_but_different", merged);
        if (merged >= 5) vf::nontrivial(digest);
        for (auto & x : t) x.m.reset();
    }
};
int main(int argc, char ** argv) {
    init(argc, argv);
    Run d;
    return run_cases([&](uint64_t, uint64_t seed) { d.run_case(seed); }, [&] { G().samples.push_back(std::string(FNAME " " CNAME ": map.operation(class/representation) ") + d.log.substr(0, 300)); });
}
