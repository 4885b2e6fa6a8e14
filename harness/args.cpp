// C14: what every insertion form does to its arguments, for absent and present keys, with and without growth.
#include "maps.h"
#include "elems.h"
using namespace vf;
#ifndef CFG
#define CFG 1
#endif
#if CFG == 1
typedef Obj<0> K; typedef Obj<1> V;
#define COPYABLE 1
#elif CFG == 2
typedef Obj<0, 60> K; typedef Obj<1, 200> V;
#define COPYABLE 1
#else
typedef Obj<0> K; typedef MoveOnly<1> V;
#define COPYABLE 0
#endif
#if FAM == 3
typedef MAPT<K, V, MHash<K>, MEq<K>, LAYOUT(K, V)> M;
#else
typedef MAPT<K, V, MHash<K>, MEq<K>> M;
#endif
typedef M::value_type VT; typedef std::pair<K, V> P;
typedef Obj<0, (CFG == 2 ? 60 : 0)> KB; typedef Obj<1, (CFG == 2 ? 200 : 0)> VB;

struct Run {
    Rng g{1}; M * m; std::map<uint64_t, uint64_t> r; std::string log; uint64_t digest = 0;
    enum What { LV, RV, NONE, ANY };     // ANY: the call makes its own copies first
    // consumed key/value may never happen when the element exists
    struct Form { const char * name; What key, val; bool keep_key, keep_val; bool assigns; };
    std::map<std::string, std::array<uint64_t, 2>> seen;

    template <class F> void form(const Form & f, uint64_t id, uint64_t v, F call) {
        bool present = r.count(id) != 0;
        size_t cap = m->capacity();
        vf::step();
        digest = hash2(digest, id * 2 + present); for (const char * c = f.name; *c; c++) digest = digest * 131 + *c;
        log += std::string(f.name) + "(" + std::to_string(id) + (present ? "=" : "+") + ") "; if (log.size() > 1200) log.erase(0, 600);
        K k(id); V x(v);
        uint64_t kc = KB::reg().copies, vc = VB::reg().copies;
        uint64_t stored = call(k, x);      // the value that must be there now
        kc = KB::reg().copies - kc; vc = VB::reg().copies - vc;
        const char * st = present ? "present" : "absent"; const char * gr = m->capacity() != cap ? "growth" : "no growth";
        // lvalues never change
        if (f.key == LV) CHECK(!k.moved_from() && k.id() == id, "lvalue-key-modified", "%s, key %s, %s", f.name, st, gr);
        if (f.val == LV) CHECK(!x.moved_from() && x.id() == v, "lvalue-value-modified", "%s, key %s, %s", f.name, st, gr);
        if (!present) {
            // new element: rvalues are moved, not copied
            if (f.key == RV) { CHECK(kc == 0, "rvalue-key-copied", "%s, %llu copies, %s", f.name, (unsigned long long)kc, gr); CHECK(k.moved_from(), "rvalue-key-not-consumed", "%s, %s", f.name, gr); }
            if (f.val == RV) { CHECK(vc == 0, "rvalue-value-copied", "%s, %llu copies, %s", f.name, (unsigned long long)vc, gr); CHECK(x.moved_from(), "rvalue-value-not-consumed", "%s, %s", f.name, gr); }
            // lvalues are copied, other elements are not
            if (f.key == LV) CHECK(kc >= 1 && kc <= 2, "key-copies", "%s: %llu key copies, %s", f.name, (unsigned long long)kc, gr);
            if (f.val == LV) CHECK(vc == 1, "value-copies", "%s: %llu value copies, %s", f.name, (unsigned long long)vc, gr);
            if (f.val == NONE) CHECK(vc == 0, "value-copies", "%s: %llu value copies, %s", f.name, (unsigned long long)vc, gr);
        } else {
            if (f.keep_key) CHECK(!k.moved_from() && k.id() == id, "existing-key-consumed", "%s, %s", f.name, gr);
            if (f.keep_val) CHECK(!x.moved_from() && x.id() == v, "mapped-consumed-for-existing-key", "%s, %s", f.name, gr);
            if (f.assigns && f.val == RV) { CHECK(vc == 0, "rvalue-value-copied", "%s on an existing key", f.name); CHECK(x.moved_from(), "rvalue-value-not-consumed", "%s on an existing key", f.name); }
            if (f.assigns && f.val == LV) CHECK(vc <= 1, "value-copies", "%s: %llu value copies", f.name, (unsigned long long)vc);
        }
        auto it = m->find(K(id));
        CHECK(it != m->end() && it->first.id() == id && !it->first.moved_from() && !it->second.moved_from() && it->second.id() == stored, "stored-element-wrong", "%s, key %s, %s", f.name, st, gr);
        r[id] = stored;
        CHECK(m->size() == r.size(), "wrong-size", "%s", f.name);
        seen[f.name][present]++;
        vf::stat(present ? "calls_present" : "calls_absent"); if (m->capacity() != cap) vf::stat("calls_with_growth");
    }
    uint64_t cur(uint64_t id, uint64_t v) { auto i = r.find(id); return i == r.end() ? v : i->second; }   // what an insertion that does not assign leaves

    void one(uint64_t id, uint64_t v) {
        uint64_t keep = cur(id, v), keep0 = cur(id, 0);
        switch (g.below(COPYABLE ? 47 : 15)) {
        // moving forms
        case 0: form({ "emplace(K&&,V&&)", RV, RV, false, false, false }, id, v, [&](K & k, V & x) { m->emplace(std::move(k), std::move(x)); return keep; }); break;
        case 1: form({ "try_emplace(K&&,V&&)", RV, RV, true, true, false }, id, v, [&](K & k, V & x) { m->try_emplace(std::move(k), std::move(x)); return keep; }); break;
        case 2: form({ "insert_or_assign(K&&,V&&)", RV, RV, true, false, true }, id, v, [&](K & k, V & x) { m->insert_or_assign(std::move(k), std::move(x)); return v; }); break;
        case 3: form({ "operator[](K&&)", RV, NONE, true, true, false }, id, v, [&](K & k, V &) { (*m)[std::move(k)]; return keep0; }); break;
        case 4: form({ "insert(pair<K,V>&&)", RV, RV, false, false, false }, id, v, [&](K & k, V & x) {
                    P p(std::move(k), std::move(x)); m->insert(std::move(p)); if (!r.count(id)) CHECK(p.first.moved_from() && p.second.moved_from(), "rvalue-pair-not-consumed", "insert(pair&&)"); return keep; }); break;
        case 5: form({ "emplace_hint(K&&,V&&)", RV, RV, false, false, false }, id, v, [&](K & k, V & x) { m->emplace_hint(m->cbegin(), std::move(k), std::move(x)); return keep; }); break;
        case 7: form({ "try_emplace(K&&,id)", RV, NONE, true, true, false }, id, v, [&](K & k, V &) { m->try_emplace(std::move(k), v); return keep; }); break;
        case 8: form({ "try_emplace(K&&)", RV, NONE, true, true, false }, id, v, [&](K & k, V &) { m->try_emplace(std::move(k)); return keep0; }); break;
        case 9: form({ "insert_or_assign(hint,K&&,V&&)", RV, RV, true, false, true }, id, v, [&](K & k, V & x) { m->insert_or_assign(m->cbegin(), std::move(k), std::move(x)); return v; }); break;
        case 10: form({ "emplace(pair&&)", RV, RV, false, false, false }, id, v, [&](K & k, V & x) { P p(std::move(k), std::move(x)); m->emplace(std::move(p)); return keep; }); break;
        case 11: form({ "insert(move iterators)", RV, RV, false, false, false }, id, v, [&](K & k, V & x) { P p[1] = { P(std::move(k), std::move(x)) }; m->insert(std::make_move_iterator(p), std::make_move_iterator(p + 1)); return keep; }); break;
        // hinted forms
        case 12: form({ "try_emplace(hint,K&&,V&&)", RV, RV, true, true, false }, id, v, [&](K & k, V & x) { m->try_emplace(m->cend(), std::move(k), std::move(x)); return keep; }); break;
        case 13: form({ "insert(hint,pair<K,V>&&)", RV, RV, false, false, false }, id, v, [&](K & k, V & x) { P p(std::move(k), std::move(x)); m->insert(m->cend(), std::move(p)); return keep; }); break;
        case 14: form({ "emplace_hint(piecewise,K&&,V&&)", ANY, RV, false, false, false }, id, v, [&](K & k, V & x) { m->emplace_hint(m->cend(), std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(std::move(x))); return keep; }); break;
#if COPYABLE
        case 15: form({ "emplace(K&,V&)", LV, LV, true, true, false }, id, v, [&](K & k, V & x) { m->emplace(k, x); return keep; }); break;
        case 16: form({ "emplace(K&,V&&)", LV, RV, true, false, false }, id, v, [&](K & k, V & x) { m->emplace(k, std::move(x)); return keep; }); break;
        case 17: form({ "emplace(K&&,V&)", RV, LV, false, true, false }, id, v, [&](K & k, V & x) { m->emplace(std::move(k), x); return keep; }); break;
        case 18: form({ "emplace(const K&,const V&)", LV, LV, true, true, false }, id, v, [&](K & k, V & x) { const K & ck = k; const V & cx = x; m->emplace(ck, cx); return keep; }); break;
        case 19: form({ "try_emplace(K&,V&)", LV, LV, true, true, false }, id, v, [&](K & k, V & x) { m->try_emplace(k, x); return keep; }); break;
        case 20: form({ "try_emplace(const K&,V&&)", LV, RV, true, true, false }, id, v, [&](K & k, V & x) { const K & ck = k; m->try_emplace(ck, std::move(x)); return keep; }); break;
        case 21: form({ "try_emplace(K&&,V&)", RV, LV, true, true, false }, id, v, [&](K & k, V & x) { m->try_emplace(std::move(k), x); return keep; }); break;
        case 22: form({ "insert_or_assign(K&,V&)", LV, LV, true, true, true }, id, v, [&](K & k, V & x) { m->insert_or_assign(k, x); return v; }); break;
        case 23: form({ "insert_or_assign(const K&,V&&)", LV, RV, true, false, true }, id, v, [&](K & k, V & x) { const K & ck = k; m->insert_or_assign(ck, std::move(x)); return v; }); break;
        case 24: form({ "insert_or_assign(K&&,V&)", RV, LV, true, true, true }, id, v, [&](K & k, V & x) { m->insert_or_assign(std::move(k), x); return v; }); break;
        case 25: form({ "insert_or_assign(K&&,const V&)", RV, LV, true, true, true }, id, v, [&](K & k, V & x) { const V & cx = x; m->insert_or_assign(std::move(k), cx); return v; }); break;
        case 26: form({ "operator[](K&)", LV, NONE, true, true, false }, id, v, [&](K & k, V &) { (*m)[k]; return keep0; }); break;
        case 27: form({ "operator[](const K&)", LV, NONE, true, true, false }, id, v, [&](K & k, V &) { const K & ck = k; (*m)[ck]; return keep0; }); break;
        case 28: form({ "insert(pair&)", ANY, ANY, true, true, false }, id, v, [&](K & k, V & x) { P p(k, x); m->insert(p); CHECK(!p.first.moved_from() && !p.second.moved_from() && p.second.id() == v, "lvalue-pair-modified", "insert(pair&)"); return keep; }); break;
        case 29: form({ "insert(const pair&)", ANY, ANY, true, true, false }, id, v, [&](K & k, V & x) { const P p(k, x); m->insert(p); CHECK(!p.first.moved_from() && !p.second.moved_from(), "lvalue-pair-modified", "insert(const pair&)"); return keep; }); break;
        case 30: form({ "insert(value_type&)", ANY, ANY, true, true, false }, id, v, [&](K & k, V & x) { VT p(k, x); m->insert(p); CHECK(!p.first.moved_from() && !p.second.moved_from(), "lvalue-pair-modified", "insert(value_type&)"); return keep; }); break;
        case 31: form({ "insert(value_type&&)", NONE, RV, true, false, false }, id, v, [&](K & k, V & x) { VT p(k, std::move(x)); m->insert(std::move(p)); return keep; }); break;
        case 32: form({ "emplace(piecewise,K&,V&)", LV, LV, true, true, false }, id, v, [&](K & k, V & x) { m->emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(x)); return keep; }); break;
        case 33: form({ "emplace(piecewise,K&,V&&)", LV, RV, true, false, false }, id, v, [&](K & k, V & x) { m->emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::move(x))); return keep; }); break;
        case 34: form({ "emplace_hint(K&,V&)", LV, LV, true, true, false }, id, v, [&](K & k, V & x) { m->emplace_hint(m->cend(), k, x); return keep; }); break;
        case 35: form({ "insert(iterators)", ANY, ANY, true, true, false }, id, v, [&](K & k, V & x) { P p[1] = { P(k, x) }; m->insert(p, p + 1); CHECK(!p[0].first.moved_from() && !p[0].second.moved_from() && p[0].second.id() == v, "lvalue-range-modified", "insert(first,last)"); return keep; }); break;
        case 37: form({ "emplace(piecewise,K&&,V&&)", ANY, RV, false, false, false }, id, v, [&](K & k, V & x) { m->emplace(std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(std::move(x))); return keep; }); break;
        case 36: {   // lookups and erasure leave the key alone
            K k(id); uint64_t c = KB::reg().copies, mv = KB::reg().moves;
            m->find(k); m->count(k); m->contains(k); if (r.count(id)) m->at(k);
            CHECK(KB::reg().copies == c && KB::reg().moves == mv, "lookup-copies-key", "a lookup copied or moved the key");
            size_t n = m->erase(k); CHECK(n == r.erase(id), "erase-wrong", "erase(%llu)", (unsigned long long)id); CHECK(!k.moved_from() && k.id() == id, "lvalue-key-modified", "erase(K&)"); break; }
        case 38: form({ "try_emplace(hint,const K&,V&)", LV, LV, true, true, false }, id, v, [&](K & k, V & x) { const K & ck = k; m->try_emplace(m->cbegin(), ck, x); return keep; }); break;
        case 39: form({ "try_emplace(hint,const K&,V&&)", LV, RV, true, true, false }, id, v, [&](K & k, V & x) { const K & ck = k; m->try_emplace(m->cbegin(), ck, std::move(x)); return keep; }); break;
        case 40: form({ "try_emplace(hint,K&&,V&)", RV, LV, true, true, false }, id, v, [&](K & k, V & x) { m->try_emplace(m->cbegin(), std::move(k), x); return keep; }); break;
        case 41: form({ "insert_or_assign(hint,const K&,V&)", LV, LV, true, true, true }, id, v, [&](K & k, V & x) { const K & ck = k; m->insert_or_assign(m->cend(), ck, x); return v; }); break;
        case 42: form({ "insert_or_assign(hint,const K&,V&&)", LV, RV, true, false, true }, id, v, [&](K & k, V & x) { const K & ck = k; m->insert_or_assign(m->cbegin(), ck, std::move(x)); return v; }); break;
        case 43: form({ "insert_or_assign(hint,K&&,const V&)", RV, LV, true, true, true }, id, v, [&](K & k, V & x) { const V & cx = x; m->insert_or_assign(m->cend(), std::move(k), cx); return v; }); break;
        case 44: form({ "insert(hint,const pair&)", ANY, ANY, true, true, false }, id, v, [&](K & k, V & x) { const P p(k, x); m->insert(m->cbegin(), p); CHECK(!p.first.moved_from() && !p.second.moved_from() && p.second.id() == v, "lvalue-pair-modified", "insert(hint,const pair&)"); return keep; }); break;
        case 45: form({ "insert(hint,const value_type&)", ANY, ANY, true, true, false }, id, v, [&](K & k, V & x) { const VT p(k, x); m->insert(m->cend(), p); CHECK(!p.first.moved_from() && !p.second.moved_from() && p.second.id() == v, "lvalue-pair-modified", "insert(hint,const value_type&)"); return keep; }); break;
        case 46: form({ "emplace_hint(const K&,V&&)", LV, RV, true, false, false }, id, v, [&](K & k, V & x) { const K & ck = k; m->emplace_hint(m->cbegin(), ck, std::move(x)); return keep; }); break;
#endif
        }
    }
    void run_case(uint64_t seed) {
        g = Rng(seed); r.clear(); log.clear(); digest = 0;
        G().on_fail = [this] { printf("OPS %s\n", log.c_str()); };
        static const uint64_t us[] = { 2, 5, 13, 30, 60, 200 };
        uint64_t U = g.pick(us); HMode hm;
        switch (g.below(3)) { case 0: hm.pre = 0; break; case 1: break; case 2: if (FAM <= 2) hm.andm = 7; else hm.div = 2; break; }
        GHM() = hm;
        {
            static const uint64_t caps[] = { 0, 0, 8, 32 };
            M map(g.pick(caps), MHash<K>(hm), MEq<K>()); m = &map;
            uint64_t steps = g.range(20, 2 * U + 40), v = 1;
            for (uint64_t s = 0; s < steps; s++) {
                one(g.below(U), v++);
                if (g.chance(1, 6)) { uint64_t id = g.below(U); size_t n = m->erase(K(id)); CHECK(n == r.erase(id), "erase-wrong", "erase(%llu)", (unsigned long long)id); }
                if (g.chance(1, 100)) { m->clear(); r.clear(); if (g.chance(1, 2)) m->shrink_to_fit(); }
            }
            for (auto & e : *m) { auto f = r.find(e.first.id()); CHECK(f != r.end() && f->second == e.second.id(), "stored-element-wrong", "at the end"); }
            vf::stat("events", steps);
            if (r.size() >= 2) vf::nontrivial(digest);
        }
        CHECK(KB::reg().count() == 0 && VB::reg().count() == 0, "leaked-objects", "at the end");
    }
};
int main(int argc, char ** argv) {
    init(argc, argv);
    Run d;
    return run_cases([&](uint64_t, uint64_t seed) { d.run_case(seed); }, [&] {
        for (auto & kv : d.seen) { vf::stat(("form." + kv.first + ".absent").c_str(), kv.second[0]); vf::stat(("form." + kv.first + ".present").c_str(), kv.second[1]); }
        G().samples.push_back(std::string(FNAME) + " " + d.log.substr(0, 300));
    });
}
