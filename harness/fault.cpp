// C15: every operation is executed with a fault at every point where user code or the allocator is called,
// until it completes without one. After each fault the map must be what it was (or, for bulk insertion, a valid
// map between before and after), nothing may leak, and the retry must succeed.
#include "maps.h"
#include "elems.h"
using namespace vf;
#ifndef CFG
#define CFG 1
#endif
#if CFG == 1
typedef Obj<0> K; typedef Obj<1> V;
#elif CFG == 2
typedef Obj<0, 40> K; typedef Obj<1, 100> V;
#elif CFG == 3
typedef uint64_t K; typedef Obj<1> V;
#else
typedef Obj<0> K; typedef uint64_t V;
#endif
typedef Acct<std::pair<const K, V>, 7> Al;
#if FAM == 3
typedef MAPT<K, V, MHash<K>, MEq<K>, LAYOUT(K, V), Al> M;
#else
typedef MAPT<K, V, MHash<K>, MEq<K>, Al> M;
#endif
typedef M::value_type VT; typedef std::pair<K, V> P;
typedef std::map<uint64_t, uint64_t> Model;
static constexpr bool KO = !std::is_same<K, uint64_t>::value, VO = !std::is_same<V, uint64_t>::value;

enum FK { F_CTOR, F_COPY, F_ASSIGN, F_HASH, F_EQ, F_ALLOC, F_N };
static const char * fk_name[] = { "ctor", "copy", "assign", "hash", "eq", "alloc" };
static long & fk(int k) { Faults & f = FI(); switch (k) { case F_CTOR: return f.ctor; case F_COPY: return f.copy; case F_ASSIGN: return f.assign; case F_HASH: return f.hash; case F_EQ: return f.eq; default: return f.alloc; } }

enum O { IDX_L, IDX_R, INS_CL, INS_R, INS_PAIR_L, INS_PAIR_R, EMP_LL, EMP_LR, EMP_ID, EMP_PW, TRY_L, TRY_ID, TRY_0, IOA_L, IOA_R, IOA_HINT, EMP_HINT,
         ERASE, FINDO, CONTAINSO, ATO, INS_RANGE, INS_IL, COPY_C, RANGE_C, IL_C, COPY_A, RESERVEO, REHASHO, SHRINKO, ERASE_IFO, MLFO, O_N };
static const char * on[] = { "idx_l","idx_r","ins_cl","ins_r","ins_pair_l","ins_pair_r","emp_ll","emp_lr","emp_id","emp_pw","try_l","try_id","try_0","ioa_l","ioa_r","ioa_hint","emp_hint",
         "erase","find","contains","at","ins_range","ins_il","copy_ctor","range_ctor","il_ctor","copy_assign","reserve","rehash","shrink","erase_if","mlf" };

struct Run {
    Rng g{1}; M * m = nullptr; Model r; uint64_t U = 1, nv = 1; HMode hm;
    std::string log; O op; int kind; long k; uint64_t id;
    uint64_t digest = 0;
    K mk(uint64_t i) { return Conv<K>::make(i); }
    V mv(uint64_t i) { return VConv<V>::make(i); }
    static uint64_t kid(const K & k) { return Conv<K>::id(k); }
    static uint64_t vid(const V & v) { return VConv<V>::id(v); }
    template <class T> static uint64_t live_of() { if constexpr (std::is_same<T, uint64_t>::value) return 0; else return T::reg().count(); }
    template <class T> static void forget() { if constexpr (!std::is_same<T, uint64_t>::value) T::reg().live.clear(); }
    static uint64_t live() { return live_of<K>() + live_of<V>(); }
    // robin: the allocation that failed was made by a growth inside the transfer of another growth
    struct NestedGrow {};
    bool nested = false;
    uint64_t per() { return (KO ? 1 : 0) + (VO ? 1 : 0); }

    // the whole map against the model; extra: may also contain these (id,value)
    void verify(const char * when, uint64_t others, Model * extra = nullptr) {
        FI().off();
        size_t n = 0; std::set<uint64_t> seen; Model now;
        for (auto it = m->begin(); it != m->end(); ++it) {
            CHECK(++n <= m->size(), "walk-too-long", "%s", when);
            uint64_t i = kid(it->first), v = vid(it->second);
            CHECK(seen.insert(i).second, "walk-duplicate", "%s: key %llu", when, (unsigned long long)i);
            now[i] = v;
            auto f = r.find(i);
            if (f == r.end()) {
                CHECK(extra, "half-inserted", "%s: key %llu is in the map after the exception", when, (unsigned long long)i);
                auto e = extra->find(i);
                CHECK(e != extra->end() && e->second == v, "half-inserted", "%s: key %llu with value %llu was never in the input", when, (unsigned long long)i, (unsigned long long)v);
            } else CHECK(f->second == v, "changed-by-fault", "%s: key %llu has value %llu, before it was %llu", when, (unsigned long long)i, (unsigned long long)v, (unsigned long long)f->second);
        }
        CHECK(n == m->size(), "wrong-size", "%s: size() %zu, the walk has %zu", when, m->size(), n);
        for (auto & kv : r) CHECK(now.count(kv.first), "lost-by-fault", "%s: key %llu has disappeared", when, (unsigned long long)kv.first);
        r = now;
        int probes = 0;
        for (auto & kv : r) { if (++probes > 60) break; CHECK(m->contains(mk(kv.first)), "lost-by-fault", "%s: key %llu is not found", when, (unsigned long long)kv.first); }
        for (int i = 0; i < 6; i++) { uint64_t x = g.below(U + 10); CHECK(m->contains(mk(x)) == (r.count(x) != 0), "phantom-key", "%s: contains(%llu)", when, (unsigned long long)x); }
        CHECK(m->size() <= m->capacity() , "size-over-capacity", "%s", when);
        uint64_t want = per() * m->size() + others;
        CHECK(live() == want, "leaked-objects", "%s: %llu objects live, the map and the test hold %llu", when, (unsigned long long)live(), (unsigned long long)want);
    }
    uint64_t vals = 0;
    template <class F> bool attempt(F f) {
        uint64_t before = FI().thrown;
        try { f(); }
        catch (Injected &) { CHECK(FI().thrown > before, "unexpected-exception", "an injected exception out of nowhere"); FI().off(); return false; }
        catch (std::bad_alloc &) { CHECK(FI().thrown > before, "unexpected-bad_alloc", "bad_alloc without an injected fault"); FI().off(); return false; }
        catch (std::out_of_range &) { FI().off(); CHECK(op == ATO && !r.count(id), "unexpected-exception", "out_of_range"); return true; }
        bool thrown = FI().thrown != before;
        FI().off();
        CHECK(!thrown, "exception-swallowed", "the operation returned normally although %s threw", fk_name[kind]);
        return true;
    }
    void one_op() {
        op = O(g.below(O_N)); if (g.chance(1, 4)) op = O(g.below(ERASE)); 
        kind = int(g.below(F_N)); id = g.below(U);
        uint64_t v = nv++; bool present = r.count(id) != 0;
        vf::step(); G().prog->op = op;
        char b[80]; snprintf(b, sizeof b, "%s(%llu)/%s ", on[op], (unsigned long long)id, fk_name[kind]); log += b; if (log.size() > 1500) log.erase(0, 500);
        digest = hash2(digest, op * 100 + kind + id * 7919);
        // hash: only the call that looks the key up, equality calls only occur in lookups
        long maxk = kind == F_HASH ? 1 : 200;
        bool bulk = op == INS_RANGE || op == INS_IL || op == RANGE_C || op == IL_C || op == COPY_C || op == COPY_A || op == RESERVEO || op == REHASHO || op == SHRINKO || op == MLFO || op == ERASE_IFO;
        if (bulk && (kind == F_HASH || kind == F_EQ)) return;
        bool done = false; long kk = 0;
        for (; kk < maxk && !done; kk++) {
            k = kk;
            size_t blocks = BL().live.size(); uint64_t bytes = BL().bytes; size_t cap = m->capacity();
            done = attempt_op(v, present, kk);
            if (!done) {
                if (nested) throw NestedGrow();
                vf::stat("faults"); fstat[kind][op]++;
                if (kind == F_ALLOC && !bulk) CHECK(m->capacity() == cap, "capacity-after-failed-allocation", "%s: capacity() changed from %zu to %zu", on[op], cap, m->capacity());
                if (m->capacity() == cap) CHECK(BL().live.size() == blocks && BL().bytes == bytes, "leaked-block", "%s: %zu blocks before, %zu after the fault in %s", on[op], blocks, BL().live.size(), fk_name[kind]);
            }
        }
        if (!done) { k = -1; CHECK(attempt_op(v, present, -1), "retry-failed", "%s", on[op]); }
        ops++;
    }
    static uint64_t fstat[F_N][O_N]; uint64_t ops = 0;
    void arm(long kk) { FI().off(); if (kk >= 0) fk(kind) = kk; }

    // one attempt with a fault at call kk; verifies the state after a fault as well as after success
    bool attempt_op(uint64_t v, bool present, long kk) {
        bool ok = false; char when[100]; snprintf(when, sizeof when, "%s(%llu) with a fault in %s call %ld", on[op], (unsigned long long)id, fk_name[kind], kk);
        nested = false;
        uint64_t base = live() - per() * m->size();      // held by the test: nothing
        CHECK(base == 0, "leaked-objects", "before %s: %llu objects too many", when, (unsigned long long)base);
        bool assign = false;
        switch (op) {
        case IDX_L: { K x = mk(id); arm(kk); ok = attempt([&] { V & w = (*m)[x]; FI().off(); if (!present) CHECK(vid(w) == vid(V()), "index-wrong", "%s", when); }); if (ok && !present) r[id] = vid(V()); break; }
        case IDX_R: { arm(-1); { K x = mk(id); arm(kk); ok = attempt([&] { (*m)[std::move(x)]; }); } if (ok && !present) r[id] = vid(V()); break; }
        case INS_CL: { const VT p(mk(id), mv(v)); arm(kk); ok = attempt([&] { m->insert(p); }); if (ok && !present) r[id] = v; break; }
        case INS_R: { VT p(mk(id), mv(v)); arm(kk); ok = attempt([&] { m->insert(std::move(p)); }); if (ok && !present) r[id] = v; break; }
        case INS_PAIR_L: { const P p(mk(id), mv(v)); arm(kk); ok = attempt([&] { m->insert(p); }); if (ok && !present) r[id] = v; break; }
        case INS_PAIR_R: { P p(mk(id), mv(v)); arm(kk); ok = attempt([&] { m->insert(std::move(p)); }); if (ok && !present) r[id] = v; break; }
        case EMP_LL: { K x = mk(id); V y = mv(v); arm(kk); ok = attempt([&] { m->emplace(x, y); }); if (ok && !present) r[id] = v; break; }
        case EMP_LR: { K x = mk(id); V y = mv(v); arm(kk); ok = attempt([&] { m->emplace(x, std::move(y)); }); if (ok && !present) r[id] = v; break; }
        case EMP_ID: { K x = mk(id); arm(kk); ok = attempt([&] { m->emplace(std::move(x), V(v)); }); if (ok && !present) r[id] = v; break; }
        case EMP_PW: { K x = mk(id); V y = mv(v); arm(kk); ok = attempt([&] { m->emplace(std::piecewise_construct, std::forward_as_tuple(x), std::forward_as_tuple(y)); }); if (ok && !present) r[id] = v; break; }
        case TRY_L: { K x = mk(id); V y = mv(v); arm(kk); ok = attempt([&] { m->try_emplace(x, y); }); if (ok && !present) r[id] = v; break; }
        case TRY_ID: { K x = mk(id); arm(kk); ok = attempt([&] { m->try_emplace(std::move(x), v); }); if (ok && !present) r[id] = v; break; }
        case TRY_0: { K x = mk(id); arm(kk); ok = attempt([&] { m->try_emplace(x); }); if (ok && !present) r[id] = vid(V()); break; }
        case IOA_L: { K x = mk(id); V y = mv(v); arm(kk); ok = attempt([&] { m->insert_or_assign(x, y); }); assign = true; break; }
        case IOA_R: { K x = mk(id); V y = mv(v); arm(kk); ok = attempt([&] { m->insert_or_assign(std::move(x), std::move(y)); }); assign = true; break; }
        case IOA_HINT: { K x = mk(id); V y = mv(v); arm(kk); ok = attempt([&] { m->insert_or_assign(m->cbegin(), x, y); }); assign = true; break; }
        case EMP_HINT: { K x = mk(id); V y = mv(v); arm(kk); ok = attempt([&] { m->emplace_hint(m->cend(), x, y); }); if (ok && !present) r[id] = v; break; }
        case ERASE: { K x = mk(id); arm(kk); ok = attempt([&] { m->erase(x); }); if (ok) r.erase(id); break; }
        case FINDO: { K x = mk(id); arm(kk); ok = attempt([&] { bool f = m->find(x) != m->end(); FI().off(); CHECK(f == present, "find-wrong", "%s", when); }); break; }
        case CONTAINSO: { K x = mk(id); arm(kk); ok = attempt([&] { bool f = m->contains(x) && m->count(x); FI().off(); CHECK(f == present, "contains-wrong", "%s", when); }); break; }
        case ATO: { K x = mk(id); arm(kk); ok = attempt([&] { V & w = m->at(x); FI().off(); CHECK(present && vid(w) == r[id], "at-wrong", "%s", when); }); break; }
        case INS_RANGE: case INS_IL: case RANGE_C: case IL_C: {
            Model in; 
            {
                std::vector<P> src; Rng q(hash2(v, 5));
                size_t n = q.skewed(40); if (op == INS_IL || op == IL_C) n = 3;
                for (size_t i = 0; i < n; i++) { uint64_t a = q.below(U), w = 1000000 + v * 64 + i; src.push_back(P(mk(a), mv(w))); in.insert({ a, w }); }
                if (op == INS_RANGE) { arm(kk); ok = attempt([&] { m->insert(src.begin(), src.end()); }); }
                else if (op == INS_IL) { std::initializer_list<VT> il = { VT(src[0].first, src[0].second), VT(src[1].first, src[1].second), VT(src[2].first, src[2].second) }; arm(kk); ok = attempt([&] { m->insert(il); }); }
                else {
                    std::unique_ptr<M> t;
                    std::initializer_list<VT> il = { VT(mk(1), mv(2)), VT(mk(3), mv(4)), VT(mk(5), mv(6)) };
                    size_t c0 = q.skewed(20);
                    if (op == IL_C) in = { { 1, 2 }, { 3, 4 }, { 5, 6 } };
                    if (op == RANGE_C) { arm(kk); ok = attempt([&] { t.reset(new M(src.begin(), src.end(), c0, MHash<K>(hm), MEq<K>(), Al(2))); }); }
                    else { arm(kk); ok = attempt([&] { t.reset(new M(il, c0, MHash<K>(hm), MEq<K>(), Al(2))); }); }
                    if (ok) { CHECK(t->size() == in.size(), "constructed-wrong", "%s", when); for (auto & kv : in) CHECK(t->contains(mk(kv.first)) && vid(t->find(mk(kv.first))->second) == kv.second, "constructed-wrong", "%s", when); }
                    in.clear();
                }
            }
            if (ok) { for (auto & kv : in) r.insert(kv); verify(when, 0); }
            else if (nested) return ok; else verify(when, 0, &in);
            return ok; }
        case COPY_C: { { std::unique_ptr<M> t; arm(kk); ok = attempt([&] { t.reset(new M(static_cast<const M &>(*m))); }); if (ok) { CHECK(t->size() == r.size(), "constructed-wrong", "%s", when); for (auto & kv : *t) CHECK(r.count(kid(kv.first)) && r[kid(kv.first)] == vid(kv.second), "constructed-wrong", "%s", when); } } break; }
        case COPY_A: {
            {
                M t(g.below(20), MHash<K>(hm), MEq<K>(), Al(3)); Model tr; Rng q(hash2(v, 9)); for (size_t i = q.skewed(20); i--;) { uint64_t a = q.below(U); t.try_emplace(mk(a), mv(77 + i)); tr.insert({ a, 77 + i }); }
                arm(kk); ok = attempt([&] { t = static_cast<const M &>(*m); });
                const Model & want = ok ? r : tr;
                CHECK(t.size() == want.size(), "assigned-wrong", "%s: the target has %zu elements instead of %zu", when, t.size(), want.size());
                for (auto & kv : t) { auto f = want.find(kid(kv.first)); CHECK(f != want.end() && f->second == vid(kv.second), "assigned-wrong", "%s", when); }
                for (auto & kv : want) CHECK(t.contains(mk(kv.first)), "assigned-wrong", "%s", when);
                uint64_t z = g.below(U); t[mk(z)] = mv(5); CHECK(t.contains(mk(z)), "assigned-wrong", "%s", when);
            }
            break; }
        case RESERVEO: { Rng q(hash2(v, 3)); uint64_t n = q.skewed(300); arm(kk); ok = attempt([&] { m->reserve(n); }); break; }
        case REHASHO: { Rng q(hash2(v, 3)); uint64_t n = q.skewed(300); arm(kk); ok = attempt([&] { m->rehash(n); }); break; }
        case SHRINKO: arm(kk); ok = attempt([&] { m->shrink_to_fit(); }); break;
        case MLFO: { Rng q(hash2(v, 3)); float f = float(q.range(30, 90)) / 100; arm(kk); ok = attempt([&] { m->max_load_factor(f); }); break; }
        case ERASE_IFO: {
            // the predicate throws at its kk-th call: what was not selected before stays
            uint64_t mod = 2 + v % 3; long calls = 0; std::set<uint64_t> chosen;
            ok = attempt([&] { std::erase_if(*m, [&](const auto & kv) { if (calls++ == kk) { FI().thrown++; throw Injected(); } uint64_t i = kid(kv.first); bool y = i % mod == 0; if (y) chosen.insert(i); return y; }); });
            if (ok) { for (auto i = r.begin(); i != r.end();) if (i->first % mod == 0) i = r.erase(i); else ++i; }
            else { // an element for which the predicate was true may or may not be erased already
                for (uint64_t i : chosen) if (!m->contains(mk(i))) r.erase(i);
            }
            break; }
        case O_N: break;
        }
        if (assign && ok) r[id] = v;
        if (nested && m->size() != r.size()) return ok;
        nested = false;
        verify(when, 0);
        return ok;
    }
    // The known defect of the robin map, at one fixed history: a table that is shrunk has to grow again while its elements
    // are transferred, and that second allocation fails.
    void nested_grow_history() {
        size_t lost = 0, faults = 0; unsigned at_div = 0; uint64_t at_n = 0;
        for (unsigned div = 2; div <= 12 && !lost; div++) for (uint64_t n = 20; n <= 130 && !lost; n += 10) {
            hm = HMode(); hm.div = div; GHM() = hm;
            { M t(1024, MHash<K>(hm), MEq<K>(), Al(1));
              for (uint64_t i = 0; i < n; i++) t.try_emplace(mk(i), mv(i));
              FI().off(); FI().alloc = 2;
              try { t.shrink_to_fit(); } catch (std::bad_alloc &) { faults++; }
              FI().off();
              if (t.size() != n) { lost = n - t.size(); at_div = div; at_n = n; } }
            forget<K>(); forget<V>(); drop_blocks();
        }
        vf::stat("nested_grow_histories");
        if (lost) printf("KNOWN robin:lost-by-fault.nested-grow | shrink_to_fit() of %llu elements, %u per hash value, with the third allocation failing: %zu elements are gone\n", (unsigned long long)at_n, at_div, lost);
    }
    void run_case(uint64_t seed) {
        if (FAM == 3 && vf::G().prog->case_no % 1000 == 0) nested_grow_history();
        FI().at_alloc_fault = [this] { if (FAM == 3 && op != COPY_C && op != COPY_A && op != RANGE_C && op != IL_C && BL().live.size() >= 4) nested = true; };
        try { random_case(seed); }
        catch (NestedGrow &) { vf::stat("nested_grow_abandoned"); forget<K>(); forget<V>(); drop_blocks(); }
    }
    void random_case(uint64_t seed) {
        g = Rng(seed); r.clear(); log.clear(); nv = 1; digest = 0;
        G().on_fail = [this] { printf("OPS %s\nU=%llu hash and=%llx or=%llx pre=%u div=%u\n", log.c_str(), (unsigned long long)U, (unsigned long long)hm.andm, (unsigned long long)hm.orm, hm.pre, hm.div); };
        static const uint64_t us[] = { 3, 8, 14, 16, 30, 40, 60, 130 };
        U = g.pick(us); hm = HMode();
        switch (g.below(4)) { case 0: hm.pre = 0; break; case 1: break; case 2: if (FAM <= 2) { hm.andm = (1ull << g.below(5)) - 1; } else hm.div = 3; break; case 3: if (FAM <= 2) hm.andm = 0xffull << 56; break; }
        GHM() = hm;
        uint64_t f0 = G().stats["faults"];
        {
            static const uint64_t caps[] = { 0, 0, 1, 8, 16, 64 };
            M map(g.pick(caps), MHash<K>(hm), MEq<K>(), Al(1)); m = &map;
            uint64_t n = g.below(U + 1); for (uint64_t i = 0; i < n; i++) { uint64_t a = g.below(U); map.try_emplace(mk(a), mv(500000 + i)); r.insert({ a, 500000 + i }); }
            verify("the start", 0);
            uint64_t steps = g.range(10, 60);
            for (uint64_t s = 0; s < steps; s++) one_op();
            vf::stat("events", steps);
        }
        CHECK(live() == 0, "leaked-objects", "%llu objects are left after the map is destroyed", (unsigned long long)live());
        CHECK(BL().live.empty(), "leaked-block", "%zu blocks are left after the map is destroyed", BL().live.size());
        if (G().stats["faults"] - f0 >= 5) vf::nontrivial(digest);
    }
};
uint64_t Run::fstat[F_N][O_N];
int main(int argc, char ** argv) {
    init(argc, argv);
    Run d;
    return run_cases([&](uint64_t, uint64_t seed) { d.run_case(seed); }, [&] {
        for (int i = 0; i < F_N; i++) for (int j = 0; j < O_N; j++) if (Run::fstat[i][j]) vf::stat((std::string("fault.") + fk_name[i] + "." + on[j]).c_str(), Run::fstat[i][j]);
        G().samples.push_back(std::string(FNAME) + " " + d.log.substr(0, 400));
    });
}
