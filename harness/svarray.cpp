// C27: string_view_array owns the pairs that are handed to it; string_view_pair copies, moves and exchanges both halves.
#include "prelude.h"
#include "common.h"
#include "elems.h"
#include "jstd/basic/stddef.h"
#include "jstd/string/string_view_array.h"
using namespace vf;
typedef unsigned long long ull;
typedef Obj<0> A; typedef Obj<1> B;
typedef jstd::string_view_array<A, B> Arr;
typedef Arr::element_type Pair;
static_assert(std::is_same<Pair, jstd::string_view_pair<A, B>>::value, "");
struct E { Pair * p; uint64_t a, b; };            // p is null for an entry made by resize()
struct S { std::unique_ptr<Arr> v; std::vector<E> m; };
struct Run {
    Rng g{1}; std::string log; uint64_t digest = 0, next = 1, loose = 0; S t[3];
    void entry(const Pair * p, const E & e, const char * when, size_t i) {
        CHECK(p == e.p, "wrong-element", "%s: entry %zu is %p, expected %p", when, i, (const void *)p, (const void *)e.p);
        if (p) CHECK(p->first.id() == e.a && p->second.id() == e.b, "wrong-element", "%s: entry %zu holds %llu, %llu instead of %llu, %llu", when, i, (ull)p->first.id(), (ull)p->second.id(), (ull)e.a, (ull)e.b);
        vf::stat("entries_read");
    }
    void sweep(S & s, const char * when) {
        const Arr & c = *s.v; Arr & m = *s.v;
        CHECK(c.size() == s.m.size(), "wrong-size", "%s: size %zu instead of %zu", when, c.size(), s.m.size());
        CHECK(c.capacity() >= c.size(), "wrong-size", "%s: capacity %zu, size %zu", when, c.capacity(), c.size());
        size_t i = 0;
        for (auto it = m.begin(); it != m.end(); ++it, i++) { CHECK(i < s.m.size(), "wrong-traversal", "%s", when); entry(*it, s.m[i], when, i); }
        CHECK(i == s.m.size(), "wrong-traversal", "%s", when); i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, i++) { CHECK(i < s.m.size(), "wrong-traversal", "%s", when); entry(*it, s.m[i], when, i); }
        CHECK(i == s.m.size(), "wrong-traversal", "%s", when); i = 0;
        for (auto it = m.cbegin(); it != m.cend(); ++it, i++) { CHECK(i < s.m.size(), "wrong-traversal", "%s", when); entry(*it, s.m[i], when, i); }
        CHECK(i == s.m.size(), "wrong-traversal", "%s", when); i = 0;
        for (auto it = c.cbegin(); it != c.cend(); ++it, i++) { CHECK(i < s.m.size(), "wrong-traversal", "%s", when); entry(*it, s.m[i], when, i); }
        CHECK(i == s.m.size(), "wrong-traversal", "%s", when);
        for (i = 0; i < s.m.size(); i++) {
            entry(m.at(i), s.m[i], when, i); entry(c.at(i), s.m[i], when, i);
            if (s.m[i].p) { entry(&m[i], s.m[i], when, i); entry(&c[i], s.m[i], when, i); }
        }
        if (!s.m.empty()) { entry(m.front(), s.m[0], when, 0); entry(c.front(), s.m[0], when, 0); entry(m.back(), s.m.back(), when, i - 1); entry(c.back(), s.m.back(), when, i - 1); }
        for (size_t over : { s.m.size(), s.m.size() + 1, size_t(-1) }) {
            bool x = false, y = false; try { (void)m.at(over); } catch (const std::out_of_range &) { x = true; } try { (void)c.at(over); } catch (const std::out_of_range &) { y = true; }
            CHECK(x && y, "at-out-of-range", "%s: at(%zu) of %zu", when, over, s.m.size());
        }
    }
    void conserve(const char * when) {
        uint64_t n = loose; for (auto & s : t) for (auto & e : s.m) n += e.p != nullptr;
        CHECK(A::reg().count() == n && B::reg().count() == n, A::reg().count() > n || B::reg().count() > n ? "leaked-element" : "lost-element", "%s: %llu first and %llu second halves live, the arrays hold %llu", when, (ull)A::reg().count(), (ull)B::reg().count(), (ull)n);
        vf::stat("conservation_checks");
    }
    void push(S & s) {
        E e{ nullptr, next, next + 1000000007 }; next++;
        { A a(e.a); B b(e.b); e.p = new Pair(a, b); }
        if (g.chance(1, 2)) { Pair * const & r = e.p; s.v->push_back(r); } else { Pair * q = e.p; s.v->push_back(std::move(q)); }
        s.m.push_back(e);
    }
    void copied(S & from, S & to, const char * when) {           // to was copied from from: equal values in entries of its own
        CHECK(to.v->size() == from.m.size(), "wrong-size", "%s: %zu instead of %zu", when, to.v->size(), from.m.size());
        to.m = from.m;
        for (size_t i = 0; i < to.m.size(); i++) {
            Pair * p = to.v->at(i); CHECK((p != nullptr) == (from.m[i].p != nullptr), "wrong-element", "%s", when);
            if (p) CHECK(p != from.m[i].p, "shared-element", "%s: entry %zu is shared by two arrays", when, i);
            to.m[i].p = p;
        }
    }
    void values(S & s) {             // element-wise assignment and exchange
        std::vector<size_t> ok; for (size_t i = 0; i < s.m.size(); i++) if (s.m[i].p) ok.push_back(i);
        if (ok.empty()) return;
        size_t i = ok[g.below(ok.size())], j = ok[g.below(ok.size())]; Arr & v = *s.v; E & a = s.m[i], & b = s.m[j];
        switch (g.below(7)) {
        case 0: std::swap(v[i], v[j]); std::swap(a.a, b.a); std::swap(a.b, b.b); break;
        case 1: v[i].swap(v[j]); std::swap(a.a, b.a); std::swap(a.b, b.b); break;
        case 2: v[i] = static_cast<const Pair &>(v[j]); a.a = b.a; a.b = b.b; break;
        case 3: { A x(next); B y(next + 5); Pair p(x, y); v[i] = std::move(p); a.a = next; a.b = next + 5; next++; break; }
        case 4: { Pair p(static_cast<const Pair &>(v[i])); CHECK(p.first.id() == a.a && p.second.id() == a.b, "pair-copy-wrong", "a copy of entry %zu", i); p.swap(v[j]); if (i != j) CHECK(p.first.id() == b.a && p.second.id() == b.b, "pair-swap-wrong", "entry %zu", j); b.a = a.a; b.b = a.b; break; }
        case 5: { Pair p(std::move(v[i])); CHECK(p.first.id() == a.a && p.second.id() == a.b, "pair-move-wrong", "entry %zu moved out", i); CHECK(v[i].first.moved_from() && v[i].second.moved_from(), "pair-move-copies", "entry %zu was copied by the move", i); v[i] = std::move(p); break; }
        case 6: { Pair p; CHECK(p.first.id() == 0 && p.second.id() == 0, "pair-default-wrong", "a default pair"); p = v[i]; CHECK(p.first.id() == a.a && p.second.id() == a.b && v[i].first.id() == a.a && v[i].second.id() == a.b, "pair-copy-wrong", "an assigned copy of entry %zu", i); break; }
        }
        vf::stat("pair_operations");
    }
    void one() {
        size_t w = g.below(3); S & s = t[w], & o = t[(w + 1) % 3]; unsigned op = unsigned(g.below(24)); const char * when = "?";
        digest = hash2(digest, op * 3 + w); char b[40]; snprintf(b, sizeof b, "%zu.%u ", w, op); log += b;
        switch (op) {
        default: when = "push_back"; for (uint64_t k = g.chance(1, 10) ? 30 : 1; k; k--) push(s); break;
        case 8: case 9: when = "pop_back"; if (!s.m.empty()) { s.v->pop_back(); s.m.pop_back(); vf::stat("removed"); } break;
        case 10: when = "clear"; vf::stat("removed", s.m.size()); s.v->clear(); s.m.clear(); break;
        case 11: when = "resize to less"; { size_t n = g.below(s.m.size() + 1); vf::stat("removed", s.m.size() - n); s.v->resize(n); s.m.resize(n); } break;
        case 12: when = "resize to more"; if (g.chance(1, 3)) { size_t n = s.m.size() + g.below(4); s.v->resize(n); s.m.resize(n, E{ nullptr, 0, 0 }); } break;
        case 13: when = "reserve"; { size_t n = g.below(80); s.v->reserve(n); CHECK(s.v->capacity() >= n, "reserve-broken", "capacity %zu after reserve(%zu)", s.v->capacity(), n); } break;
        case 14: when = "copy construction"; { o.v.reset(); o.m.clear(); conserve("destruction"); o.v.reset(new Arr(static_cast<const Arr &>(*s.v))); copied(s, o, when); sweep(o, when); vf::stat("copies"); } break;
        case 15: when = "copy()"; { o.v.reset(new Arr); o.m.clear(); o.v->copy(*s.v); copied(s, o, when); sweep(o, when); s.v->copy(*s.v); vf::stat("copies"); } break;
        case 16: when = "move construction"; { o.v.reset(new Arr(std::move(*s.v))); o.m.swap(s.m); s.m.clear(); sweep(o, when); vf::stat("transfers"); } break;
        case 17: when = "swap"; { unsigned k = unsigned(g.below(3)); if (k == 0) s.v->swap(*o.v); else if (k == 1) std::swap(*s.v, *o.v); else jstd::swap(*s.v, *o.v); s.m.swap(o.m); sweep(o, when); s.v->swap(*s.v); vf::stat("transfers"); } break;
        case 18: when = "destruction"; s.v.reset(); s.m.clear(); conserve(when); s.v.reset(new Arr); break;
        case 19: case 20: case 21: case 22: when = "element operation"; values(s); break;
        case 23: when = "replacing an entry"; if (!s.m.empty()) { size_t i = g.below(s.m.size()), j = g.below(s.m.size()); std::swap(s.v->at(i), s.v->at(j)); std::swap(s.m[i], s.m[j]); } break;
        }
        sweep(s, when); conserve(when); step(); vf::stat("events");
    }
    void run_case(uint64_t seed) {
        g = Rng(seed); log.clear(); digest = 0; next = 1;
        G().on_fail = [this] { printf("OPS %s\n", log.size() > 600 ? log.c_str() + log.size() - 600 : log.c_str()); };
        for (auto & s : t) { s.v.reset(new Arr); s.m.clear(); }
        for (uint64_t n = g.range(30, 200); n; n--) one();
        for (auto & s : t) { s.v.reset(); s.m.clear(); }
        conserve("the end"); vf::nontrivial(digest);
    }
};
int main(int argc, char ** argv) {
    init(argc, argv); Run d;
    return run_cases([&](uint64_t, uint64_t seed) { d.run_case(seed); }, [&] { G().samples.push_back("array.operation: " + d.log.substr(0, 300)); });
}
