// One map family and one element configuration per binary:
//   -DFAM=1..5 (g15 g16 robin robin16 flat16)  -DCFG=n
#include "maps.h"
#if FAM >= 4
namespace std { struct vf_none; void erase_if(vf_none *, int); }
#endif
#include "hist.h"
using namespace vf;
#ifndef PROPS
#define PROPS 0
#endif
template <class Key, class Val, bool Own>
struct MakeMap {
    typedef Acct<std::pair<const Key, Val>, PROPS> Al;
#if FAM <= 2
    typedef typename std::conditional<Own, MAPT<Key, Val, MHash<Key>, MEq<Key>, Al>, MAPT<Key, Val>>::type type;
#elif FAM == 3
    typedef typename std::conditional<Own, MAPT<Key, Val, MHash<Key>, MEq<Key>, LAYOUT(Key, Val), Al>, MAPT<Key, Val>>::type type;
#else
    typedef typename std::conditional<Own, MAPT<Key, Val, MHash<Key>, MEq<Key>>, MAPT<Key, Val>>::type type;
#endif
};
struct Cfg {
    static constexpr int family = FAM - 1;
    static constexpr bool copyable = CFG < 18, piecewise = true, assign_ilist = FAM <= 2;
#if CFG == 1      // plain integers, own hash
    typedef int K; typedef int V; static constexpr bool own = true;
#define CNAME "int,int,stateful hash"
#elif CFG == 2    // strings, own hash
    typedef std::string K; typedef std::string V; static constexpr bool own = true;
#define CNAME "string,string,stateful hash"
#elif CFG == 3    // tracked objects
    typedef Obj<0> K; typedef Obj<1> V; static constexpr bool own = true;
#define CNAME "tracked,tracked,stateful hash"
#elif CFG == 4    // default hash
    typedef int K; typedef uint64_t V; static constexpr bool own = false;
#define CNAME "int,uint64,default hash"
#elif CFG == 5
    typedef std::string K; typedef int V; static constexpr bool own = false;
#define CNAME "string,int,default hash"
#elif CFG == 6    // large trivially copyable key, small value
    typedef Big<6> K; typedef uint8_t V; static constexpr bool own = true;
#define CNAME "48 byte key,uint8,stateful hash"
#elif CFG == 7    // one byte key, empty value
    typedef uint8_t K; typedef Empty V; static constexpr bool own = true;
#define CNAME "uint8,empty,stateful hash"
#elif CFG == 8    // over-aligned
    typedef uint64_t K; typedef Aligned<64> V; static constexpr bool own = true;
#define CNAME "uint64,64-aligned,stateful hash"
#elif CFG == 9
    typedef uint64_t K; typedef Obj<1, 200> V; static constexpr bool own = true;
#define CNAME "uint64,large tracked,stateful hash"
#elif CFG == 10
    typedef uint64_t K; typedef uint64_t V; static constexpr bool own = true;
#define CNAME "uint64,uint64,stateful hash"
#elif CFG == 11
    typedef Obj<0> K; typedef int V; static constexpr bool own = true;
#define CNAME "tracked,int,stateful hash"
#elif CFG == 12   // over-aligned key
    typedef Aligned<32> K; typedef uint8_t V; static constexpr bool own = true;
#define CNAME "32-aligned,uint8,stateful hash"
#elif CFG == 13   // slots of two bytes
    typedef uint8_t K; typedef uint8_t V; static constexpr bool own = true;
#define CNAME "uint8,uint8,stateful hash"
#elif CFG == 14   // slots of three bytes
    typedef Bytes<2> K; typedef Empty V; static constexpr bool own = true;
#define CNAME "2 bytes,empty,stateful hash"
#elif CFG == 15   // slots of four bytes
    typedef Bytes<2, 2> K; typedef Bytes<2, 2> V; static constexpr bool own = true;
#define CNAME "2 bytes,2 bytes,stateful hash"
#elif CFG == 16   // slots of 21 bytes
    typedef Bytes<9> K; typedef Bytes<12> V; static constexpr bool own = true;
#define CNAME "9 bytes,12 bytes,stateful hash"
#elif CFG == 17   // slots of 40 bytes
    typedef uint64_t K; typedef std::string V; static constexpr bool own = true;
#define CNAME "uint64,string,stateful hash"
#elif CFG == 18   // mapped objects that cannot be copied
    typedef uint64_t K; typedef MoveOnly<1> V; static constexpr bool own = true;
#define CNAME "uint64,move-only,stateful hash"
#endif
    static constexpr bool own_alloc = own && FAM <= 3;
    typedef MakeMap<K, V, own>::type Map;
    static const char * name() { return FNAME LAYSTR "<" CNAME ">"; }
};
int main(int argc, char ** argv) {
    init(argc, argv);
    std::string p = args("prop", "C01");
    Driver<Cfg> d;
    Plan & pl = d.plan;
    pl.max_steps = argu("steps", 400);
    pl.bounded_hash = FAM == 3 || FAM == 4 || (FAM == 5 && argu("huge", 0));
    pl.huge = argu("huge", 0) != 0;
    pl.wear = argu("wear", 0) != 0;
    uint64_t base = OG_LOOKUP | OG_INSERT | OG_ERASE | OG_CLEAR;
    pl.groups = base;
    if (p == "C01" || p == "C02" || p == "C03") { pl.groups |= OG_HINT; if (argu("all", 0)) { pl.groups = ~0ull; pl.maps = 2; pl.sweep_every = 8; } }
    else if (p == "C04") { pl.groups |= OG_ITER | OG_HINT | OG_CAP; pl.obj_counts = true; }
    else if (p == "C05") { pl.groups |= OG_ITER | OG_ERASE_IT | OG_CAP; pl.sweep_every = 2; }
    else if (p == "C06") { pl.groups |= OG_ERASE_IT | OG_ITER; }
    else if (p == "C07") { pl.groups |= OG_COPY; pl.maps = 3; pl.sweep_every = 8; }
    else if (p == "C08") { pl.groups |= OG_MOVE; pl.maps = 3; pl.sweep_every = 8; pl.steal = true; }
    else if (p == "C09") { pl.groups |= OG_BULK; pl.forms = true; }
    else if (p == "C10") { pl.groups |= OG_CAP; pl.sweep_every = 4; pl.load = true; }
    else if (p == "C12") { pl.groups = ~0ull; pl.maps = 3; pl.obj_counts = true; }
    else if (p == "C13") { pl.groups = ~0ull; pl.maps = 3; pl.alloc_checks = true; pl.forms = true; }
    else if (p == "C16") { pl.groups = ~0ull; pl.maps = 2; pl.alloc_checks = true; }
    else broken("unknown property %s", p.c_str());
    run_cases([&](uint64_t, uint64_t seed) { d.run_case(seed); }, [&] { d.report(); });
    return 0;
}
