// Instrumented element, hash, equality and allocator types: the monitors of the map checks.
#pragma once
#include "common.h"

namespace vf {

// ---------------------------------------------------------------------------------------------
// Fault injection: each source of exceptions counts down, at zero it throws once.
struct Injected : std::exception { const char * what() const noexcept override { return "injected"; } };
struct Faults {
    long ctor = -1, copy = -1, hash = -1, eq = -1, alloc = -1, assign = -1;   // -1: off
    uint64_t thrown = 0;
    bool any_move_growth = false;
    void off() { ctor = copy = hash = eq = alloc = assign = -1; }
    void hit(long & c) { if (c >= 0 && c-- == 0) { thrown++; throw Injected(); } }
    std::function<void()> at_alloc_fault;
    void hit_alloc(long & c) { if (c >= 0 && c-- == 0) { thrown++; if (at_alloc_fault) at_alloc_fault(); throw std::bad_alloc(); } }
};
inline Faults & FI() { static Faults f; return f; }

// ---------------------------------------------------------------------------------------------
// Registry of live objects: which addresses hold an object, how many, what happened to it.
struct Registry {
    std::unordered_set<const void *> live;
    uint64_t made = 0, killed = 0, copies = 0, moves = 0, assigns = 0;
    void born(const void * p, const char * what) {
        made++;
        if (!live.insert(p).second) fail("construct-over-live-object", "%s at %p is constructed over a live object", what, p);
    }
    void die(const void * p, const char * what) {
        killed++;
        if (!live.erase(p)) fail("destroy-dead-object", "%s at %p is destroyed, but no object lives there", what, p);
    }
    void use(const void * p, const char * what) {
        if (!live.count(p)) fail("use-of-dead-object", "%s at %p is used, but no object lives there", what, p);
    }
    uint64_t count() const { return live.size(); }
};

// A tracked object. Tag separates keys from mapped values. Copy may throw, move never does.
enum : uint32_t { OBJ_LIVE = 0x11fe11fe, OBJ_MOVED = 0x30fed30f, OBJ_DEAD = 0xdeaddead };
template <int Tag, size_t Pad = 0, bool Copyable = true>
struct Obj {
    uint64_t id_;
    const void * self_;
    uint32_t magic_;
    unsigned char pad_[Pad ? Pad : 1];

    static Registry & reg() { static Registry r; return r; }
    static const char * what() { return Tag == 0 ? "key" : "mapped"; }

    void birth(uint64_t id) { id_ = id; self_ = this; magic_ = OBJ_LIVE; memset(pad_, int(id), sizeof pad_); reg().born(this, what()); }
    void alive() const {
        reg().use(this, what());
        if (self_ != this) fail("bitwise-relocated", "a %s object was moved to %p without its move constructor", what(), (const void *)this);
        if (magic_ != OBJ_LIVE && magic_ != OBJ_MOVED) fail("corrupt-object", "%s magic %x", what(), magic_);
    }
    uint64_t id() const {
        alive();
        if (magic_ == OBJ_MOVED) fail("use-of-moved-from-object", "a moved-from %s is used as a value", what());
        for (unsigned char c : pad_) if (c != (unsigned char)id_) fail("corrupt-object", "%s padding", what());
        return id_;
    }
    bool moved_from() const { return magic_ == OBJ_MOVED; }

    Obj() { FI().hit(FI().ctor); birth(0); }
    explicit Obj(uint64_t id) { FI().hit(FI().ctor); birth(id); }
    template <bool C = Copyable, typename std::enable_if<C, int>::type = 0>
    struct dummy {};
    Obj(const Obj & o) { static_assert(Copyable, "move-only object copied"); uint64_t i = o.id(); FI().hit(FI().copy); birth(i); reg().copies++; }
    Obj(Obj && o) noexcept {
        o.alive();
        bool m = o.magic_ == OBJ_MOVED;
        birth(o.id_); magic_ = m ? OBJ_MOVED : OBJ_LIVE; o.magic_ = OBJ_MOVED; reg().moves++;
    }
    Obj & operator = (const Obj & o) {
        static_assert(Copyable, "move-only object copied");
        alive(); uint64_t i = o.id(); FI().hit(FI().assign);
        id_ = i; magic_ = OBJ_LIVE; memset(pad_, int(i), sizeof pad_); reg().assigns++; return *this;
    }
    Obj & operator = (Obj && o) noexcept {
        alive(); o.alive();
        if (this != &o) {
            bool m = o.magic_ == OBJ_MOVED;
            id_ = o.id_; memset(pad_, int(id_), sizeof pad_); magic_ = m ? OBJ_MOVED : OBJ_LIVE; o.magic_ = OBJ_MOVED; reg().assigns++;
        }
        return *this;
    }
    ~Obj() { alive(); reg().die(this, what()); magic_ = OBJ_DEAD; id_ = 0xdddddddddddddddd; }
    friend bool operator == (const Obj & a, const Obj & b) { return a.id() == b.id(); }
};

// Move-only version
template <int Tag>
struct MoveOnly {
    Obj<Tag> o;
    MoveOnly() {}
    explicit MoveOnly(uint64_t id) : o(id) {}
    MoveOnly(MoveOnly && m) noexcept : o(std::move(m.o)) {}
    MoveOnly & operator = (MoveOnly && m) noexcept { o = std::move(m.o); return *this; }
    MoveOnly(const MoveOnly &) = delete;
    MoveOnly & operator = (const MoveOnly &) = delete;
    uint64_t id() const { return o.id(); }
    bool moved_from() const { return o.moved_from(); }
    friend bool operator == (const MoveOnly & a, const MoveOnly & b) { return a.id() == b.id(); }
};

// Trivially copyable, large
template <size_t N>
struct Big {
    uint64_t w[N];
    Big() : w{} {}
    explicit Big(uint64_t id) { for (size_t i = 0; i < N; i++) w[i] = id + i * 0x0101010101010101ull; }
    uint64_t id() const {
        for (size_t i = 1; i < N; i++)
            if (w[i] != w[0] + i * 0x0101010101010101ull && !(w[0] == 0 && w[i] == 0)) fail("torn-element", "word %zu of a large element differs", i);
        return w[0];
    }
    friend bool operator == (const Big & a, const Big & b) { return a.w[0] == b.w[0]; }
};
// Over-aligned: checks its own address whenever it is made or used.
template <size_t A>
struct alignas(A) Aligned {
    uint64_t v;
    void chk() const { if ((uintptr_t)this % A) fail("misaligned-element", "an element aligned to %zu lives at %p", A, (const void *)this); }
    Aligned() : v(0) { chk(); }
    explicit Aligned(uint64_t id) : v(id) { chk(); }
    Aligned(const Aligned & o) : v(o.v) { chk(); o.chk(); }
    Aligned & operator = (const Aligned & o) { chk(); o.chk(); v = o.v; return *this; }
    ~Aligned() { chk(); }
    uint64_t id() const { chk(); return v; }
    friend bool operator == (const Aligned & a, const Aligned & b) { return a.id() == b.id(); }
};
struct Empty { friend bool operator == (const Empty &, const Empty &) { return true; } };

// ---------------------------------------------------------------------------------------------
// How ids become keys and values, and back.
struct KeyMap { uint64_t stride = 1, off = 0; };
inline KeyMap & KM() { static KeyMap k; return k; }

template <class T> struct Conv;      // T make(id), uint64_t id(const T&)
template <> struct Conv<int> {
    static int make(uint64_t i) { return int(uint32_t(i * KM().stride + KM().off)); }
    static uint64_t id(const int & v) { return (uint32_t(v) - uint32_t(KM().off)) / uint32_t(KM().stride); }
};
template <> struct Conv<uint64_t> {
    static uint64_t make(uint64_t i) { return i * KM().stride + KM().off; }
    static uint64_t id(const uint64_t & v) { return (v - KM().off) / KM().stride; }
};
// mapped values are not strided
template <class T> struct VConv : Conv<T> {};
template <> struct VConv<int> { static int make(uint64_t i) { return int(uint32_t(i)); } static uint64_t id(const int & v) { return uint32_t(v); } };
template <> struct VConv<uint64_t> { static uint64_t make(uint64_t i) { return i; } static uint64_t id(const uint64_t & v) { return v; } };
template <> struct Conv<uint8_t> {
    static uint8_t make(uint64_t i) { return uint8_t(i); }
    static uint64_t id(const uint8_t & v) { return v; }
};
// Small or oddly sized plain keys and values: the id in little endian order, then a pattern made of it.
template <size_t N, size_t A = 1> struct alignas(A) Bytes {
    unsigned char b[N];
    static constexpr size_t W = N < 4 ? N : 4;
    Bytes() : b{} {}
    explicit Bytes(uint64_t i) { for (size_t k = 0; k < N; k++) b[k] = k < W ? (unsigned char)(i >> (8 * k)) : (unsigned char)(i * 7 + k); if (!i) memset(b, 0, N); }
    uint64_t id() const {
        uint64_t i = 0;
        for (size_t k = 0; k < W; k++) i |= uint64_t(b[k]) << (8 * k);
        for (size_t k = W; k < N; k++) if (b[k] != (i ? (unsigned char)(i * 7 + k) : 0)) fail("torn-element", "byte %zu of a %zu byte element differs", k, N);
        return i;
    }
    friend bool operator == (const Bytes & a, const Bytes & c) { return memcmp(a.b, c.b, N) == 0; }
};
template <size_t N, size_t A> struct Conv<Bytes<N, A>> {
    static Bytes<N, A> make(uint64_t i) { return Bytes<N, A>(i); }
    static uint64_t id(const Bytes<N, A> & o) { return o.id(); }
};
template <> struct Conv<std::string> {
    static std::string make(uint64_t i) {
        if (i == 0) return std::string();
        std::string s = std::to_string(i);
        return i % 3 == 0 ? s : s + std::string(i % 3 == 1 ? 20 + i % 30 : 3, char('a' + i % 26));
    }
    static uint64_t id(const std::string & s) {
        if (s.empty()) return 0;
        uint64_t i = strtoull(s.c_str(), nullptr, 10);
        if (make(i) != s) fail("corrupt-element", "a stored string has changed");
        return i;
    }
};
template <int T, size_t P, bool C> struct Conv<Obj<T, P, C>> {
    static Obj<T, P, C> make(uint64_t i) { return Obj<T, P, C>(i); }
    static uint64_t id(const Obj<T, P, C> & o) { return o.id(); }
};
template <int T> struct Conv<MoveOnly<T>> {
    static MoveOnly<T> make(uint64_t i) { return MoveOnly<T>(i); }
    static uint64_t id(const MoveOnly<T> & o) { return o.id(); }
};
template <size_t N> struct Conv<Big<N>> {
    static Big<N> make(uint64_t i) { return i ? Big<N>(i) : Big<N>(); }
    static uint64_t id(const Big<N> & o) { return o.id(); }
};
template <size_t A> struct Conv<Aligned<A>> {
    static Aligned<A> make(uint64_t i) { return Aligned<A>(i); }
    static uint64_t id(const Aligned<A> & o) { return o.id(); }
};
template <> struct Conv<Empty> {
    static Empty make(uint64_t) { return {}; }
    static uint64_t id(const Empty &) { return 0; }
};

// ---------------------------------------------------------------------------------------------
// Hash and equality with state. The mode decides how badly the hash distributes.
struct HMode { uint64_t andm = ~0ull, orm = 0; unsigned pre = 1; unsigned rot = 0; unsigned div = 1; };   // pre: 0 identity, 1 mixed
struct Counters { uint64_t hashes = 0, eqs = 0; };
inline HMode & GHM() { static HMode m; return m; }     // what a default constructed hash does
inline Counters & CN() { static Counters c; return c; }

template <class K>
struct MHash {
    typedef K argument_type; typedef size_t result_type;
    HMode m; uint64_t tag = 0;
    MHash() : m(GHM()) {}
    explicit MHash(const HMode & mm, uint64_t t = 0) : m(mm), tag(t) {}
    size_t operator () (const K & k) const {
        CN().hashes++;
        FI().hit(FI().hash);
        uint64_t h = Conv<K>::id(k) / m.div;
        if (m.pre == 1) h = Rng::mix(h + 77);
        if (m.rot) h = (h << m.rot) | (h >> (64 - m.rot));
        return (h & m.andm) | m.orm;
    }
};
template <class K>
struct MEq {
    uint64_t tag = 0;
    MEq() {}
    explicit MEq(uint64_t t) : tag(t) {}
    bool operator () (const K & a, const K & b) const {
        CN().eqs++;
        FI().hit(FI().eq);
        return Conv<K>::id(a) == Conv<K>::id(b);
    }
};

// ---------------------------------------------------------------------------------------------
// Accounting allocator: every block is recorded, stateful, with selectable propagation.
struct Blocks {
    struct B { size_t bytes, align; uint64_t owner; };
    std::map<uintptr_t, B> live;
    uint64_t allocs = 0, frees = 0, bytes = 0, peak = 0;
    std::map<uint64_t, uint64_t> per_owner;
    // the block that contains p, or null
    const std::pair<const uintptr_t, B> * find(uintptr_t p) const {
        auto it = live.upper_bound(p);
        if (it == live.begin()) return nullptr;
        --it;
        return p < it->first + it->second.bytes ? &*it : nullptr;
    }
};
inline Blocks & BL() { static Blocks b; return b; }
// give up on everything a map has lost
inline void drop_blocks() {
    for (auto & b : BL().live) ::operator delete((void *)b.first, std::align_val_t(b.second.align < 16 ? 16 : b.second.align));
    BL() = Blocks();
}
// bytes after each block that must never change (AddressSanitizer guards them itself)
#if defined(__SANITIZE_ADDRESS__)
constexpr size_t CANARY = 0;
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
constexpr size_t CANARY = 0;
#else
constexpr size_t CANARY = 64;
#endif
#else
constexpr size_t CANARY = 64;
#endif
inline uint64_t & byte_limit() { static uint64_t l = 1ull << 30; return l; }

// Props: bit 0 POCCA, bit 1 POCMA, bit 2 POCS, bit 3 always equal, bit 4: select_on_copy gives id + 1000
template <class T, int Props>
struct Acct {
    typedef T value_type;
    typedef std::integral_constant<bool, (Props & 1) != 0> propagate_on_container_copy_assignment;
    typedef std::integral_constant<bool, (Props & 2) != 0> propagate_on_container_move_assignment;
    typedef std::integral_constant<bool, (Props & 4) != 0> propagate_on_container_swap;
    typedef std::integral_constant<bool, (Props & 8) != 0> is_always_equal;
    template <class U> struct rebind { typedef Acct<U, Props> other; };
    uint64_t id = 1;
    Acct() noexcept {}
    explicit Acct(uint64_t i) noexcept : id(i) {}
    Acct(const Acct &) noexcept = default;
    Acct & operator = (const Acct &) noexcept = default;
    template <class U> Acct(const Acct<U, Props> & o) noexcept : id(o.id) {}
    uint64_t owner() const { return (Props & 8) ? 0 : id; }
    T * allocate(size_t n) {
        FI().hit_alloc(FI().alloc);
        if (n > (1ull << 40) || n * sizeof(T) + BL().bytes > byte_limit()) {
            if (FI().alloc < 0) fail("memory-blow-up", "%zu objects of %zu bytes requested, %llu bytes live", n, sizeof(T), (unsigned long long)BL().bytes);
            throw std::bad_alloc();
        }
        void * p = ::operator new(n * sizeof(T) + (n == 0) + CANARY, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
        memset((char *)p + n * sizeof(T), 0xC7, CANARY);
        // make reads of memory which is not initialized visible
        memset(p, 0xA5, n * sizeof(T));
        auto & b = BL();
        b.allocs++; b.bytes += n * sizeof(T); if (b.bytes > b.peak) b.peak = b.bytes;
        b.live[(uintptr_t)p] = { n * sizeof(T), alignof(T), owner() };
        return static_cast<T *>(p);
    }
    void deallocate(T * p, size_t n) noexcept {
        auto & b = BL();
        auto it = b.live.find((uintptr_t)p);
        if (it == b.live.end()) fail("free-of-unknown-block", "deallocate(%p, %zu): no such block", (void *)p, n);
        if (it->second.bytes != n * sizeof(T)) fail("free-with-wrong-size", "deallocate of %zu bytes, %zu were allocated", n * sizeof(T), it->second.bytes);
        if (it->second.owner != owner()) fail("free-by-wrong-allocator", "block of allocator %llu is freed by allocator %llu", (unsigned long long)it->second.owner, (unsigned long long)owner());
        b.frees++; b.bytes -= it->second.bytes;
        for (size_t i = 0; i < CANARY; i++)
            if (((unsigned char *)p)[n * sizeof(T) + i] != 0xC7) fail("write-past-block", "byte %zu after the end of a block of %zu bytes was written", i, n * sizeof(T));
        memset((void *)p, 0xDD, n * sizeof(T));
        b.live.erase(it);
        ::operator delete((void *)p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
    }
    Acct select_on_container_copy_construction() const { Acct a(*this); if (Props & 16) a.id += 1000; return a; }
    template <class U> friend bool operator == (const Acct & a, const Acct<U, Props> & b) { return (Props & 8) || a.id == b.id; }
    template <class U> friend bool operator != (const Acct & a, const Acct<U, Props> & b) { return !(a == b); }
};

} // namespace vf
