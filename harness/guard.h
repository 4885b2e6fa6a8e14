// Bytes placed where a read outside them cannot go unnoticed: flush against an unreadable page on either side,
// in an exactly sized heap block (for AddressSanitizer), or in the middle of bytes that change from call to call.
#pragma once
#include "common.h"

namespace vf {
enum Place { PL_END, PL_BEGIN, PL_HEAP, PL_MIDDLE, PL_COUNT };
inline const char * place_name(int p) { static const char * n[] = { "end-of-page", "start-of-page", "heap", "middle" }; return n[p]; }

class Arena {
    unsigned char * map_; size_t room_, page_;
    std::vector<void *> heap_;
public:
    explicit Arena(size_t room) {
        page_ = 4096; room_ = (room + page_ - 1) / page_ * page_;
        void * p = mmap(nullptr, room_ + 2 * page_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) broken("mmap");
        map_ = (unsigned char *)p;
        if (mprotect(map_, page_, PROT_NONE) || mprotect(map_ + page_ + room_, page_, PROT_NONE)) broken("mprotect");
    }
    ~Arena() { done(); munmap(map_, room_ + 2 * page_); }
    Arena(const Arena &) = delete;
    size_t room() const { return room_; }
    // the bytes stay valid until the next place()/done() of this arena
    unsigned char * place(int how, const void * data, size_t len, Rng & g, size_t align = 1) {
        done();
        unsigned char * at;
        if (len > room_) broken("arena too small");
        if (how == PL_HEAP) {
            at = (unsigned char *)malloc(len); heap_.push_back(at);       // len 0: any access is an error
            if (!at) broken("malloc");
        }
        else if (how == PL_END) at = map_ + page_ + room_ - len;
        else if (how == PL_BEGIN) at = map_ + page_;
        else {
            at = map_ + page_ + g.below(room_ - len + 1); at -= (uintptr_t)at % align;
            unsigned char * lo = std::max(map_ + page_, at - 64), * hi = std::min(map_ + page_ + room_, at + len + 64);
            for (unsigned char * p = lo; p < hi; p++) *p = (unsigned char)g.next();
        }
        if (len) memcpy(at, data, len);
        return at;
    }
    void done() { for (void * p : heap_) free(p); heap_.clear(); }
};
inline std::string hex(const void * p, size_t n, size_t most = 48) {
    std::string s; char b[4];
    for (size_t i = 0; i < n && i < most; i++) { snprintf(b, sizeof b, "%02x", ((const unsigned char *)p)[i]); s += b; }
    if (n > most) s += "...(" + std::to_string(n) + ")";
    return s;
}
} // namespace vf
