// Stands in for <assert.h> in builds that watch the library's own assertions (C28): counts them, reports the first that fails.
#include_next <assert.h>
#ifndef VF_ASSERTS
#define VF_ASSERTS
[[noreturn]] inline void vf_assert_failed(const char * file, int line, const char * what);
struct VfAsserts { unsigned long evaluated = 0, places = 0; bool seen[1 << 16] = {}; };
inline VfAsserts vf_asserts;
inline bool vf_asserted(const char * file, int line) {
    unsigned n = 0, h = unsigned(line);
    for (; file[n]; n++) {}
    h = (h * 31 + n) & 0xffff;                  // file and line, near enough
    vf_asserts.evaluated++;
    if (!vf_asserts.seen[h]) { vf_asserts.seen[h] = true; vf_asserts.places++; }
    return true;
}
#endif
#undef assert
#define assert(...) (((__builtin_is_constant_evaluated() || vf_asserted(__FILE__, __LINE__)) && bool(__VA_ARGS__)) ? void(0) : vf_assert_failed(__FILE__, __LINE__, #__VA_ARGS__))
