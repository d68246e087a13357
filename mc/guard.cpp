// Stands between the library and the assembly routines, which the sanitizer cannot see into: what they are told to read
// and write must be memory of the caller.
#include <cstddef>
#if __has_include(<sanitizer/asan_interface.h>)
#include <sanitizer/asan_interface.h>
#endif

namespace {
void touch(const unsigned char* p, std::size_t n) {
#if defined(__SANITIZE_ADDRESS__) || defined(ADDRESS_SANITIZER) || __has_include(<sanitizer/asan_interface.h>)
    if (n == 0) return;
    // an instrumented access reports what is wrong with it
    if (void* bad = __asan_region_is_poisoned(const_cast<unsigned char*>(p), n)) (void)*static_cast<volatile unsigned char*>(bad);
#endif
}
}  // namespace

#define GUARD(name)                                                                                                    \
    extern "C" __attribute__((weak)) void __real_##name(unsigned char*, const unsigned char*, std::size_t);            \
    extern "C" void __wrap_##name(unsigned char* output, const unsigned char* input, std::size_t blocks) {             \
        touch(input, 64 * blocks);                                                                                     \
        touch(output, 32 * blocks);                                                                                    \
        __real_##name(output, input, blocks);                                                                          \
    }
GUARD(sha256_shani)
GUARD(sha256_8_avx2)
GUARD(sha256_4_avx)
