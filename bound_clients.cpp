// Clients of the bounds analysis (C++ wrappers): compiled and analysed, never run.
#include <roaring64map.hh>
#include <roaring/roaring_array.h>
#include "bound_directory.h"
extern "C" void __vf_region(const void *p, size_t n);
extern "C" void __vf_equal(size_t a, size_t b);
extern "C" void __vf_assume(bool c);
extern "C" void __vf_directory(const void *containers, int32_t n);

extern "C" void p10_cpp_readSafe(const char *buf, size_t n) {
    __vf_region(buf, n);
    roaring::Roaring::readSafe(buf, n);
}
extern "C" void p10_cpp_frozenView(const char *buf, size_t n) {
    __vf_region(buf, n);
    roaring::Roaring::frozenView(buf, n);
}
extern "C" void p10_cpp_map_readSafe(const char *buf, size_t n) {
    __vf_region(buf, n);
    roaring::Roaring64Map::readSafe(buf, n);
}

// P13 for the C++ class. Its only member is the bitmap.
using namespace roaring::api;
using roaring::internal::ra_has_run_container;
#define P13(name, portable, A, B)                                                                       \
    extern "C" void p13_cpp_##name(const roaring::Roaring *x, char *__restrict buf) {                    \
        const roaring_bitmap_t *r = (const roaring_bitmap_t *)x;                                         \
        DIRECTORY(r);                                                                                    \
        A(r); B(r);                                                                                      \
        size_t n = x->getSizeInBytes(portable);                                                          \
        __vf_region(buf, n);                                                                             \
        __vf_equal(n, x->write(buf, portable));                                                          \
    }
P13(portable_run_short, true, HEADER_RUN_SHORT, ANY)
P13(portable_run_long, true, HEADER_RUN_LONG, ANY)
P13(portable_norun, true, HEADER_NORUN, ANY)
P13(native_array_run_short, false, HEADER_RUN_SHORT, AS_ARRAY)
P13(native_array_run_long, false, HEADER_RUN_LONG, AS_ARRAY)
P13(native_array_norun, false, HEADER_NORUN, AS_ARRAY)
P13(native_run_short, false, HEADER_RUN_SHORT, AS_CONTAINERS)
P13(native_run_long, false, HEADER_RUN_LONG, AS_CONTAINERS)
P13(native_norun, false, HEADER_NORUN, AS_CONTAINERS)
extern "C" void p13_cpp_frozen(const roaring::Roaring *x, char *__restrict buf) {
    const roaring_bitmap_t *r = (const roaring_bitmap_t *)x;
    DIRECTORY(r);
    size_t n = x->getFrozenSizeInBytes();
    __vf_region(buf, n);
    x->writeFrozen(buf);
}
