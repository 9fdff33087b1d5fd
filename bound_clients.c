/* Clients of the bounds analysis: compiled and analysed, never run. */
#include <roaring/roaring.h>
#include <roaring/roaring64.h>
#include <roaring/roaring_array.h>
void __vf_region(const void *p, size_t n);
void __vf_equal(size_t a, size_t b);
void __vf_assume(bool c);
void __vf_directory(const void *containers, int32_t n);

void p10_portable_deserialize_safe(const char *buf, size_t n) {
    __vf_region(buf, n);
    roaring_bitmap_portable_deserialize_safe(buf, n);
}
void p10_portable_deserialize_size(const char *buf, size_t n) {
    __vf_region(buf, n);
    roaring_bitmap_portable_deserialize_size(buf, n);
}
void p10_deserialize_safe(const char *buf, size_t n) {
    __vf_region(buf, n);
    roaring_bitmap_deserialize_safe(buf, n);
}
void p10_frozen_view(const char *buf, size_t n) {
    __vf_region(buf, n);
    roaring_bitmap_frozen_view(buf, n);
}
void p10_portable_deserialize_safe64(const char *buf, size_t n) {
    __vf_region(buf, n);
    roaring64_bitmap_portable_deserialize_safe(buf, n);
}
void p10_portable_deserialize_size64(const char *buf, size_t n) {
    __vf_region(buf, n);
    roaring64_bitmap_portable_deserialize_size(buf, n);
}

/* P13: the announced size and what is written. One client for each form of the header. */
#include "bound_directory.h"
#define P13(name, size, write, A, B)                                     \
    void p13_##name(const roaring_bitmap_t *r, char *restrict buf) {     \
        DIRECTORY(r);                                                    \
        A(r); B(r);                                                      \
        size_t n = size(r);                                              \
        __vf_region(buf, n);                                             \
        size_t w = write(r, buf);                                        \
        __vf_equal(n, w);                                                \
    }
P13(portable_run_short, roaring_bitmap_portable_size_in_bytes, roaring_bitmap_portable_serialize, HEADER_RUN_SHORT, ANY)
P13(portable_run_long, roaring_bitmap_portable_size_in_bytes, roaring_bitmap_portable_serialize, HEADER_RUN_LONG, ANY)
P13(portable_norun, roaring_bitmap_portable_size_in_bytes, roaring_bitmap_portable_serialize, HEADER_NORUN, ANY)
P13(native_array_run_short, roaring_bitmap_size_in_bytes, roaring_bitmap_serialize, HEADER_RUN_SHORT, AS_ARRAY)
P13(native_array_run_long, roaring_bitmap_size_in_bytes, roaring_bitmap_serialize, HEADER_RUN_LONG, AS_ARRAY)
P13(native_array_norun, roaring_bitmap_size_in_bytes, roaring_bitmap_serialize, HEADER_NORUN, AS_ARRAY)
P13(native_run_short, roaring_bitmap_size_in_bytes, roaring_bitmap_serialize, HEADER_RUN_SHORT, AS_CONTAINERS)
P13(native_run_long, roaring_bitmap_size_in_bytes, roaring_bitmap_serialize, HEADER_RUN_LONG, AS_CONTAINERS)
P13(native_norun, roaring_bitmap_size_in_bytes, roaring_bitmap_serialize, HEADER_NORUN, AS_CONTAINERS)
void p13_frozen(const roaring_bitmap_t *r, char *restrict buf) {
    DIRECTORY(r);
    size_t n = roaring_bitmap_frozen_size_in_bytes(r);
    __vf_region(buf, n);
    roaring_bitmap_frozen_serialize(r, buf);
}
