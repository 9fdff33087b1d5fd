/* The bitmap that is written: what the clients of P13 assume of it. */
/* Its containers, and one case for each form of the header and of the result. */
#define DIRECTORY(r)                                                 \
    __vf_assume((r)->high_low_container.size >= 0);                  \
    __vf_assume((r)->high_low_container.size <= 65536);              \
    __vf_directory((r)->high_low_container.containers, (r)->high_low_container.size)
#define HAS_RUN(r) ra_has_run_container(&(r)->high_low_container)
#define HEADER_RUN_SHORT(r) __vf_assume(HAS_RUN(r)); __vf_assume((r)->high_low_container.size < 4); __vf_assume((r)->high_low_container.size > 0)
#define HEADER_RUN_LONG(r) __vf_assume(HAS_RUN(r)); __vf_assume((r)->high_low_container.size >= 4)
#define HEADER_NORUN(r) __vf_assume(!HAS_RUN(r))
#define AS_ARRAY(r) __vf_assume(roaring_bitmap_portable_size_in_bytes(r) >= roaring_bitmap_get_cardinality(r) * 4 + 4)
#define AS_CONTAINERS(r) __vf_assume(roaring_bitmap_portable_size_in_bytes(r) < roaring_bitmap_get_cardinality(r) * 4 + 4)
#define ANY(r)
