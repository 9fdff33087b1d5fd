// Histories of several calls: compiled to bitcode together with the library and
// analysed from here with arbitrary bitmaps, never run.
#define R32 roaring_bitmap_t
#define R64 roaring64_bitmap_t
// --- 32-bit: a result and its operands live on independently
#define AFTER2(op) \
    void roaring_client_##op##_then_modify_result(const R32 *a, const R32 *b, uint32_t x) { R32 *o = roaring_bitmap_##op(a, b); if (!o) return; roaring_bitmap_add(o, x); roaring_bitmap_free(o); }
AFTER2(and) AFTER2(or) AFTER2(xor) AFTER2(andnot)
#define INPL(op) \
    void roaring_client_##op##_inplace_then_modify(R32 *a, R32 *b, uint32_t x) { roaring_bitmap_##op##_inplace(a, b); roaring_bitmap_add(a, x); roaring_bitmap_remove(b, x); }
INPL(andnot)
#define LAZY(op, conv) \
    void roaring_client_lazy_##op##_repaired(const R32 *a, const R32 *b, uint32_t x) { R32 *o = roaring_bitmap_lazy_##op(a, b conv); if (!o) return; roaring_bitmap_repair_after_lazy(o); roaring_bitmap_add(o, x); roaring_bitmap_free(o); } \
    void roaring_client_lazy_##op##_inplace_repaired(const R32 *a, const R32 *b) { R32 *o = roaring_bitmap_copy(a); if (!o) return; roaring_bitmap_lazy_##op##_inplace(o, b conv); roaring_bitmap_repair_after_lazy(o); roaring_bitmap_free(o); }
#define COMMA_TRUE , true
LAZY(or, COMMA_TRUE) LAZY(xor, )
void roaring_client_copy_then_modify_copy(const R32 *a, uint32_t x) { R32 *c = roaring_bitmap_copy(a); if (!c) return; roaring_bitmap_add(c, x); roaring_bitmap_free(c); }
void roaring_client_copy_then_optimize(R32 *a) { R32 *c = roaring_bitmap_copy(a); if (!c) return; roaring_bitmap_run_optimize(c); roaring_bitmap_remove_run_compression(a); roaring_bitmap_free(c); }
void roaring_client_copy_then_shrink(R32 *a) { R32 *c = roaring_bitmap_copy(a); if (!c) return; roaring_bitmap_shrink_to_fit(c); roaring_bitmap_shrink_to_fit(a); roaring_bitmap_free(c); }
void roaring_client_copy_of_copy(const R32 *a, uint32_t x) { R32 *c = roaring_bitmap_copy(a); if (!c) return; R32 *d = roaring_bitmap_copy(c); roaring_bitmap_free(c); if (!d) return; roaring_bitmap_add(d, x); roaring_bitmap_free(d); }
void roaring_client_copy_then_clear(R32 *a, uint32_t x) { R32 *c = roaring_bitmap_copy(a); if (!c) return; roaring_bitmap_clear(a); roaring_bitmap_add(a, x); roaring_bitmap_free(c); }
void roaring_client_overwrite_then_modify(const R32 *a, const R32 *b, uint32_t x) { R32 *c = roaring_bitmap_copy(a); if (!c) return; if (roaring_bitmap_overwrite(c, b)) roaring_bitmap_add(c, x); roaring_bitmap_free(c); }
void roaring_client_read_back(const char *buf, size_t n, uint32_t x) { R32 *c = roaring_bitmap_portable_deserialize_safe(buf, n); if (!c) return; roaring_bitmap_add(c, x); roaring_bitmap_run_optimize(c); roaring_bitmap_free(c); }
void roaring_client_read_back_native(const void *buf, size_t n, uint32_t x) { R32 *c = roaring_bitmap_deserialize_safe(buf, n); if (!c) return; roaring_bitmap_remove(c, x); roaring_bitmap_free(c); }
void roaring_client_view_shared(const char *buf, size_t n) { const R32 *c = roaring_bitmap_frozen_view(buf, n); if (!c) return; const R32 *d = roaring_bitmap_frozen_view(buf, n); roaring_bitmap_free(c); if (d) roaring_bitmap_free(d); }
// --- 32-bit iterators and cursors
uint32_t roaring_client_it_heap(const R32 *a) { roaring_uint32_iterator_t *i = roaring_iterator_create(a); if (!i) return 0; uint32_t s = 0; while (i->has_value) { s += i->current_value; roaring_uint32_iterator_advance(i); } roaring_uint32_iterator_free(i); return s; }
uint32_t roaring_client_it_copy(const R32 *a) { roaring_uint32_iterator_t *i = roaring_iterator_create(a); if (!i) return 0; roaring_uint32_iterator_t *j = roaring_uint32_iterator_copy(i); roaring_uint32_iterator_free(i); if (!j) return 0; uint32_t s = 0; while (j->has_value) { s += j->current_value; roaring_uint32_iterator_previous(j); } roaring_uint32_iterator_free(j); return s; }
uint32_t roaring_client_it_seek(const R32 *a, uint32_t v) { roaring_uint32_iterator_t i; roaring_iterator_init(a, &i); if (roaring_uint32_iterator_move_equalorlarger(&i, v)) roaring_uint32_iterator_previous(&i); roaring_uint32_iterator_advance(&i); return i.has_value ? i.current_value : 0; }
uint32_t roaring_client_it_last(const R32 *a, uint32_t *buf, uint32_t n) { roaring_uint32_iterator_t i; roaring_iterator_init_last(a, &i); roaring_uint32_iterator_previous(&i); uint32_t g = roaring_uint32_iterator_read(&i, buf, n); roaring_uint32_iterator_advance(&i); return g + (i.has_value ? i.current_value : 0); }
void roaring_client_bulk_add(R32 *a, uint32_t x, uint32_t y, uint32_t z) { roaring_bulk_context_t c = {0}; roaring_bitmap_add_bulk(a, &c, x); roaring_bitmap_add_bulk(a, &c, y); roaring_bitmap_add_bulk(a, &c, z); }
bool roaring_client_bulk_contains(const R32 *a, uint32_t x, uint32_t y) { roaring_bulk_context_t c = {0}; return roaring_bitmap_contains_bulk(a, &c, x) && roaring_bitmap_contains_bulk(a, &c, y) && roaring_bitmap_contains_bulk(a, &c, x); }
void roaring_client_stats(const R32 *a, roaring_statistics_t *st) { roaring_bitmap_statistics(a, st); st->cardinality += st->n_containers + st->n_values_run_containers + st->max_value + st->min_value; }
// --- bitset
void roaring_client_bitset(size_t n, size_t i, size_t m) { bitset_t *b = bitset_create_with_capacity(n); if (!b) return; bitset_set(b, i); if (bitset_resize(b, m, true)) bitset_set(b, i); bitset_t *c = bitset_copy(b); bitset_free(b); if (!c) return; bitset_trim(c); bitset_clear(c); bitset_fill(c); bitset_free(c); }
void roaring_client_to_bitset(const R32 *a, size_t i) { bitset_t *b = bitset_create(); if (!b) return; if (roaring_bitmap_to_bitset(a, b)) { bitset_set(b, i); bitset_shift_left(b, i); bitset_shift_right(b, i); } bitset_free(b); }
// --- 64-bit
#define AFTER64(op) \
    void roaring64_client_##op##_inplace_then_modify(R64 *a, const R64 *b, uint64_t x) { roaring64_bitmap_##op##_inplace(a, b); roaring64_bitmap_add(a, x); }
AFTER64(and) AFTER64(or) AFTER64(xor) AFTER64(andnot)
void roaring64_client_bulk(R64 *a, uint64_t x, uint64_t y, uint64_t z) { roaring64_bulk_context_t c = {0}; roaring64_bitmap_add_bulk(a, &c, x); roaring64_bitmap_add_bulk(a, &c, y); roaring64_bitmap_add_bulk(a, &c, z); }
void roaring64_client_bulk_remove(R64 *a, uint64_t x, uint64_t y) { roaring64_bulk_context_t c = {0}; roaring64_bitmap_remove_bulk(a, &c, x); roaring64_bitmap_remove_bulk(a, &c, y); roaring64_bitmap_remove_bulk(a, &c, x); }
void roaring64_client_bulk_mixed(R64 *a, uint64_t x, uint64_t y) { roaring64_bulk_context_t c = {0}; roaring64_bitmap_add_bulk(a, &c, x); roaring64_bitmap_contains_bulk(a, &c, y); roaring64_bitmap_remove_bulk(a, &c, y); roaring64_bitmap_add_bulk(a, &c, x); }
uint64_t roaring64_client_it(const R64 *a) { roaring64_iterator_t *i = roaring64_iterator_create(a); if (!i) return 0; uint64_t s = 0; while (roaring64_iterator_has_value(i)) { s += roaring64_iterator_value(i); roaring64_iterator_advance(i); } roaring64_iterator_free(i); return s; }
uint64_t roaring64_client_it_copy(const R64 *a, uint64_t v) { roaring64_iterator_t *i = roaring64_iterator_create_last(a); if (!i) return 0; roaring64_iterator_t *j = roaring64_iterator_copy(i); roaring64_iterator_free(i); if (!j) return 0; roaring64_iterator_previous(j); roaring64_iterator_advance(j); uint64_t s = roaring64_iterator_move_equalorlarger(j, v) ? roaring64_iterator_value(j) : 0; roaring64_iterator_free(j); return s; }
uint64_t roaring64_client_it_reinit(const R64 *a, const R64 *b, uint64_t v) { roaring64_iterator_t *i = roaring64_iterator_create(a); if (!i) return 0; roaring64_iterator_advance(i); roaring64_iterator_reinit_last(b, i); roaring64_iterator_previous(i); roaring64_iterator_reinit(b, i); uint64_t g = roaring64_iterator_has_value(i) && roaring64_iterator_value(i) < v; roaring64_iterator_free(i); return g; }
