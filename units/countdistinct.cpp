// Instantiates the header-only functions of the count-distinct sets so that their code exists to be verified; no logic here.
#include "ResultSet/CountDistinct.h"
extern "C" {
size_t v_bitmap_set_size(const int8_t* b, const size_t n) { return bitmap_set_size(b, n); }
void v_bitmap_set_union(int8_t* l, int8_t* r, const size_t n) { bitmap_set_union(l, r, n); }
void v_partial_bitmap_union(int8_t* s, const CountDistinctDescriptor* d) { partial_bitmap_union(s, *d); }
void v_hll_unify_88(int8_t* l, int8_t* r, const size_t m) { hll_unify(l, r, m); }
void v_hll_unify_44(int32_t* l, int32_t* r, const size_t m) { hll_unify(l, r, m); }
void v_hll_unify_48(int32_t* l, int8_t* r, const size_t m) { hll_unify(l, r, m); }
void v_hll_unify_84(int8_t* l, int32_t* r, const size_t m) { hll_unify(l, r, m); }
uint32_t v_count_zeros8(const int8_t* m, const size_t n) { return count_zeros(m, n); }
uint32_t v_count_zeros32(const int32_t* m, const size_t n) { return count_zeros(m, n); }
size_t v_bitmap_bits_to_bytes(const size_t n) { return bitmap_bits_to_bytes(n); }
size_t v_bitmapSizeBytes(const CountDistinctDescriptor* d) { return d->bitmapSizeBytes(); }
size_t v_bitmapPaddedSizeBytes(const CountDistinctDescriptor* d) { return d->bitmapPaddedSizeBytes(); }
void v_count_distinct_set_union(int64_t n, int64_t o, const CountDistinctDescriptor* nd, const CountDistinctDescriptor* od) { count_distinct_set_union(n, o, *nd, *od); }
int64_t v_count_distinct_set_size(int64_t s, const CountDistinctDescriptor* d) { return count_distinct_set_size(s, *d); }
}
