// The array runtime with C names; string_decompress stands for the dictionary (external).
#include <cassert>
#include "Shared/sqltypes.h"
#include "Shared/checked_alloc.h"
#include "Utils/ChunkIter.cpp"
#ifndef EXECUTE_INCLUDE
#define EXECUTE_INCLUDE
#endif
#include "QueryEngine/ArrayOps.cpp"
extern "C" {
void v_array_nth(ChunkIter* it, int n, ArrayDatum* r, bool* e) { ChunkIter_get_nth(it, n, r, e); }
void v_array_nth_varlen(ChunkIter* it, int n, ArrayDatum* r, bool* e) { ChunkIter_get_nth_varlen(it, n, r, e); }
void v_array_nth_notnull(ChunkIter* it, int n, ArrayDatum* r, bool* e) { ChunkIter_get_nth_varlen_notnull(it, n, r, e); }
void v_nth(ChunkIter* it, int n, bool u, VarlenDatum* r, bool* e) { ChunkIter_get_nth(it, n, u, r, e); }
void v_next(ChunkIter* it, bool u, VarlenDatum* r, bool* e) { ChunkIter_get_next(it, u, r, e); }
void v_reset(ChunkIter* it) { ChunkIter_reset(it); }
// distinct values of one array row
size_t v_distinct(int8_t* it, uint64_t row, int w, int64_t null, int64_t* out, size_t cap) {
  robin_hood::unordered_set<int64_t> s;
  int64_t agg = reinterpret_cast<int64_t>(&s);
  const double dn = *reinterpret_cast<const double*>(&null);
  switch (w) {
    case 1: agg_count_distinct_array_int8_t(&agg, it, row, null); break;
    case 2: agg_count_distinct_array_int16_t(&agg, it, row, null); break;
    case 4: agg_count_distinct_array_int32_t(&agg, it, row, null); break;
    case 8: agg_count_distinct_array_int64_t(&agg, it, row, null); break;
    case -4: agg_count_distinct_array_float(&agg, it, row, dn); break;
    case -8: agg_count_distinct_array_double(&agg, it, row, dn); break;
  }
  size_t n = 0;
  for (auto x : s) {
    if (n < cap) {
      out[n] = x;
    }
    n++;
  }
  return n;
}
}
