// Gives the functions of the join build side C names and pointer parameters; no logic here.
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp"
extern "C" {
void v_iter_new(JoinColumnIterator* it, const JoinColumn* c, const JoinColumnTypeInfo* t, size_t start, size_t step) { new (it) JoinColumnIterator(c, t, start, step); }
void v_iter_next(JoinColumnIterator* it) { ++*it; }
bool v_iter_valid(const JoinColumnIterator* it) { return *it; }
int64_t v_iter_elem(const JoinColumnIterator* it) { return (**it).element; }
size_t v_iter_index(const JoinColumnIterator* it) { return (**it).index; }
int v_fill(int32_t* buff, int32_t inv, bool semi, const JoinColumn* c, const JoinColumnTypeInfo* t, const int32_t* map, int32_t idx, int32_t cnt) {
  return fill_hash_join_buff(buff, inv, semi, *c, *t, map, idx, cnt);
}
int v_fill_bucketized(int32_t* buff, int32_t inv, bool semi, const JoinColumn* c, const JoinColumnTypeInfo* t, const int32_t* map, int32_t idx, int32_t cnt, int64_t norm) {
  return fill_hash_join_buff_bucketized(buff, inv, semi, *c, *t, map, idx, cnt, norm);
}
void v_count(int32_t* buff, int32_t inv, const JoinColumn* c, const JoinColumnTypeInfo* t, const int32_t* map, int32_t idx, int32_t cnt) {
  count_matches(buff, inv, *c, *t, map, idx, cnt);
}
void v_count_bucketized(int32_t* buff, int32_t inv, const JoinColumn* c, const JoinColumnTypeInfo* t, const int32_t* map, int32_t idx, int32_t cnt, int64_t norm) {
  count_matches_bucketized(buff, inv, *c, *t, map, idx, cnt, norm);
}
void v_rowids(int32_t* buff, int64_t n, int32_t inv, const JoinColumn* c, const JoinColumnTypeInfo* t, const int32_t* map, int32_t idx, int32_t cnt) {
  fill_row_ids(buff, n, inv, *c, *t, map, idx, cnt);
}
void v_rowids_bucketized(int32_t* buff, int64_t n, int32_t inv, const JoinColumn* c, const JoinColumnTypeInfo* t, const int32_t* map, int32_t idx, int32_t cnt, int64_t norm) {
  fill_row_ids_bucketized(buff, n, inv, *c, *t, map, idx, cnt, norm);
}
int v_write32(int32_t val, int8_t* buff, int64_t n, const int32_t* key, size_t k, bool with_val, int32_t inv, size_t kb, size_t eb) {
  return write_baseline_hash_slot<int32_t>(val, buff, n, key, k, with_val, inv, kb, eb);
}
int v_write64(int32_t val, int8_t* buff, int64_t n, const int64_t* key, size_t k, bool with_val, int32_t inv, size_t kb, size_t eb) {
  return write_baseline_hash_slot<int64_t>(val, buff, n, key, k, with_val, inv, kb, eb);
}
int v_write_semi32(int32_t val, int8_t* buff, int64_t n, const int32_t* key, size_t k, bool with_val, int32_t inv, size_t kb, size_t eb) {
  return write_baseline_hash_slot_for_semi_join<int32_t>(val, buff, n, key, k, with_val, inv, kb, eb);
}
int v_write_semi64(int32_t val, int8_t* buff, int64_t n, const int64_t* key, size_t k, bool with_val, int32_t inv, size_t kb, size_t eb) {
  return write_baseline_hash_slot_for_semi_join<int64_t>(val, buff, n, key, k, with_val, inv, kb, eb);
}
const int32_t* v_find32(const int32_t* key, size_t k, const int32_t* dict, int64_t n, size_t kb) { return get_matching_baseline_hash_slot_readonly<int32_t>(key, k, dict, n, kb); }
const int64_t* v_find64(const int64_t* key, size_t k, const int64_t* dict, int64_t n, size_t kb) { return get_matching_baseline_hash_slot_readonly<int64_t>(key, k, dict, n, kb); }
void v_init(int32_t* b, int64_t n, int32_t inv) { init_hash_join_buff(b, n, inv); }
void v_init_keyed32(int8_t* b, int64_t n, size_t k, bool with_val, int32_t inv) { init_baseline_hash_join_buff_32(b, n, k, with_val, inv); }
void v_init_keyed64(int8_t* b, int64_t n, size_t k, bool with_val, int32_t inv) { init_baseline_hash_join_buff_64(b, n, k, with_val, inv); }
void v_init_baseline32(int8_t* b, int64_t n, size_t k, bool with_val, int32_t inv, int32_t i, int32_t c) { init_baseline_hash_join_buff<int32_t>(b, n, k, with_val, inv, i, c); }
void v_init_baseline64(int8_t* b, int64_t n, size_t k, bool with_val, int32_t inv, int32_t i, int32_t c) { init_baseline_hash_join_buff<int64_t>(b, n, k, with_val, inv, i, c); }
void v_one_to_many(int32_t* buff, size_t n, int64_t norm, bool bucketized, int32_t inv, const JoinColumn* c, const JoinColumnTypeInfo* t, const int32_t* map, unsigned threads) {
  if (bucketized) {
    fill_one_to_many_hash_table_bucketized(buff, HashEntryInfo{n, norm}, inv, *c, *t, map, threads);
  } else {
    fill_one_to_many_hash_table(buff, HashEntryInfo{n, norm}, inv, *c, *t, map, threads);
  }
}
size_t v_normalized_count(size_t n, int64_t norm) { return HashEntryInfo{n, norm}.getNormalizedHashEntryCount(); }
// the callback records that it was called, with which row number, key and key length
int v_key_handler32(const GenericKeyHandler* kh, JoinColumnIterator* its, int32_t* scratch, int64_t* out, int32_t code) {
  return (*kh)(its, scratch, [out, code](const int64_t row, const int32_t* key, const size_t n) { out[0] = 1; out[1] = row; out[2] = n; out[3] = key[0]; return code; });
}
int v_key_handler64(const GenericKeyHandler* kh, JoinColumnIterator* its, int64_t* scratch, int64_t* out, int32_t code) {
  return (*kh)(its, scratch, [out, code](const int64_t row, const int64_t* key, const size_t n) { out[0] = 1; out[1] = row; out[2] = n; out[3] = key[0]; return code; });
}
int v_baseline(int width, int8_t* buff, int64_t n, int32_t inv, bool semi, size_t k, bool with_val, const JoinColumn* c, const JoinColumnTypeInfo* t, const int32_t* const* maps, int32_t threads) {
  const GenericKeyHandler kh(k, true, c, t, maps);
  std::vector<std::future<int>> fs;
  for (int32_t i = 0; i < threads; ++i) {
    fs.push_back(std::async(std::launch::async, [&, i] {
      return width == 4 ? fill_baseline_hash_join_buff_32(buff, n, inv, semi, k, with_val, &kh, c->num_elems, i, threads)
                        : fill_baseline_hash_join_buff_64(buff, n, inv, semi, k, with_val, &kh, c->num_elems, i, threads);
    }));
  }
  int err = 0;
  for (auto& f : fs) {
    const int e = f.get();
    err = e ? e : err;
  }
  return err;
}
void v_one_to_many_baseline(int width, int32_t* buff, const int8_t* dict, int64_t n, int32_t inv, size_t k, const JoinColumn* c, const JoinColumnTypeInfo* t, const int32_t* const* maps, int32_t threads) {
  const std::vector<JoinColumn> cs(c, c + k);
  const std::vector<JoinColumnTypeInfo> ts(t, t + k);
  const std::vector<const int32_t*> ms(maps, maps + k);
  if (width == 4) {
    fill_one_to_many_baseline_hash_table_32(buff, reinterpret_cast<const int32_t*>(dict), n, inv, k, cs, ts, ms, threads);
  } else {
    fill_one_to_many_baseline_hash_table_64(buff, reinterpret_cast<const int64_t*>(dict), n, inv, k, cs, ts, ms, threads);
  }
}
void v_distinct_tuples(uint8_t* hll, uint32_t b, size_t padded, size_t k, const JoinColumn* c, const JoinColumnTypeInfo* t, int threads) {
  approximate_distinct_tuples(hll, b, padded, std::vector<JoinColumn>(c, c + k), std::vector<JoinColumnTypeInfo>(t, t + k), threads);
}
void v_bucket_sizes(double* out, size_t n, const JoinColumn* c, const JoinColumnTypeInfo* t, const double* thr, int threads) {
  std::vector<double> o(out, out + n);
  compute_bucket_sizes_on_cpu(o, *c, *t, std::vector<double>(thr, thr + n), threads);
  std::copy(o.begin(), o.end(), out);
}
}
