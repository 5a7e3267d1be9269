// The element-wise join build used on CPU, with a C name; no logic here.
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.h"
#include "QueryEngine/RuntimeFunctions.h"
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.cpp"
extern "C" int v_fill_bucketized_cpu(int32_t* buff, int32_t inv, bool semi, const JoinColumn* c, const JoinColumnTypeInfo* t, const int32_t* map, int64_t norm) {
  return fill_hash_join_buff_bucketized_cpu(buff, inv, semi, *c, *t, map, norm);
}
