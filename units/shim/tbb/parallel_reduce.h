// Assumed contract on TBB: parallel_reduce folds the body over sub-ranges that partition the range, in order, joining
// partial results; whether a sub-range continues an accumulator or starts from the identity is arbitrary (v_split).
#pragma once
#define __TBB_parallel_reduce_H
#include <tbb/blocked_range.h>
#include <tbb/partitioner.h>
extern "C" unsigned long v_split(unsigned long n);
namespace tbb {
template <typename T, typename V, typename Body, typename Join, typename... Rest>
V parallel_reduce(const blocked_range<T>& r, const V& identity, const Body& body, const Join& join, Rest&&...) {
  V acc = identity;
  for (T i = r.begin(); i < r.end();) {
    T m = i + (T)v_split((unsigned long)(r.end() - i));
    acc = v_split(2) == 1 ? body(blocked_range<T>(i, m), acc) : join(acc, body(blocked_range<T>(i, m), identity));
    i = m;
  }
  return acc;
}
}  // namespace tbb
