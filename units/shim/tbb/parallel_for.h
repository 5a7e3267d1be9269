// Assumed contract on TBB: parallel_for calls the body on sub-ranges that partition the given range.
// Sequential over an arbitrary partition; v_split(n) is an arbitrary number in 1..n.
#pragma once
#define __TBB_parallel_for_H
#include <tbb/blocked_range.h>
#include <tbb/partitioner.h>
extern "C" unsigned long v_split(unsigned long n);
namespace tbb {
template <typename T, typename Body, typename... Rest>
void parallel_for(const blocked_range<T>& r, const Body& body, Rest&&...) {
  for (T i = r.begin(); i < r.end();) {
    T m = i + (T)v_split((unsigned long)(r.end() - i));
    body(blocked_range<T>(i, m));
    i = m;
  }
}
template <typename T, typename Body>
void parallel_for(T first, T last, const Body& body) {
  for (T i = first; i < last; ++i) {
    body(i);
  }
}
}  // namespace tbb
