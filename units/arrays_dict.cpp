// A dictionary for concrete runs: id i >= 0 is the string of i bytes "abcabc...".
#include <cstdint>
extern "C" uint64_t string_decompress(const int32_t id, const int64_t handle) {
  static const char s[] = "abcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabc";
  return (reinterpret_cast<uint64_t>(s) & 0xffffffffffff) | (static_cast<uint64_t>(id) << 48);
}
