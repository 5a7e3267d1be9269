// Gives the chunk statistics code C names and unpacked arguments; no logic here.
#include "DataMgr/DateDaysEncoder.h"
#include "DataMgr/FixedLengthEncoder.h"
#include "DataMgr/NoneEncoder.h"
namespace {
using namespace hdk::ir;
Context& ctx() {
  static char c[64];
  return *reinterpret_cast<Context*>(c);
}
struct TInt : IntegerType {
  TInt(int size) : IntegerType(ctx(), size, true) {}
};
struct TBool : BooleanType {
  TBool(int) : BooleanType(ctx(), true) {}
};
struct TDec : DecimalType {
  TDec(int size) : DecimalType(ctx(), size, 10, 2, true) {}
};
struct TText : TextType {
  TText() : TextType(ctx(), true) {}
};
struct Elem {
  TText elem;
};
struct TDict : Elem, ExtDictionaryType {
  TDict(int size) : ExtDictionaryType(ctx(), &elem, 1, size) {}
};
struct TDate : DateType {
  TDate(int size) : DateType(ctx(), size, TimeUnit::kDay, true) {}
};
struct TDateS : DateType {
  TDateS(int size) : DateType(ctx(), size, TimeUnit::kSecond, true) {}
};
struct TTime : TimeType {
  TTime(int size) : TimeType(ctx(), size, TimeUnit::kSecond, true) {}
};
struct TStamp : TimestampType {
  TStamp(int) : TimestampType(ctx(), TimeUnit::kMilli, true) {}
};
struct TItv : IntervalType {
  TItv(int size) : IntervalType(ctx(), size, TimeUnit::kSecond, true) {}
};
struct TFp : FloatingPointType {
  TFp(int size) : FloatingPointType(ctx(), size == 4 ? kFloat : kDouble, true) {}
};

template <class E, class T>
struct Enc : E {
  Enc(T mn, T mx, bool nl) : E(nullptr) {
    this->dataMin = mn;
    this->dataMax = mx;
    this->has_nulls = nl;
  }
  void out(T* mn, T* mx, bool* nl) {
    *mn = this->dataMin;
    *mx = this->dataMax;
    *nl = this->has_nulls;
  }
};
}  // namespace

#define ENC(NAME, E, T)                                                                           \
  void v_##NAME##_encoded(T* mn, T* mx, bool* nl, const int8_t* d, size_t n, bool fix) {            \
    Enc<E, T> e(*mn, *mx, *nl);                                                                    \
    e.E::updateStatsEncoded(d, n, fix);                                                            \
    e.out(mn, mx, nl);                                                                             \
  }                                                                                                \
  void v_##NAME##_raw(T* mn, T* mx, bool* nl, const int8_t* d, size_t n) {                          \
    Enc<E, T> e(*mn, *mx, *nl);                                                                    \
    e.E::updateStats(d, n);                                                                        \
    e.out(mn, mx, nl);                                                                             \
  }                                                                                                \
  void v_##NAME##_int(T* mn, T* mx, bool* nl, int64_t v, bool is_null) {                            \
    Enc<E, T> e(*mn, *mx, *nl);                                                                    \
    e.E::updateStats(v, is_null);                                                                  \
    e.out(mn, mx, nl);                                                                             \
  }                                                                                                \
  void v_##NAME##_fp(T* mn, T* mx, bool* nl, double v, bool is_null) {                              \
    Enc<E, T> e(*mn, *mx, *nl);                                                                    \
    e.E::updateStats(v, is_null);                                                                  \
    e.out(mn, mx, nl);                                                                             \
  }                                                                                                \
  void v_##NAME##_reduce(T* mn, T* mx, bool* nl, T mn2, T mx2, bool nl2) {                          \
    Enc<E, T> e(*mn, *mx, *nl), o(mn2, mx2, nl2);                                                  \
    e.E::reduceStats(o);                                                                           \
    e.out(mn, mx, nl);                                                                             \
  }                                                                                                \
  void v_##NAME##_copy(T* mn, T* mx, bool* nl, T mn2, T mx2, bool nl2) {                            \
    Enc<E, T> e(*mn, *mx, *nl), o(mn2, mx2, nl2);                                                  \
    e.E::copyMetadata(&o);                                                                         \
    e.out(mn, mx, nl);                                                                             \
  }                                                                                                \
  void v_##NAME##_new(T* mn, T* mx, bool* nl) {                                                    \
    E e(nullptr);                                                                                  \
    *mn = e.dataMin;                                                                               \
    *mx = e.dataMax;                                                                               \
    *nl = e.has_nulls;                                                                             \
  }                                                                                                \
  void v_##NAME##_reset(T* mn, T* mx, bool* nl) {                                                  \
    Enc<E, T> e(*mn, *mx, *nl);                                                                    \
    e.E::resetChunkStats();                                                                        \
    e.out(mn, mx, nl);                                                                             \
  }
#define IREAD(NAME, E, T, TYPE, SIZE, CSIZE)                                                             \
  bool v_##NAME##_read(T* mn, T* mx, bool* nl, T mn2, T mx2, bool nl2, int64_t* omn, int64_t* omx) { \
    TYPE t(SIZE), c(CSIZE);                                                                                 \
    Enc<E, T> e(*mn, *mx, *nl), o(mn2, mx2, nl2);                                                  \
    ChunkStats s;                                                                                  \
    o.E::fillChunkStats(s, &t);                                                                    \
    *omn = extract_min_stat_int_type(s, &c);                                                       \
    *omx = extract_max_stat_int_type(s, &c);                                                       \
    bool r = e.E::resetChunkStats(s);                                                              \
    e.out(mn, mx, nl);                                                                             \
    return r;                                                                                      \
  }                                                                                                \
  void v_##NAME##_merge(T mn, T mx, bool nl, T mn2, T mx2, bool nl2, int64_t* omn, int64_t* omx, bool* onl) { \
    TYPE t(SIZE), c(CSIZE);                                                                                 \
    ChunkStats s, s2;                                                                              \
    fillChunkStats(s, &t, mn, mx, nl);                                                             \
    fillChunkStats(s2, &t, mn2, mx2, nl2);                                                         \
    mergeStats(s, s2, &t);                                                                         \
    *omn = extract_min_stat_int_type(s, &c);                                                       \
    *omx = extract_max_stat_int_type(s, &c);                                                       \
    *onl = s.has_nulls;                                                                            \
  }
// from the column type: the encoder the factory chooses, fed with stored data, and the statistics it reports
#define ALL(NAME, TYPE, SIZE, FT, FIELD)                                                           \
  void v_##NAME##_all(const int8_t* d, size_t n, FT* omn, FT* omx, bool* onl) {                    \
    TYPE t(SIZE);                                                                                  \
    Encoder* e = Encoder::Create(nullptr, &t);                                                     \
    e->updateStatsEncoded(d, n, false);                                                            \
    ChunkStats s;                                                                                  \
    e->fillChunkStats(s, &t);                                                                      \
    *omn = s.min.FIELD;                                                                            \
    *omx = s.max.FIELD;                                                                            \
    *onl = s.has_nulls;                                                                            \
  }
#define FREAD(NAME, E, T, TYPE, SIZE)                                                             \
  bool v_##NAME##_read(T* mn, T* mx, bool* nl, T mn2, T mx2, bool nl2, double* omn, double* omx) {   \
    TYPE t(SIZE);                                                                                  \
    Enc<E, T> e(*mn, *mx, *nl), o(mn2, mx2, nl2);                                                  \
    ChunkStats s;                                                                                  \
    o.E::fillChunkStats(s, &t);                                                                    \
    *omn = extract_min_stat_fp_type(s, &t);                                                        \
    *omx = extract_max_stat_fp_type(s, &t);                                                        \
    bool r = e.E::resetChunkStats(s);                                                              \
    e.out(mn, mx, nl);                                                                             \
    return r;                                                                                      \
  }                                                                                                \
  void v_##NAME##_merge(T mn, T mx, bool nl, T mn2, T mx2, bool nl2, double* omn, double* omx, bool* onl) { \
    TYPE t(SIZE);                                                                                  \
    ChunkStats s, s2;                                                                              \
    fillChunkStats(s, &t, mn, mx, nl);                                                             \
    fillChunkStats(s2, &t, mn2, mx2, nl2);                                                         \
    mergeStats(s, s2, &t);                                                                         \
    *omn = extract_min_stat_fp_type(s, &t);                                                        \
    *omx = extract_max_stat_fp_type(s, &t);                                                        \
    *onl = s.has_nulls;                                                                            \
  }

using FL8 = FixedLengthEncoder<int64_t, int8_t>;
using FL16 = FixedLengthEncoder<int64_t, int16_t>;
using FL32 = FixedLengthEncoder<int64_t, int32_t>;
using DD16 = DateDaysEncoder<int64_t, int16_t>;
using DD32 = DateDaysEncoder<int64_t, int32_t>;
using DD64 = DateDaysEncoder<int64_t, int64_t>;
extern "C" {
ENC(i8, NoneEncoder<int8_t>, int8_t)
ENC(i16, NoneEncoder<int16_t>, int16_t)
ENC(i32, NoneEncoder<int32_t>, int32_t)
ENC(i64, NoneEncoder<int64_t>, int64_t)
ENC(u8, NoneEncoder<uint8_t>, uint8_t)
ENC(u16, NoneEncoder<uint16_t>, uint16_t)
ENC(f32, NoneEncoder<float>, float)
ENC(f64, NoneEncoder<double>, double)
ENC(fl8, FL8, int64_t)
ENC(fl16, FL16, int64_t)
ENC(fl32, FL32, int64_t)
ENC(dd16, DD16, int64_t)
ENC(dd32, DD32, int64_t)
ENC(dd64, DD64, int64_t)
IREAD(int8, NoneEncoder<int8_t>, int8_t, TInt, 1, 1)
ALL(int8, TInt, 1, int8_t, tinyintval)
IREAD(int16, NoneEncoder<int16_t>, int16_t, TInt, 2, 2)
ALL(int16, TInt, 2, int16_t, smallintval)
IREAD(int32, NoneEncoder<int32_t>, int32_t, TInt, 4, 4)
ALL(int32, TInt, 4, int32_t, intval)
IREAD(int64, NoneEncoder<int64_t>, int64_t, TInt, 8, 8)
ALL(int64, TInt, 8, int64_t, bigintval)
IREAD(bool, NoneEncoder<int8_t>, int8_t, TBool, 1, 1)
ALL(bool, TBool, 1, int8_t, tinyintval)
IREAD(dec64, NoneEncoder<int64_t>, int64_t, TDec, 8, 8)
ALL(dec64, TDec, 8, int64_t, bigintval)
IREAD(dec32, NoneEncoder<int32_t>, int32_t, TDec, 4, 4)
ALL(dec32, TDec, 4, int32_t, intval)
IREAD(dec16, NoneEncoder<int16_t>, int16_t, TDec, 2, 2)
ALL(dec16, TDec, 2, int16_t, smallintval)
IREAD(dict8, NoneEncoder<uint8_t>, uint8_t, TDict, 1, 4)
ALL(dict8, TDict, 1, int32_t, intval)
IREAD(dict16, NoneEncoder<uint16_t>, uint16_t, TDict, 2, 4)
ALL(dict16, TDict, 2, int32_t, intval)
IREAD(dict32, NoneEncoder<int32_t>, int32_t, TDict, 4, 4)
ALL(dict32, TDict, 4, int32_t, intval)
IREAD(date16, DD16, int64_t, TDate, 2, 2)
ALL(date16, TDate, 2, int64_t, bigintval)
IREAD(date32, DD32, int64_t, TDate, 4, 4)
ALL(date32, TDate, 4, int64_t, bigintval)
IREAD(date64, DD64, int64_t, TDate, 8, 8)
ALL(date64, TDate, 8, int64_t, bigintval)
IREAD(dates32, FL32, int64_t, TDateS, 4, 4)
ALL(dates32, TDateS, 4, int64_t, bigintval)
IREAD(dates64, NoneEncoder<int64_t>, int64_t, TDateS, 8, 8)
ALL(dates64, TDateS, 8, int64_t, bigintval)
IREAD(time16, FL16, int64_t, TTime, 2, 2)
ALL(time16, TTime, 2, int64_t, bigintval)
IREAD(time32, FL32, int64_t, TTime, 4, 4)
ALL(time32, TTime, 4, int64_t, bigintval)
IREAD(time64, NoneEncoder<int64_t>, int64_t, TTime, 8, 8)
ALL(time64, TTime, 8, int64_t, bigintval)
IREAD(stamp, NoneEncoder<int64_t>, int64_t, TStamp, 8, 8)
ALL(stamp, TStamp, 8, int64_t, bigintval)
IREAD(interval8, FL8, int64_t, TItv, 1, 1)
ALL(interval8, TItv, 1, int64_t, bigintval)
IREAD(interval, NoneEncoder<int64_t>, int64_t, TItv, 8, 8)
ALL(interval, TItv, 8, int64_t, bigintval)
FREAD(fp32, NoneEncoder<float>, float, TFp, 4)
ALL(fp32, TFp, 4, float, floatval)
FREAD(fp64, NoneEncoder<double>, double, TFp, 8)
ALL(fp64, TFp, 8, double, doubleval)
}
