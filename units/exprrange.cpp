// Gives the expression range code C names and unpacked arguments; no logic here.
#include "shim_er/executor.h"
#include "QueryEngine/ExpressionRange.cpp"
#include "exprrange.h"
#include <new>
namespace {
using namespace hdk::ir;
using R = ExpressionRange;
Context& ctx() {
  static char c[64];
  return *reinterpret_cast<Context*>(c);
}
struct TInt : IntegerType {
  TInt(int size, bool n) : IntegerType(ctx(), size, n) {}
};
struct TFp : FloatingPointType {
  TFp(int size, bool n) : FloatingPointType(ctx(), size == 4 ? kFloat : kDouble, n) {}
};
struct TDec : DecimalType {
  TDec(int scale, bool n) : DecimalType(ctx(), 8, 18, scale, n) {}
};
struct TDate : DateType {
  TDate(bool n) : DateType(ctx(), 8, TimeUnit::kSecond, n) {}
};
struct TTime : TimeType {
  TTime(TimeUnit u, bool n) : TimeType(ctx(), 8, u, n) {}
};
struct TStamp : TimestampType {
  TStamp(TimeUnit u, bool n) : TimestampType(ctx(), u, n) {}
};
enum Kind { INT, FP, DEC, DATE, TIME, STAMP };
struct Room {
  alignas(16) char b[64];
};
const Type* mk(Room& r, int kind, int x, bool n) {
  switch (kind) {
    case INT:
      return new (r.b) TInt(x, n);
    case FP:
      return new (r.b) TFp(x, n);
    case DEC:
      return new (r.b) TDec(x, n);
    case DATE:
      return new (r.b) TDate(n);
    case TIME:
      return new (r.b) TTime((TimeUnit)x, n);
    default:
      return new (r.b) TStamp((TimeUnit)x, n);
  }
}
#define OUT int64_t *mn, int64_t *mx, int64_t *bk, uint8_t *nl
#define OUTF double *mn, double *mx, int64_t *bk, uint8_t *nl
int put(const R& r, OUT) {
  if (r.getType() == ExpressionRangeType::Integer) {
    *mn = r.getIntMin();
    *mx = r.getIntMax();
    *bk = r.getBucket();
    *nl = r.hasNulls();
  }
  return (int)r.getType();
}
int putf(const R& r, OUTF) {
  if (r.getType() == ExpressionRangeType::Float || r.getType() == ExpressionRangeType::Double) {
    *mn = r.getFpMin();
    *mx = r.getFpMax();
    *bk = r.getBucket();
    *nl = r.hasNulls();
  }
  return (int)r.getType();
}
struct SubExpr : Expr {
  Sub s;
  SubExpr(const Type* t, const Sub& s) : Expr(t), s(s) {}
  ExprPtr withType(const Type*) const override { return nullptr; }
  bool operator==(const Expr&) const override { return false; }
  std::string toString() const override { return {}; }
};
struct Place {
  alignas(16) char b[256];
};
ExprPtr ref(const Expr* e) { return ExprPtr(std::shared_ptr<void>(), e); }
}  // namespace
// the model of getExpressionRange(sub-expression), and of a sub-expression
ExpressionRange v_sub_range(const hdk::ir::Expr* e) { return static_cast<const SubExpr*>(e)->s.range(); }
const hdk::ir::Expr* v_sub_model(void* room, const hdk::ir::Type* t, const Sub& s) { return new (room) SubExpr(t, s); }
namespace {
struct Arg {
  Room t;
  Place e;
  const Expr* p;
  Arg(int kind, int x, bool n, const Sub& s) { p = v_sub(e.b, mk(t, kind, x, n), s); }
};
template <class T>
R go(const T& node) {
  return getExpressionRange(&node, v_infos(), v_executor(), boost::none);
}
template <class T>
struct Keep {  // no destructor call
  alignas(T) char b[sizeof(T)];
  template <class... A>
  const T& operator()(A&&... a) {
    return *new (b) T(std::forward<A>(a)...);
  }
};
}  // namespace
#define TO mn, mx, bk, nl
// x and y are values of the operands, for the contracts
extern "C" {
#define BIN(name, expr)                                                                                              \
  int v_int_##name(int64_t a, int64_t b, bool n, int64_t c, int64_t d, bool m, bool z, int64_t x, int64_t y, OUT) {  \
    auto p = R::makeIntRange(a, b, 7, n), q = R::makeIntRange(c, d, 7, m);                                           \
    return put(expr, TO);                                                                                            \
  }                                                                                                                  \
  int v_dbl_##name(double a, double b, bool n, double c, double d, bool m, bool z, OUTF) {                           \
    auto p = R::makeDoubleRange(a, b, n), q = R::makeDoubleRange(c, d, m);                                           \
    return putf(expr, TO);                                                                                           \
  }                                                                                                                  \
  int v_flt_##name(float a, float b, bool n, float c, float d, bool m, bool z, OUTF) {                               \
    auto p = R::makeFloatRange(a, b, n), q = R::makeFloatRange(c, d, m);                                             \
    return putf(expr, TO);                                                                                           \
  }
BIN(add, p + q)
BIN(sub, p - q)
BIN(mul, p* q)
BIN(div, p.div(q, z))
int v_mixed(int op, int k1, int k2) {  // operands of different kinds
  Sub a{k1, 1, 2, 0, 1, 2, false}, b{k2, 1, 2, 0, 1, 2, false};
  auto x = a.range(), y = b.range();
  auto r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : op == 3 ? x.div(y, false) : x || y;
  return (int)r.getType();
}
int v_int_or(int64_t a, int64_t b, int64_t p, bool n, int64_t c, int64_t d, int64_t q, bool m, int64_t x, OUT) {
  return put(R::makeIntRange(a, b, p, n) || R::makeIntRange(c, d, q, m), TO);
}
int v_dbl_or(double a, double b, bool n, double c, double d, bool m, double x, OUTF) {
  return putf(R::makeDoubleRange(a, b, n) || R::makeDoubleRange(c, d, m), TO);
}
int v_flt_or(float a, float b, bool n, float c, float d, bool m, float x, OUTF) {
  return putf(R::makeFloatRange(a, b, n) || R::makeFloatRange(c, d, m), TO);
}
bool v_int_eq(int64_t a, int64_t b, bool n, int64_t c, int64_t d, bool m) {
  return R::makeIntRange(a, b, 0, n) == R::makeIntRange(c, d, 0, m);
}
bool v_dbl_eq(double a, double b, bool n, double c, double d, bool m) {
  return R::makeDoubleRange(a, b, n) == R::makeDoubleRange(c, d, m);
}
// EXTRACT, DATE_TRUNC and CAST of a sub-expression of the given type and range
int v_extract(int field, int kind, int u, bool n, int sk, int64_t a, int64_t b, int64_t p, bool an, int64_t x, OUT) {
  v_reset(false);
  Arg s(kind, u, n, Sub{sk, a, b, p, 0, 0, an});
  Room t;
  Keep<hdk::ir::ExtractExpr> k;
  return put(go(k(mk(t, INT, 8, n), false, (DateExtractField)field, ref(s.p))), TO);
}
int v_trunc(int field, int kind, int u, bool n, int sk, int64_t a, int64_t b, int64_t p, bool an, int64_t x, int64_t y, OUT) {
  v_reset(false);
  Arg s(kind, u, n, Sub{sk, a, b, p, 0, 0, an});
  Room t;
  Keep<hdk::ir::DateTruncExpr> k;
  return put(go(k(mk(t, kind, u, n), false, (DateTruncField)field, ref(s.p))), TO);
}
#define CAST(name, S, O, P, ...)                                                                                  \
  int v_cast_##name(int kind, int u, bool n, int to, int w, int sk, S a, S b, int64_t p, bool an, S x, O) {       \
    v_reset(false);                                                                                               \
    Arg s(kind, u, n, Sub{sk, __VA_ARGS__, an});                                                                  \
    Room t;                                                                                                       \
    Keep<hdk::ir::UOper> k;                                                                                       \
    return P(go(k(mk(t, to, w, n), OpType::kCast, ref(s.p))), TO);                                                \
  }
CAST(ii, int64_t, OUT, put, a, b, p, 0, 0)
CAST(if, int64_t, OUTF, putf, a, b, p, 0, 0)
CAST(fi, double, OUT, put, 0, 0, p, a, b)
CAST(ff, double, OUTF, putf, 0, 0, p, a, b)
int v_binary(int op, int kind, int u, bool n, bool z, int sk, int64_t a, int64_t b, bool an, int sk2, int64_t c, int64_t d, bool am, int64_t x, int64_t y, OUT) {
  v_reset(z);
  Arg s(kind, u, n, Sub{sk, a, b, 0, 0, 0, an}), r(kind, u, n, Sub{sk2, c, d, 0, 0, 0, am});
  Room t;
  Keep<hdk::ir::BinOper> k;
  return put(go(k(mk(t, kind, u, n), (OpType)op, Qualifier::kOne, ref(s.p), ref(r.p))), TO);
}
}
