// Compiled runs: a sub-expression is a column whose range the stand-in executor returns.
#include "shim_er/executor.h"
#include "exprrange.h"
static Sub subs[8];
static int n_subs;
static bool null_div;
extern "C" void v_reset(bool z) {
  n_subs = 0;
  null_div = z;
}
const hdk::ir::Expr* v_sub(void*, const hdk::ir::Type* t, const Sub& s) {
  subs[n_subs] = s;
  return new hdk::ir::ColumnVar(t, 1, 1, n_subs++, 0);
}
const Executor* v_executor() {
  static Executor e;
  return &e;
}
const std::vector<InputTableInfo>& v_infos() {
  static std::vector<InputTableInfo> v(1);
  return v;
}
const Config& Executor::getConfig() const {
  static Config c;
  c.exec.codegen.null_div_by_zero = null_div;
  return c;
}
bool Executor::containsLeftDeepOuterJoin() const { return false; }
ExpressionRange Executor::getColRange(const PhysicalInput& p) const { return subs[p.col_id].range(); }
// whole functions, compiled runs only
using namespace hdk::ir;
static const Type* type_of(int kind, int u) {
  auto& ctx = Context::defaultCtx();
  switch (kind) {
    case 0:
      return ctx.integer(u);
    case 1:
      return u == 4 ? (const Type*)ctx.fp32() : ctx.fp64();
    case 3:
      return ctx.date64(TimeUnit::kSecond);
    default:
      return ctx.timestamp((TimeUnit)u);
  }
}
static int put(const ExpressionRange& r, int64_t* mn, int64_t* mx, double* fmn, double* fmx, int64_t* bk, uint8_t* nl) {
  if (r.getType() == ExpressionRangeType::Integer) {
    *mn = r.getIntMin();
    *mx = r.getIntMax();
  } else if (r.getType() == ExpressionRangeType::Float || r.getType() == ExpressionRangeType::Double) {
    *fmn = r.getFpMin();
    *fmx = r.getFpMax();
  }
  if (r.getType() != ExpressionRangeType::Invalid) {
    *bk = r.getBucket();
    *nl = r.hasNulls();
  }
  return (int)r.getType();
}
#define OUT int64_t *mn, int64_t *mx, double *fmn, double *fmx, int64_t *bk, uint8_t *nl
#define TO mn, mx, fmn, fmx, bk, nl
extern "C" int v_qual(int n, const int* op, const int* vu, const int* wrap, const int* other, const int64_t* cv, const double* cf, int kind, int u, int vk, int rk, int64_t a, int64_t b, double fa, double fb, bool nulls, OUT) {
  v_reset(false);
  auto t = type_of(kind, u);
  std::list<ExprPtr> quals;
  for (int i = 0; i < n; i++) {
    auto ct = type_of(vk, vu[i]);
    Datum d;
    d.bigintval = cv[i];
    if (vk == 1) {
      if (vu[i] == 4)
        d.floatval = cf[i];
      else
        d.doubleval = cf[i];
    }
    ExprPtr col = std::make_shared<ColumnVar>(t, 1, 1, other[i] ? 5 : 0, 0);
    if (wrap[i])
      col = std::make_shared<UOper>(ct, OpType::kCast, col);
    quals.push_back(std::make_shared<BinOper>(Context::defaultCtx().boolean(), (OpType)op[i], Qualifier::kOne, col, std::make_shared<Constant>(ct, false, d)));
  }
  Sub s{rk, a, b, 0, fa, fb, nulls};
  auto col = std::make_shared<ColumnVar>(t, 1, 1, 0, 0);
  return put(apply_simple_quals(col.get(), s.range(), quals), TO);
}
extern "C" int v_case(int n, int kind, int u, const int* rk, const int64_t* a, const int64_t* b, const int64_t* p, const uint8_t* nulls, bool else_null, OUT) {
  v_reset(false);
  auto t = type_of(kind, u);
  auto cond = std::make_shared<ColumnVar>(Context::defaultCtx().boolean(), 1, 1, 3, 0);
  std::list<std::pair<ExprPtr, ExprPtr>> pairs;
  ExprPtr last;
  for (int i = 0; i < n; i++) {
    ExprPtr e(v_sub(nullptr, t, Sub{rk[i], a[i], b[i], p[i], 0, 0, (bool)nulls[i]}));
    if (i + 1 < n)
      pairs.push_back({cond, e});
    else
      last = else_null ? std::make_shared<Constant>(t, true, Datum{}) : e;
  }
  auto e = std::make_shared<CaseExpr>(t, false, pairs, last);
  return put(getExpressionRange(e.get(), v_infos(), v_executor(), boost::none), TO);
}
