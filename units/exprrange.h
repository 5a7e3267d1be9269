#pragma once
// A sub-expression: its range is what the callee's contract says, any range that encloses its values.
struct Sub {
  int kind;  // 0 invalid, 1 integer, 2 float, 3 double
  int64_t mn, mx, bucket;
  double fmn, fmx;
  bool nulls;
  ExpressionRange range() const {
    switch (kind) {
      case 1:
        return ExpressionRange::makeIntRange(mn, mx, bucket, nulls);
      case 2:
        return ExpressionRange::makeFloatRange(fmn, fmx, nulls);
      case 3:
        return ExpressionRange::makeDoubleRange(fmn, fmx, nulls);
      default:
        return ExpressionRange::makeInvalidRange();
    }
  }
};
// defined for compiled runs in exprrange_nat.cpp; modelled in the proofs
const hdk::ir::Expr* v_sub(void* room, const hdk::ir::Type* t, const Sub& s);
const Executor* v_executor();
const std::vector<InputTableInfo>& v_infos();
extern "C" void v_reset(bool null_div_by_zero);
