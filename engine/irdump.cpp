// irdump: LLVM IR -> JSON, for the deductive verifier in this directory.
// Usage: irdump in.bc out.json [native.bc]
// Purely mechanical: every instruction of every defined function is written out, GEPs are lowered to
// byte offsets with the module's DataLayout.  native.bc gets the same module with all definitions
// made externally visible, so that the replay harness can call internal functions.
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
using namespace llvm;
typedef json::Array JA;
typedef json::Object JO;
static const DataLayout* DL;
static std::map<const Value*, int> ids;

static std::string tyStr(Type* t) {
  if (t->isVoidTy()) return "void";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isFloatTy()) return "float";
  if (t->isDoubleTy()) return "double";
  if (t->isPointerTy()) return "ptr";
  if (auto* st = dyn_cast<StructType>(t)) {
    std::string s = "{";
    for (unsigned i = 0; i < st->getNumElements(); ++i) { if (i) s += ","; s += tyStr(st->getElementType(i)); }
    return s + "}";
  }
  if (auto* at = dyn_cast<ArrayType>(t)) return "[" + std::to_string(at->getNumElements()) + "x" + tyStr(at->getElementType()) + "]";
  if (auto* vt = dyn_cast<FixedVectorType>(t)) return "<" + std::to_string(vt->getNumElements()) + "x" + tyStr(vt->getElementType()) + ">";
  if (t->isX86_FP80Ty()) return "fp80";
  return "?";
}
static std::string apStr(const APInt& a) { SmallString<40> s; a.toStringUnsigned(s, 10); return std::string(s); }

static json::Value operand(const Value* v);

static void gepParts(const GEPOperator* g, JO& o) {
  int64_t c = 0; JA vars;
  unsigned i = 1;
  for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++i) {
    const Value* idx = g->getOperand(i);
    if (StructType* st = it.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(idx)->getZExtValue();
      c += DL->getStructLayout(st)->getElementOffset(f);
    } else {
      int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
      if (auto* ci = dyn_cast<ConstantInt>(idx)) c += sz * ci->getSExtValue();
      else { vars.push_back(JA{operand(idx), sz}); }
    }
  }
  o["base"] = operand(g->getPointerOperand());
  o["off"] = c;
  o["vars"] = std::move(vars);
  o["inb"] = g->isInBounds();
}

static bool initBytes(const Constant* c, std::string& out, uint64_t off, JA& relocs) {
  Type* t = c->getType();
  uint64_t sz = DL->getTypeAllocSize(t);
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return true;
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    APInt a = ci->getValue().zext(std::max<unsigned>(64, (ci->getBitWidth() + 63) / 64 * 64));
    for (uint64_t i = 0; i < sz; ++i) out[off + i] = (char)((a.lshr(8 * i)).getRawData()[0] & 0xff);
    return true;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt a = cf->getValueAPF().bitcastToAPInt().zext(128);
    for (uint64_t i = 0; i < sz; ++i) out[off + i] = (char)((a.lshr(8 * i)).getRawData()[0] & 0xff);
    return true;
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); ++i)
      if (!initBytes(cd->getElementAsConstant(i), out, off + i * es, relocs)) return false;
    return true;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i)
      if (!initBytes(ca->getOperand(i), out, off + i * es, relocs)) return false;
    return true;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i)
      if (!initBytes(cs->getOperand(i), out, off + sl->getElementOffset(i), relocs)) return false;
    return true;
  }
  if (t->isPointerTy()) { relocs.push_back(JA{(int64_t)off, operand(c)}); return true; }
  return false;
}

static json::Value operand(const Value* v) {
  auto it = ids.find(v);
  if (it != ids.end()) return JO{{"k", "v"}, {"id", it->second}};
  std::string ty = tyStr(v->getType());
  if (auto* ci = dyn_cast<ConstantInt>(v)) return JO{{"k", "c"}, {"ty", ty}, {"c", apStr(ci->getValue())}};
  if (auto* cf = dyn_cast<ConstantFP>(v)) return JO{{"k", "f"}, {"ty", ty}, {"c", apStr(cf->getValueAPF().bitcastToAPInt())}};
  if (isa<ConstantPointerNull>(v)) return JO{{"k", "null"}, {"ty", ty}};
  if (isa<PoisonValue>(v) || isa<UndefValue>(v)) return JO{{"k", "undef"}, {"ty", ty}};
  if (isa<ConstantAggregateZero>(v)) return JO{{"k", "zero"}, {"ty", ty}};
  if (auto* ga = dyn_cast<GlobalAlias>(v)) return operand(ga->getAliasee());
  if (auto* gv = dyn_cast<GlobalValue>(v)) return JO{{"k", "g"}, {"ty", ty}, {"n", gv->getName().str()}, {"fn", isa<Function>(gv)}};
  if (auto* cs = dyn_cast<ConstantAggregate>(v)) {
    JA a; for (auto& op : cs->operands()) a.push_back(operand(op));
    return JO{{"k", "agg"}, {"ty", ty}, {"e", std::move(a)}};
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(v)) {
    JA a; for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(operand(cd->getElementAsConstant(i)));
    return JO{{"k", "agg"}, {"ty", ty}, {"e", std::move(a)}};
  }
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    JO o{{"k", "e"}, {"ty", ty}, {"op", ce->getOpcodeName()}};
    if (auto* g = dyn_cast<GEPOperator>(ce)) gepParts(g, o);
    else {
      JA a; for (auto& op : ce->operands()) a.push_back(operand(op));
      o["a"] = std::move(a);
      if (ce->isCompare()) o["pred"] = CmpInst::getPredicateName((CmpInst::Predicate)ce->getPredicate()).str();
    }
    return o;
  }
  return JO{{"k", "other"}, {"ty", ty}};
}

int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print(argv[0], errs()); return 2; }
  DL = &m->getDataLayout();
  JO root; JO fns; JO globals; JO decls;
  for (auto& gv : m->globals()) {
    JO g; g["const"] = gv.isConstant();
    uint64_t sz = gv.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(gv.getValueType()) : 0;
    g["size"] = (int64_t)sz; g["ty"] = tyStr(gv.getValueType());
    if (gv.hasInitializer() && sz <= (1u << 20)) {
      std::string b(sz, '\0'); JA rel;
      if (initBytes(gv.getInitializer(), b, 0, rel)) {
        std::string hex; static const char* H = "0123456789abcdef";
        for (unsigned char c : b) { hex += H[c >> 4]; hex += H[c & 15]; }
        g["init"] = hex; g["relocs"] = std::move(rel);
      }
    }
    globals[gv.getName()] = std::move(g);
  }
  for (auto& f : *m) {
    if (f.isDeclaration()) { decls[f.getName()] = JO{{"ret", tyStr(f.getReturnType())}, {"dem", demangle(f.getName().str())}, {"noreturn", f.doesNotReturn()}}; continue; }
    ids.clear(); int n = 0;
    JO fo; JA args;
    unsigned ai = 0;
    for (auto& a : f.args()) {
      ids[&a] = n++;
      JO ao{{"id", ids[&a]}, {"ty", tyStr(a.getType())}, {"name", a.getName().str()}};
      if (a.hasZExtAttr()) ao["zext"] = 1;
      if (a.hasByValAttr()) { ao["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType()); }
      if (a.hasStructRetAttr()) { ao["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType()); }
      if (f.hasParamAttribute(ai, Attribute::ZExt)) ao["zext"] = true;
      args.push_back(std::move(ao)); ++ai;
    }
    for (auto& b : f) ids[&b] = n++;
    for (auto& b : f) for (auto& i : b) ids[&i] = n++;
    fo["args"] = std::move(args); fo["ret"] = tyStr(f.getReturnType()); fo["dem"] = demangle(f.getName().str());
    fo["internal"] = f.hasLocalLinkage(); fo["vararg"] = f.isVarArg();
    JA blocks;
    for (auto& b : f) {
      JA ins;
      for (auto& i : b) {
        if (isa<DbgInfoIntrinsic>(i)) continue;
        JO o{{"id", ids[&i]}, {"op", i.getOpcodeName()}, {"ty", tyStr(i.getType())}};
        if (auto& dl = i.getDebugLoc()) { o["ln"] = (int64_t)dl.getLine(); }
        if (auto* g = dyn_cast<GetElementPtrInst>(&i)) { gepParts(cast<GEPOperator>(g), o); }
        else if (auto* p = dyn_cast<PHINode>(&i)) {
          JA inc; for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) inc.push_back(JA{operand(p->getIncomingValue(k)), ids[p->getIncomingBlock(k)]});
          o["inc"] = std::move(inc);
        } else if (auto* br = dyn_cast<BranchInst>(&i)) {
          if (br->isConditional()) { o["cond"] = operand(br->getCondition()); o["t"] = ids[br->getSuccessor(0)]; o["f"] = ids[br->getSuccessor(1)]; }
          else o["t"] = ids[br->getSuccessor(0)];
        } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
          o["cond"] = operand(sw->getCondition()); o["def"] = ids[sw->getDefaultDest()];
          JA cs; for (auto& c : sw->cases()) cs.push_back(JA{apStr(c.getCaseValue()->getValue()), ids[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs);
        } else if (auto* cb = dyn_cast<CallBase>(&i)) {
          const Value* cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto* fa = dyn_cast<GlobalAlias>(cv)) cv = fa->getAliasee()->stripPointerCasts();
          if (auto* cf = dyn_cast<Function>(cv)) { o["callee"] = cf->getName().str(); }
          else o["calleev"] = operand(cv);
          JA a; JA at; for (auto& x : cb->args()) { a.push_back(operand(x)); at.push_back(tyStr(x->getType())); }
          o["a"] = std::move(a); o["at"] = std::move(at);
          if (isa<InlineAsm>(cv)) o["asm"] = true;
          if (auto* iv = dyn_cast<InvokeInst>(&i)) { o["t"] = ids[iv->getNormalDest()]; o["unw"] = ids[iv->getUnwindDest()]; }
        } else if (auto* al = dyn_cast<AllocaInst>(&i)) {
          o["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()); o["aty"] = tyStr(al->getAllocatedType());
          o["n"] = operand(al->getArraySize());
        } else {
          if (auto* c = dyn_cast<CmpInst>(&i)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
          if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i)) { o["nsw"] = ob->hasNoSignedWrap(); o["nuw"] = ob->hasNoUnsignedWrap(); }
          if (auto* rm = dyn_cast<AtomicRMWInst>(&i)) o["rmw"] = AtomicRMWInst::getOperationName(rm->getOperation()).str();
          if (auto* lp = dyn_cast<LandingPadInst>(&i)) o["catch"] = lp->getNumClauses() > 0;
          if (auto* ev = dyn_cast<ExtractValueInst>(&i)) { JA ix; for (unsigned k : ev->indices()) ix.push_back((int64_t)k); o["ix"] = std::move(ix); }
          if (auto* iv = dyn_cast<InsertValueInst>(&i)) { JA ix; for (unsigned k : iv->indices()) ix.push_back((int64_t)k); o["ix"] = std::move(ix); }
          JA a; JA at; for (auto& x : i.operands()) if (!isa<BasicBlock>(x)) { a.push_back(operand(x)); at.push_back(tyStr(x->getType())); }
          o["a"] = std::move(a); o["at"] = std::move(at);
        }
        ins.push_back(std::move(o));
      }
      blocks.push_back(JO{{"id", ids[&b]}, {"name", b.getName().str()}, {"ins", std::move(ins)}});
    }
    fo["blocks"] = std::move(blocks);
    fns[f.getName()] = std::move(fo);
  }
  root["fns"] = std::move(fns); root["globals"] = std::move(globals); root["decls"] = std::move(decls);
  std::error_code ec; raw_fd_ostream os(argv[2], ec);
  os << json::Value(std::move(root));
  os.close();
  if (argc > 3) {
    for (auto& f : *m) {
      if (!f.isDeclaration()) { f.setLinkage(GlobalValue::ExternalLinkage); f.setVisibility(GlobalValue::DefaultVisibility); f.setComdat(nullptr);
        f.removeFnAttr(Attribute::AlwaysInline); f.setDSOLocal(false); }
    }
    raw_fd_ostream o2(argv[3], ec); WriteBitcodeToFile(*m, o2);
  }
  return 0;
}
