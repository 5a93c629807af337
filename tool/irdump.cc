// irdump: read LLVM bitcode, normalise it lightly, write the functions that are
// reachable from the requested roots as JSON lines for the Python analyses.
#include "llvm/ADT/SmallVector.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace llvm;
static const DataLayout * DL;
static std::string q(const std::string & s) {
  std::string o = "\"";
  char buf[8];
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { o += '\\'; o += c; }
    else if(c < 0x20 || c >= 0x7f) { snprintf(buf, 8, "\\u%04x", c); o += buf; }
    else o += c;
  }
  return o + "\"";
}
static std::string tstr(Type * t) {
  std::string s; raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}
static std::string ty(Type * t) {
  if(t->isStructTy()) {
    std::string o = "[\"s\"";
    auto * st = cast<StructType>(t);
    const StructLayout * sl = st->isSized() ? DL->getStructLayout(st) : nullptr;
    for(unsigned i = 0; i < st->getNumElements(); ++i)
      o += ",[" + std::to_string(sl ? (uint64_t)sl->getElementOffset(i) : 0) + "," + ty(st->getElementType(i)) + "]";
    return o + "]";
  }
  if(t->isArrayTy())
    return "[\"a\"," + std::to_string(t->getArrayNumElements()) + "," + std::to_string(DL->getTypeAllocSize(t->getArrayElementType()).getFixedValue()) + "," + ty(t->getArrayElementType()) + "]";
  return q(tstr(t));
}
static uint64_t tsize(Type * t) {
  return t->isSized() ? DL->getTypeStoreSize(t).getKnownMinValue() : 0;
}
static std::map<const Value *, int> ids;
static std::vector<const GlobalValue *> work;
static std::set<const GlobalValue *> seen;
static void want(const GlobalValue * g) { if(seen.insert(g).second) work.push_back(g); }
static std::string gepj(const GEPOperator * g);
static std::string val(const Value * v);
static std::string cst(const Constant * c) {
  if(auto * i = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; i->getValue().toString(s, 10, false);
    return "[\"i\"," + std::to_string(i->getBitWidth()) + ",\"" + std::string(s.str()) + "\"]";
  }
  if(auto * f = dyn_cast<ConstantFP>(c)) {
    bool li; APFloat a = f->getValueAPF();
    a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    std::ostringstream o; o.precision(17); o << a.convertToDouble();
    return "[\"f\",\"" + o.str() + "\"]";
  }
  if(isa<ConstantPointerNull>(c)) return "[\"null\"]";
  if(isa<UndefValue>(c)) return "[\"undef\"]";
  if(isa<ConstantAggregateZero>(c)) return "[\"zero\"," + ty(c->getType()) + "," + std::to_string(tsize(c->getType())) + "]";
  if(auto * g = dyn_cast<GlobalAlias>(c)) return cst(g->getAliasee());
  if(auto * g = dyn_cast<GlobalValue>(c)) { want(g); return "[\"g\"," + q(g->getName().str()) + "]"; }
  if(auto * d = dyn_cast<ConstantDataSequential>(c)) {
    if(d->isString() ) return "[\"str\"," + q(d->getAsString().str()) + "]";
    std::string o = "[\"agg\"," + std::to_string(DL->getTypeAllocSize(d->getElementType()).getFixedValue());
    for(unsigned i = 0; i < d->getNumElements(); ++i) o += "," + cst(d->getElementAsConstant(i));
    return o + "]";
  }
  if(auto * a = dyn_cast<ConstantAggregate>(c)) {
    if(auto * st = dyn_cast<StructType>(a->getType())) {
      const StructLayout * sl = DL->getStructLayout(st);
      std::string o = "[\"sagg\"";
      for(unsigned i = 0; i < a->getNumOperands(); ++i)
        o += ",[" + std::to_string((uint64_t)sl->getElementOffset(i)) + "," + cst(a->getOperand(i)) + "," + ty(a->getOperand(i)->getType()) + "]";
      return o + "]";
    }
    std::string o = "[\"agg\"," + std::to_string(DL->getTypeAllocSize(a->getType()->isArrayTy() ? a->getType()->getArrayElementType() : a->getOperand(0)->getType()).getFixedValue());
    for(unsigned i = 0; i < a->getNumOperands(); ++i) o += "," + cst(a->getOperand(i));
    return o + "]";
  }
  if(auto * ce = dyn_cast<ConstantExpr>(c)) {
    if(auto * g = dyn_cast<GEPOperator>(ce)) return "[\"gep\"," + gepj(g) + "]";
    std::string o = "[\"ce\",\"" + std::string(ce->getOpcodeName()) + "\"," + ty(ce->getType());
    for(auto & op : ce->operands()) o += "," + val(op);
    return o + "]";
  }
  return "[\"unk\"]";
}
static std::string val(const Value * v) {
  if(auto * c = dyn_cast<Constant>(v)) return cst(c);
  if(auto * b = dyn_cast<BasicBlock>(v)) return "[\"b\"," + std::to_string(ids[b]) + "]";
  if(isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return "[\"md\"]";
  return std::to_string(ids[v]);
}
static std::string gepj(const GEPOperator * g) {
  // base, constant offset, [[idx, scale]...]
  int64_t off = 0; std::string var;
  for(auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    const Value * idx = it.getOperand();
    if(StructType * st = it.getStructTypeOrNull()) {
      off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
      continue;
    }
    int64_t sc = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
    if(auto * ci = dyn_cast<ConstantInt>(idx)) off += sc * ci->getSExtValue();
    else var += std::string(var.empty() ? "" : ",") + "[" + val(idx) + "," + std::to_string(sc) + "]";
  }
  return val(g->getPointerOperand()) + "," + std::to_string(off) + ",[" + var + "]";
}
int main(int argc, char ** argv) {
  if(argc < 4) { errs() << "irdump in.bc out.jsonl passes root...\n"; return 2; }
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if(!m) { err.print("irdump", errs()); return 2; }
  std::string passes = argv[3];
  for(auto & f : *m) { f.removeFnAttr(Attribute::OptimizeNone); f.removeFnAttr(Attribute::NoInline); }
  if(passes != "-") {
    LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    PassBuilder pb;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam);
    pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
    ModulePassManager mpm;
    if(auto e = pb.parsePassPipeline(mpm, passes)) { errs() << toString(std::move(e)) << "\n"; return 2; }
    mpm.run(*m, mam);
  }
  DL = &m->getDataLayout();
  std::ofstream out(argv[2]);
  bool any = false;
  for(auto & f : *m) {
    if(f.isDeclaration()) continue;
    for(int i = 4; i < argc; ++i) {
      StringRef pat(argv[i]);
      bool hit = pat.ends_with("*") ? f.getName().starts_with(pat.drop_back()) : f.getName() == pat;
      if(hit) { want(&f); any = true; }
    }
  }
  if(!any) { errs() << "irdump: no root found\n"; return 3; }
  if(auto * gc = m->getNamedGlobal("llvm.global_ctors")) want(gc);
  while(!work.empty()) {
    const GlobalValue * g = work.back(); work.pop_back();
    if(auto * gv = dyn_cast<GlobalVariable>(g)) {
      std::string init = gv->hasInitializer() ? cst(gv->getInitializer()) : "null";
      out << "{\"k\":\"g\",\"n\":" << q(gv->getName().str()) << ",\"const\":" << (gv->isConstant() ? 1 : 0)
          << ",\"d\":" << q(demangle(gv->getName().str())) << ",\"sz\":" << tsize(gv->getValueType()) << ",\"t\":" << ty(gv->getValueType()) << ",\"init\":" << init << "}\n";
      continue;
    }
    auto * f = dyn_cast<Function>(g);
    if(!f) continue;
    ids.clear();
    int n = 0;
    std::string hdr = "{\"k\":\"f\",\"n\":" + q(f->getName().str()) + ",\"d\":" + q(demangle(f->getName().str()));
    if(f->doesNotReturn()) hdr += ",\"noret\":1";
    hdr += ",\"ret\":" + ty(f->getReturnType());
    hdr += ",\"args\":[";
    bool first = true;
    for(auto & a : f->args()) {
      ids[&a] = n;
      std::string extra;
      if(a.hasStructRetAttr()) extra = ",\"sret\"," + std::to_string(tsize(a.getParamStructRetType()));
      else if(a.hasByValAttr()) extra = ",\"byval\"," + std::to_string(tsize(a.getParamByValType()));
      hdr += std::string(first ? "" : ",") + "[" + std::to_string(n) + "," + ty(a.getType()) + extra + "]"; first = false; ++n;
    }
    hdr += "]";
    if(f->isDeclaration()) { out << hdr << ",\"decl\":1}\n"; continue; }
    if(auto * sp = f->getSubprogram()) {
      hdr += ",\"file\":" + q(sp->getDirectory().str() + "|" + sp->getFilename().str()) + ",\"line\":" + std::to_string(sp->getLine());
    }
    for(auto & b : *f) { ids[&b] = n++; for(auto & i : b) ids[&i] = n++; }
    out << hdr << ",\"blocks\":[";
    bool fb = true;
    for(auto & b : *f) {
      out << (fb ? "" : ",") << "[" << ids[&b] << ",["; fb = false;
      bool fi = true;
      for(auto & i : b) {
        if(isa<DbgInfoIntrinsic>(i)) continue;
        if(auto * ii = dyn_cast<IntrinsicInst>(&i)) if(ii->isLifetimeStartOrEnd() || ii->isAssumeLikeIntrinsic()) { if(!isa<DbgInfoIntrinsic>(i) && i.getType()->isVoidTy()) continue; }
        std::string s = std::string(fi ? "" : ",") + "[" + std::to_string(ids[&i]) + ",\"" + i.getOpcodeName() + "\"," + ty(i.getType()); fi = false;
        int line = 0; std::string fl;
        if(auto & dl = i.getDebugLoc()) { line = dl.getLine(); }
        if(auto * c = dyn_cast<CmpInst>(&i)) s += ",\"" + CmpInst::getPredicateName(c->getPredicate()).str() + "\"," + ty(c->getOperand(0)->getType()) + "," + val(c->getOperand(0)) + "," + val(c->getOperand(1));
        else if(auto * g = dyn_cast<GetElementPtrInst>(&i)) s += "," + gepj(cast<GEPOperator>(g));
        else if(auto * l = dyn_cast<LoadInst>(&i)) s += "," + val(l->getPointerOperand()) + "," + std::to_string(tsize(l->getType()));
        else if(auto * st = dyn_cast<StoreInst>(&i)) s += "," + val(st->getValueOperand()) + "," + ty(st->getValueOperand()->getType()) + "," + val(st->getPointerOperand()) + "," + std::to_string(tsize(st->getValueOperand()->getType()));
        else if(auto * a = dyn_cast<AllocaInst>(&i)) s += "," + std::to_string(DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue()) + "," + val(a->getArraySize());
        else if(auto * p = dyn_cast<PHINode>(&i)) {
          for(unsigned k = 0; k < p->getNumIncomingValues(); ++k) s += ",[" + std::to_string(ids[p->getIncomingBlock(k)]) + "," + val(p->getIncomingValue(k)) + "]";
        }
        else if(auto * br = dyn_cast<BranchInst>(&i)) {
          if(br->isConditional()) s += "," + val(br->getCondition()) + "," + std::to_string(ids[br->getSuccessor(0)]) + "," + std::to_string(ids[br->getSuccessor(1)]);
          else s += "," + std::to_string(ids[br->getSuccessor(0)]);
        }
        else if(auto * sw = dyn_cast<SwitchInst>(&i)) {
          s += "," + val(sw->getCondition()) + "," + std::to_string(ids[sw->getDefaultDest()]) + ",[";
          bool f1 = true;
          for(auto & c : sw->cases()) { s += std::string(f1 ? "" : ",") + "[" + val(c.getCaseValue()) + "," + std::to_string(ids[c.getCaseSuccessor()]) + "]"; f1 = false; }
          s += "]";
        }
        else if(auto * cb = dyn_cast<CallBase>(&i)) {
          s += "," + val(cb->getCalledOperand()) + ",[";
          for(unsigned k = 0; k < cb->arg_size(); ++k) s += std::string(k ? "," : "") + val(cb->getArgOperand(k));
          s += "],[";
          for(unsigned k = 0; k < cb->arg_size(); ++k) s += std::string(k ? "," : "") + ty(cb->getArgOperand(k)->getType());
          s += "]," + std::to_string(cb->doesNotReturn() ? 1 : 0);
          if(auto * inv = dyn_cast<InvokeInst>(&i)) s += "," + std::to_string(ids[inv->getNormalDest()]) + "," + std::to_string(ids[inv->getUnwindDest()]);
        }
        else if(auto * ev = dyn_cast<ExtractValueInst>(&i)) { s += "," + val(ev->getAggregateOperand()) + ",["; bool f1 = true; for(unsigned k : ev->indices()) { s += (f1 ? "" : ",") + std::to_string(k); f1 = false; } s += "]"; }
        else if(auto * iv = dyn_cast<InsertValueInst>(&i)) { s += "," + val(iv->getAggregateOperand()) + "," + val(iv->getInsertedValueOperand()) + ",["; bool f1 = true; for(unsigned k : iv->indices()) { s += (f1 ? "" : ",") + std::to_string(k); f1 = false; } s += "]"; }
        else if(auto * rm = dyn_cast<AtomicRMWInst>(&i)) s += ",\"" + AtomicRMWInst::getOperationName(rm->getOperation()).str() + "\"," + val(rm->getPointerOperand()) + "," + val(rm->getValOperand());
        else if(auto * ca = dyn_cast<CastInst>(&i)) s += "," + ty(ca->getSrcTy()) + "," + val(ca->getOperand(0));
        else for(auto & op : i.operands()) s += "," + val(op);
        s += ",{\"l\":" + std::to_string(line);
        if(auto & dl = i.getDebugLoc()) {
          auto * sc = dyn_cast_or_null<DIScope>(dl.getScope());
          if(sc) s += ",\"f\":" + q(sc->getFilename().str());
        }
        s += "}]";
        out << s;
      }
      out << "]]";
    }
    out << "]}\n";
  }
  return 0;
}
