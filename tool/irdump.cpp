// irdump: print the resolved program (LLVM IR + debug info) of one module as JSON.
//   irdump in.bc source-prefix[:source-prefix...] > out.json
// Only functions whose debug-info file lies under one of the prefixes are
// printed with a body; all others appear as declarations.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
using namespace llvm;
using json::Array; using json::Object; using json::Value;
typedef json::Value JV;

static const DataLayout *DL;
static std::vector<std::string> prefixes;
static std::map<const llvm::Value *, int> ids;
static std::map<std::string, JV> classes;
static std::set<const DICompositeType *> seenClass;

static std::string ditype(const DIType *t);
static std::string scopeName(const DIScope *s) {
  if (!s || isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
  if (auto *ct = dyn_cast<DICompositeType>(s)) {
    std::string p = scopeName(ct->getScope());
    return (p.empty() ? "" : p + "::") + ct->getName().str();
  }
  if (auto *ns = dyn_cast<DINamespace>(s)) {
    std::string p = scopeName(ns->getScope());
    return (p.empty() ? "" : p + "::") + ns->getName().str();
  }
  if (auto *sp = dyn_cast<DISubprogram>(s)) {
    std::string p = scopeName(sp->getScope());
    return (p.empty() ? "" : p + "::") + sp->getName().str() + "()";
  }
  return scopeName(s->getScope());
}
static void noteClass(const DICompositeType *ct);
static std::string ditype(const DIType *t) {
  if (!t) return "void";
  if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return ditype(d->getBaseType()) + "*";
    case dwarf::DW_TAG_reference_type: return ditype(d->getBaseType()) + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return ditype(d->getBaseType()) + "&&";
    case dwarf::DW_TAG_const_type: return "const " + ditype(d->getBaseType());
    case dwarf::DW_TAG_volatile_type: return ditype(d->getBaseType());
    case dwarf::DW_TAG_typedef: return ditype(d->getBaseType());
    default: return d->getName().str();
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = ditype(c->getBaseType());
      for (auto *e : c->getElements())
        if (auto *sr = dyn_cast<DISubrange>(e)) {
          auto cnt = sr->getCount();
          if (auto *ci = dyn_cast_if_present<ConstantInt *>(cnt)) s += "[" + std::to_string(ci->getSExtValue()) + "]";
          else s += "[]";
        }
      return s;
    }
    noteClass(c);
    std::string p = scopeName(c->getScope());
    return (p.empty() ? "" : p + "::") + c->getName().str();
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return "?";
}
static bool inRepo(StringRef dir, StringRef file) {
  std::string f = file.str();
  if (!f.empty() && f[0] != '/') f = dir.str() + "/" + f;
  for (auto &p : prefixes) if (f.compare(0, p.size(), p) == 0) return true;
  return false;
}
static void noteClass(const DICompositeType *ct) {
  if (!seenClass.insert(ct).second) return;
  if (ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type) return;
  if (ct->isForwardDecl()) return;
  std::string p = scopeName(ct->getScope());
  std::string nm = (p.empty() ? "" : p + "::") + ct->getName().str();
  Array mem;
  for (auto *e : ct->getElements()) {
    auto *d = dyn_cast_or_null<DIDerivedType>(e);
    if (!d || d->isStaticMember()) continue;
    if (d->getTag() == dwarf::DW_TAG_member || d->getTag() == dwarf::DW_TAG_inheritance) {
      mem.push_back(Object{{"n", d->getTag() == dwarf::DW_TAG_member ? d->getName().str() : std::string("<base>")},
                     {"o", (int64_t)d->getOffsetInBits() / 8},
                     {"t", ditype(d->getBaseType())},
                     {"s", (int64_t)(d->getBaseType() ? d->getBaseType()->getSizeInBits() : 0) / 8}});
    }
  }
  std::string file; 
  if (ct->getFile()) { file = ct->getFile()->getFilename().str(); if (!file.empty() && file[0] != '/') file = ct->getFile()->getDirectory().str() + "/" + file; }
  classes.erase(nm); classes.emplace(nm, Object{{"size", (int64_t)ct->getSizeInBits() / 8}, {"m", std::move(mem)}, {"file", file}, {"line", (int64_t)ct->getLine()}});
}

static JV constv(const Constant *c);
static JV val(const llvm::Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constv(c);
  if (auto *a = dyn_cast<Argument>(v)) return Array{"a", (int64_t)a->getArgNo()};
  if (isa<BasicBlock>(v)) return Array{"b", 0};
  if (isa<MetadataAsValue>(v)) return Array{"md"};
  if (isa<InlineAsm>(v)) return Array{"asm"};
  auto it = ids.find(v);
  return Array{"i", (int64_t)(it == ids.end() ? -1 : it->second)};
}
static JV constv(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) return Array{"o"};
    return Array{"c", ci->getSExtValue(), (int64_t)ci->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(c)) return Array{"null"};
  if (isa<PoisonValue>(c)) return Array{"undef"};
  if (isa<UndefValue>(c)) return Array{"undef"};
  if (auto *f = dyn_cast<Function>(c)) return Array{"f", f->getName().str()};
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constv(ga->getAliasee());
  if (auto *g = dyn_cast<GlobalVariable>(c)) return Array{"g", g->getName().str(), 0};
  if (auto *fp = dyn_cast<ConstantFP>(c)) {
    if (&fp->getValueAPF().getSemantics() == &APFloat::IEEEdouble()) return Array{"fp", fp->getValueAPF().convertToDouble()};
    return Array{"o"};
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    APInt off(64, 0);
    if (ce->getType()->isPointerTy()) {
      const llvm::Value *b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *g = dyn_cast<GlobalVariable>(b)) return Array{"g", g->getName().str(), off.getSExtValue()};
    }
    return Array{"o"};
  }
  if (isa<ConstantAggregateZero>(c)) return Array{"zero"};
  return Array{"o"};
}
// Flatten a constant initializer to (offset, size, value) triples.
static void flat(const Constant *c, int64_t off, Array &out, int depth = 0) {
  Type *t = c->getType();
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    unsigned es = cds->getElementByteSize();
    if (cds->isString()) { 
      std::string s = cds->getAsString().str();
      std::string hex; for (unsigned char ch : s) { char b[3]; snprintf(b, 3, "%02x", ch); hex += b; }
      out.push_back(Array{off, (int64_t)s.size(), Array{"s", hex}}); return; }
    for (unsigned i = 0; i < cds->getNumElements(); i++) out.push_back(Array{off + (int64_t)es * i, (int64_t)es, constv(cds->getElementAsConstant(i))});
    return;
  }
  if (isa<ConstantAggregateZero>(c)) { out.push_back(Array{off, (int64_t)DL->getTypeAllocSize(t).getFixedValue(), Array{"zero"}}); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    int64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) flat(ca->getOperand(i), off + es * i, out, depth + 1);
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) flat(cs->getOperand(i), off + (int64_t)sl->getElementOffset(i), out, depth + 1);
    return;
  }
  out.push_back(Array{off, (int64_t)DL->getTypeStoreSize(t).getFixedValue(), constv(c)});
}
static std::string tk(Type *t) {
  if (t->isPointerTy()) return "p";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isFloatingPointTy()) return "f";
  if (t->isVoidTy()) return "v";
  return "x";
}
static int64_t tsize(Type *t) { return t->isSized() ? (int64_t)DL->getTypeStoreSize(t).getFixedValue() : 0; }

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  { StringRef s(argv[2]); SmallVector<StringRef, 8> v; s.split(v, ':'); for (auto &x : v) prefixes.push_back(x.str()); }

  Array globals;
  for (auto &g : M->globals()) {
    Object o{{"n", g.getName().str()}, {"const", g.isConstant()}, {"tls", g.isThreadLocal()}, {"decl", g.isDeclaration()},
             {"size", (int64_t)(g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0)},
             {"int", g.hasLocalLinkage()}, {"dem", demangle(g.getName().str())}};
    SmallVector<DIGlobalVariableExpression *, 1> dbg; g.getDebugInfo(dbg);
    std::string file; int line = 0; std::string nm, ty, sc;
    for (auto *e : dbg) { auto *v = e->getVariable(); if (v->getFile()) { file = v->getFilename().str(); if (!file.empty() && file[0] != '/') file = v->getDirectory().str() + "/" + file; } line = v->getLine(); nm = v->getName().str(); ty = ditype(v->getType()); sc = scopeName(v->getScope()); }
    o["file"] = file; o["line"] = line; o["sn"] = nm; o["ty"] = ty; o["sc"] = sc;
    if (g.hasInitializer()) { Array a; flat(g.getInitializer(), 0, a); o["init"] = std::move(a); }
    globals.push_back(std::move(o));
  }

  Array funcs;
  for (auto &F : *M) {
    Object fo;
    fo["n"] = F.getName().str();
    fo["dem"] = demangle(F.getName().str());
    fo["int"] = F.hasLocalLinkage();
    fo["nr"] = F.doesNotReturn();
    fo["rt"] = tk(F.getReturnType());
    bool body = !F.isDeclaration();
    auto *SP = F.getSubprogram();
    if (SP) {
      std::string f = SP->getFilename().str(); std::string d = SP->getDirectory().str();
      if (!f.empty() && f[0] != '/') f = d + "/" + f;
      fo["file"] = f; fo["line"] = (int64_t)SP->getLine(); fo["sn"] = SP->getName().str();
      body = body && inRepo(d, SP->getFilename());
      const DISubprogram *D = SP->getDeclaration() ? SP->getDeclaration() : SP;
      if (auto *ct = dyn_cast_or_null<DICompositeType>(D->getScope())) {
        fo["cls"] = ditype(ct);
        fo["acc"] = D->isPrivate() ? "private" : D->isProtected() ? "protected" : D->isPublic() ? "public" : (ct->getTag() == dwarf::DW_TAG_class_type ? "private" : "public");
        fo["art"] = (bool)(D->getFlags() & DINode::FlagArtificial);
        fo["explicit"] = (bool)(D->getFlags() & DINode::FlagExplicit);
      }
      fo["ns"] = scopeName(D->getScope());
      if (auto *st = SP->getType()) { Array ts; for (auto *t : st->getTypeArray()) ts.push_back(ditype(t)); fo["dts"] = std::move(ts); }
      // Parameter names
      Object an;
      for (auto *n : SP->getRetainedNodes()) if (auto *lv = dyn_cast<DILocalVariable>(n)) if (lv->getArg()) an[std::to_string(lv->getArg())] = lv->getName().str();
      fo["argn"] = std::move(an);
    } else { body = false; }
    Array as;
    for (auto &A : F.args()) {
      Object ao{{"n", A.getName().str()}, {"t", tk(A.getType())}};
      if (A.hasStructRetAttr()) { ao["sret"] = true; ao["sz"] = tsize(A.getParamStructRetType()); }
      if (A.hasByValAttr()) ao["byval"] = true;
      as.push_back(std::move(ao));
    }
    fo["args"] = std::move(as);
    fo["def"] = body; fo["anydef"] = !F.isDeclaration();
    if (body) {
      ids.clear(); int n = 0; std::map<const BasicBlock *, int> bid; int b = 0;
      for (auto &B : F) { bid[&B] = b++; for (auto &I : B) ids[&I] = n++; }
      Array bs;
      // local variable declarations: alloca -> (name, type)
      Object lv;
      for (auto &B : F) for (auto &I : B) if (auto *dd = dyn_cast<DbgDeclareInst>(&I)) {
        if (auto *ai = dd->getAddress()) if (ids.count(ai)) lv[std::to_string(ids[ai])] = Array{dd->getVariable()->getName().str(), ditype(dd->getVariable()->getType()), (int64_t)dd->getVariable()->getLine(), (int64_t)dd->getVariable()->getArg()};
        if (auto *ai = dyn_cast_or_null<Argument>(dd->getAddress())) lv["a" + std::to_string(ai->getArgNo())] = Array{dd->getVariable()->getName().str(), ditype(dd->getVariable()->getType()), (int64_t)dd->getVariable()->getLine(), (int64_t)dd->getVariable()->getArg()};
      }
      fo["lv"] = std::move(lv);
      for (auto &B : F) {
        Array is;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          Object o; o["id"] = ids[&I];
          if (I.getDebugLoc()) { o["l"] = (int64_t)I.getDebugLoc().getLine(); }
          Array ops;
          std::string op = I.getOpcodeName();
          if (auto *x = dyn_cast<AllocaInst>(&I)) {
            o["sz"] = (int64_t)DL->getTypeAllocSize(x->getAllocatedType()).getFixedValue();
            o["n"] = x->getName().str(); o["t"] = tk(x->getAllocatedType());
            if (x->isArrayAllocation()) { o["cnt"] = val(x->getArraySize()); }
            if (auto *st = dyn_cast<StructType>(x->getAllocatedType())) if (st->hasName()) o["st"] = st->getName().str();
          } else if (auto *x = dyn_cast<LoadInst>(&I)) {
            o["sz"] = tsize(x->getType()); o["t"] = tk(x->getType()); o["n"] = x->getName().str();
          } else if (auto *x = dyn_cast<StoreInst>(&I)) {
            o["sz"] = tsize(x->getValueOperand()->getType()); o["t"] = tk(x->getValueOperand()->getType());
          } else if (auto *x = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<llvm::Value *, APInt> vo; APInt co(64, 0);
            op = "gep";
            if (x->collectOffset(*DL, 64, vo, co)) {
              o["off"] = co.getSExtValue(); Array va;
              for (auto &p : vo) va.push_back(Array{val(p.first), p.second.getSExtValue()});
              o["var"] = std::move(va);
            } else o["off"] = nullptr;
            o["ib"] = x->isInBounds(); o["n"] = x->getName().str();
          } else if (auto *x = dyn_cast<ICmpInst>(&I)) {
            o["pr"] = ICmpInst::getPredicateName(x->getPredicate()).str(); o["t"] = tk(x->getOperand(0)->getType());
          } else if (auto *x = dyn_cast<FCmpInst>(&I)) {
            o["pr"] = FCmpInst::getPredicateName(x->getPredicate()).str();
          } else if (auto *x = dyn_cast<BinaryOperator>(&I)) {
            o["t"] = tk(x->getType());
            if (auto *ob = dyn_cast<OverflowingBinaryOperator>(x)) { o["nsw"] = ob->hasNoSignedWrap(); o["nuw"] = ob->hasNoUnsignedWrap(); }
          } else if (auto *x = dyn_cast<CastInst>(&I)) {
            o["ft"] = tk(x->getSrcTy()); o["t"] = tk(x->getDestTy()); o["n"] = x->getName().str();
          } else if (auto *x = dyn_cast<CallBase>(&I)) {
            op = isa<InvokeInst>(x) ? "invoke" : "call";
            const llvm::Value *cv = x->getCalledOperand();
            if (auto *f = dyn_cast<Function>(cv->stripPointerCasts())) o["fn"] = f->getName().str(); else if (auto *ga = dyn_cast<GlobalAlias>(cv)) { auto *f = dyn_cast<Function>(ga->getAliasee()); o["fn"] = f ? f->getName().str() : std::string("?"); } else o["fv"] = val(cv);
            Array aa; for (auto &u : x->args()) aa.push_back(val(u.get())); o["args"] = std::move(aa);
            Array at; for (auto &u : x->args()) at.push_back(tk(u->getType())); o["at"] = std::move(at);
            o["t"] = tk(x->getType()); o["nr"] = x->doesNotReturn(); o["n"] = x->getName().str(); o["sz"] = x->getType()->isVoidTy() ? (int64_t)0 : tsize(x->getType());
            if (auto *iv = dyn_cast<InvokeInst>(x)) { o["to"] = bid[iv->getNormalDest()]; o["un"] = bid[iv->getUnwindDest()]; }
          } else if (auto *x = dyn_cast<BranchInst>(&I)) {
            Array t; for (unsigned si = 0; si < x->getNumSuccessors(); si++) t.push_back(bid[x->getSuccessor(si)]); o["to"] = std::move(t);
            if (x->isConditional()) o["cond"] = val(x->getCondition());
          } else if (auto *x = dyn_cast<SwitchInst>(&I)) {
            o["cond"] = val(x->getCondition()); o["def"] = bid[x->getDefaultDest()]; Array cs;
            for (auto &c : x->cases()) cs.push_back(Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
          } else if (auto *x = dyn_cast<PHINode>(&I)) {
            Array in; for (unsigned i = 0; i < x->getNumIncomingValues(); i++) in.push_back(Array{val(x->getIncomingValue(i)), bid[x->getIncomingBlock(i)]});
            o["in"] = std::move(in); o["t"] = tk(x->getType()); o["n"] = x->getName().str();
          } else if (auto *x = dyn_cast<ExtractValueInst>(&I)) {
            o["ix"] = (int64_t)x->getIndices()[0]; o["t"] = tk(x->getType());
          } else if (auto *x = dyn_cast<InsertValueInst>(&I)) {
            o["ix"] = (int64_t)x->getIndices()[0];
          } else if (auto *x = dyn_cast<LandingPadInst>(&I)) {
            o["cleanup"] = x->isCleanup(); Array cs;
            for (unsigned i = 0; i < x->getNumClauses(); i++) cs.push_back(val(x->getClause(i)));
            o["clauses"] = std::move(cs);
          } else if (isa<SelectInst>(I)) { o["t"] = tk(I.getType()); }
          o["op"] = op;
          if (!isa<CallBase>(I) && !isa<PHINode>(I) && !isa<BranchInst>(I) && !isa<SwitchInst>(I)) {
            for (auto &u : I.operands()) ops.push_back(val(u.get()));
            if (op == "gep") { Array one; one.push_back(val(I.getOperand(0))); ops = std::move(one); }
            o["ops"] = std::move(ops);
          }
          is.push_back(std::move(o));
        }
        bs.push_back(Object{{"n", B.getName().str()}, {"i", std::move(is)}});
      }
      fo["bbs"] = std::move(bs);
    }
    funcs.push_back(std::move(fo));
  }
  Object cls; for (auto &p : classes) cls[p.first] = p.second;
  JV top = Object{{"module", M->getSourceFileName()}, {"globals", std::move(globals)}, {"functions", std::move(funcs)}, {"classes", std::move(cls)}};
  outs() << top << "\n";
  return 0;
}
