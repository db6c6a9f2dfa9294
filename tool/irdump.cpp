// irdump: whole-program IR extractor used by the static checks in /verif.
//
// Reads the bitcode of every library unit (compiled from /repo's current
// source) plus the analysis roots (entries.cpp), links them, resolves virtual
// calls on objects whose dynamic class is visible in the root, inlines all
// project code into the roots, puts the result in SSA form and writes it as
// JSON.  Nothing is executed.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
using namespace llvm;

static bool startsWith(StringRef s, StringRef p) { return s.starts_with(p); }

// Functions that stay calls: everything to do with strings and streams.
static bool keepOpaque(const Function &F) {
  if (F.isDeclaration()) return true;
  if (auto *SP = F.getSubprogram()) {
    StringRef f = SP->getFilename();
    if (!f.contains("/include/c++/") && !f.starts_with("/usr/")) return false;  // project code
  }
  std::string d = demangle(F.getName().str());
  StringRef s(d);
  if (s.contains("basic_string") || s.contains("std::basic_ostream") || s.contains("std::basic_istream") ||
      s.contains("std::ostream") || s.contains("std::istream") || s.contains("std::basic_ios") ||
      s.contains("std::__cxx11::") || s.contains("std::ctype") || s.contains("char_traits") ||
      s.contains("std::basic_filebuf") || s.contains("std::basic_ifstream") || s.contains("std::locale") ||
      s.contains("__gnu_cxx::__to_xstring"))
    return true;
  return false;
}

static GlobalVariable *vtableOf(Module &M, StringRef cls) {
  // entry names carry the class: E_<Class>__<mode>
  std::string m = "_ZTVN8pico_cnn5naive" + std::to_string(cls.size()) + cls.str() + "E";
  return M.getNamedGlobal(m);
}

static unsigned devirt(Function &F, GlobalVariable *VT) {
  const DataLayout &DL = F.getParent()->getDataLayout();
  unsigned n = 0;
  std::vector<LoadInst *> work;
  for (Instruction &I : instructions(F))
    if (auto *L = dyn_cast<LoadInst>(&I))
      if (MDNode *T = L->getMetadata(LLVMContext::MD_tbaa)) {
        auto *base = dyn_cast_or_null<MDNode>(T->getOperand(0).get());
        if (!base || base->getNumOperands() == 0) continue;
        auto *nm = dyn_cast<MDString>(base->getOperand(0));
        if (nm && nm->getString() == "vtable pointer") work.push_back(L);
      }
  for (LoadInst *L : work) {
    APInt off(64, 0);
    Value *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
    // the object under analysis: a local (or freshly allocated) object
    if (!isa<AllocaInst>(b) && !isa<CallInst>(b) && !(isa<Argument>(b) && cast<Argument>(b)->getArgNo() == 0)) continue;
    if (isa<AllocaInst>(b)) {
      Type *t = cast<AllocaInst>(b)->getAllocatedType();
      if (auto *st = dyn_cast<StructType>(t)) {
        if (st->hasName() && !st->getName().contains("pico_cnn::naive::")) continue;
      } else continue;
    }
    if (off != 0 || !VT) continue;
    // address point: {offset-to-top, rtti, slots...}
    Constant *idx[] = {ConstantInt::get(Type::getInt32Ty(F.getContext()), 0),
                       ConstantInt::get(Type::getInt32Ty(F.getContext()), 0),
                       ConstantInt::get(Type::getInt32Ty(F.getContext()), 2)};
    Constant *ap = ConstantExpr::getInBoundsGetElementPtr(VT->getValueType(), VT, ArrayRef<Constant *>(idx));
    L->replaceAllUsesWith(ap);
    L->eraseFromParent();
    n++;
  }
  return n;
}

static void runPasses(Function &F, const char *pipe, PassBuilder &PB, FunctionAnalysisManager &FAM) {
  FunctionPassManager FPM;
  if (auto E = PB.parsePassPipeline(FPM, pipe)) {
    errs() << "pass pipeline: " << toString(std::move(E)) << "\n";
    exit(3);
  }
  FPM.run(F, FAM);
  FAM.invalidate(F, PreservedAnalyses::none());
}

static bool inlineAll(Function &F, unsigned &budget) {
  bool ch = false;
  for (;;) {
    CallBase *pick = nullptr;
    for (Instruction &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(CB)) continue;
        Function *C = CB->getCalledFunction();
        if (!C || C == &F || keepOpaque(*C) || C->isVarArg()) continue;
        if (CB->hasFnAttr("pico-noinline")) continue;
        pick = CB;
        break;
      }
    if (!pick || budget == 0) return ch;
    budget--;
    InlineFunctionInfo IFI;
    auto R = InlineFunction(*pick, IFI);
    if (!R.isSuccess())
      pick->addFnAttr(Attribute::get(F.getContext(), "pico-noinline"));
    else
      ch = true;
  }
}

static std::string tyName(Type *T) {
  std::string s;
  raw_string_ostream os(s);
  T->print(os, false, true);
  return os.str();
}

struct Dumper {
  Module &M;
  const DataLayout &DL;
  json::OStream J;
  std::map<const Value *, int> id;
  int next = 0;
  std::set<const GlobalVariable *> globals;
  Dumper(Module &M, raw_ostream &os) : M(M), DL(M.getDataLayout()), J(os, 0) {}

  void operand(const Value *V) {
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      J.object([&] {
        J.attribute("k", "int");
        J.attribute("w", (int64_t)CI->getBitWidth());
        SmallString<32> s;
        CI->getValue().toStringSigned(s);
        J.attribute("v", s.str());
      });
    } else if (auto *CF = dyn_cast<ConstantFP>(V)) {
      J.object([&] {
        J.attribute("k", "fp");
        J.attribute("t", tyName(V->getType()));
        APFloat f = CF->getValueAPF();
        if (f.isInfinity() || f.isNaN()) {
          J.attribute("v", f.isNaN() ? "nan" : (f.isNegative() ? "-inf" : "inf"));
        } else {
          // exact: mantissa as a decimal via hex float of the widened double
          bool li;
          APFloat d = f;
          d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
          char buf[64];
          snprintf(buf, sizeof buf, "%a", d.convertToDouble());
          J.attribute("v", buf);
        }
      });
    } else if (isa<ConstantPointerNull>(V)) {
      J.object([&] { J.attribute("k", "null"); });
    } else if (isa<UndefValue>(V)) {
      J.object([&] { J.attribute("k", "undef"); });
    } else if (auto *GV = dyn_cast<GlobalVariable>(V)) {
      globals.insert(GV);
      J.object([&] {
        J.attribute("k", "global");
        J.attribute("n", GV->getName());
      });
    } else if (auto *FN = dyn_cast<Function>(V)) {
      J.object([&] {
        J.attribute("k", "func");
        J.attribute("n", FN->getName());
      });
    } else if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      APInt off(64, 0);
      const Value *b = CE->getType()->isPointerTy() ? CE->stripAndAccumulateConstantOffsets(DL, off, true) : nullptr;
      if (b && b != CE) {
        J.object([&] {
          J.attribute("k", "constgep");
          J.attribute("off", off.getSExtValue());
          J.attributeBegin("b");
          operand(b);
          J.attributeEnd();
        });
      } else {
        J.object([&] {
          J.attribute("k", "const");
          std::string s;
          raw_string_ostream os(s);
          CE->print(os);
          J.attribute("v", os.str());
        });
      }
    } else if (isa<ConstantAggregateZero>(V)) {
      J.object([&] { J.attribute("k", "zero"); });
    } else if (isa<Constant>(V)) {
      J.object([&] {
        J.attribute("k", "const");
        std::string s;
        raw_string_ostream os(s);
        V->print(os);
        J.attribute("v", os.str());
      });
    } else {
      auto it = id.find(V);
      J.object([&] {
        J.attribute("k", "v");
        J.attribute("i", it == id.end() ? -1 : it->second);
      });
    }
  }

  void loc(const Instruction &I) {
    if (const DILocation *L = I.getDebugLoc().get()) {
      J.attribute("file", L->getFilename());
      J.attribute("line", (int64_t)L->getLine());
      J.attribute("fn", L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName() : "");
      // call path (outermost first is easier for a reader)
      std::string p;
      for (const DILocation *A = L->getInlinedAt(); A; A = A->getInlinedAt()) {
        StringRef n = A->getScope()->getSubprogram() ? A->getScope()->getSubprogram()->getName() : "";
        p = n.str() + ":" + std::to_string(A->getLine()) + (p.empty() ? "" : ">") + p;
      }
      J.attribute("path", p);
    }
  }

  void function(Function &F) {
    id.clear();
    next = 0;
    for (Argument &A : F.args()) id[&A] = next++;
    std::map<const BasicBlock *, int> bid;
    int nb = 0;
    for (BasicBlock &B : F) {
      bid[&B] = nb++;
      for (Instruction &I : B) id[&I] = next++;
    }
    J.object([&] {
      J.attribute("name", F.getName());
      J.attribute("demangled", demangle(F.getName().str()));
      J.attributeArray("args", [&] {
        for (Argument &A : F.args())
          J.object([&] {
            J.attribute("i", id[&A]);
            J.attribute("t", tyName(A.getType()));
            J.attribute("n", A.getName());
          });
      });
      J.attributeArray("blocks", [&] {
        for (BasicBlock &B : F)
          J.object([&] {
            J.attribute("b", bid[&B]);
            J.attributeArray("ins", [&] {
              for (Instruction &I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
                  auto iid = II->getIntrinsicID();
                  if (iid == Intrinsic::lifetime_start || iid == Intrinsic::lifetime_end ||
                      iid == Intrinsic::experimental_noalias_scope_decl)
                    continue;
                }
                J.object([&] {
                  J.attribute("i", id[&I]);
                  J.attribute("op", I.getOpcodeName());
                  J.attribute("t", tyName(I.getType()));
                  loc(I);
                  if (auto *P = dyn_cast<PHINode>(&I)) {
                    J.attributeArray("in", [&] {
                      for (unsigned k = 0; k < P->getNumIncomingValues(); k++)
                        J.object([&] {
                          J.attribute("b", bid[P->getIncomingBlock(k)]);
                          J.attributeBegin("v");
                          operand(P->getIncomingValue(k));
                          J.attributeEnd();
                        });
                    });
                    return;
                  }
                  if (auto *C = dyn_cast<CmpInst>(&I)) {
                    J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
                    J.attribute("ot", tyName(C->getOperand(0)->getType()));
                  }
                  if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) {
                    J.attribute("nuw", O->hasNoUnsignedWrap());
                    J.attribute("nsw", O->hasNoSignedWrap());
                  }
                  if (auto *A = dyn_cast<AllocaInst>(&I)) {
                    J.attribute("esz", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
                    J.attribute("aty", tyName(A->getAllocatedType()));
                  }
                  if (auto *L = dyn_cast<LoadInst>(&I)) J.attribute("sz", (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue());
                  if (auto *S = dyn_cast<StoreInst>(&I))
                    J.attribute("sz", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue());
                  if (isa<CastInst>(I)) J.attribute("st", tyName(I.getOperand(0)->getType()));
                  if (auto *G = dyn_cast<GEPOperator>(&I)) {
                    MapVector<Value *, APInt> var;
                    APInt c(64, 0);
                    bool ok = G->collectOffset(DL, 64, var, c);
                    J.attribute("gepok", ok);
                    J.attribute("coff", c.getSExtValue());
                    J.attributeArray("var", [&] {
                      for (auto &p : var)
                        J.object([&] {
                          J.attribute("s", p.second.getSExtValue());
                          J.attributeBegin("v");
                          operand(p.first);
                          J.attributeEnd();
                        });
                    });
                  }
                  if (auto *CB = dyn_cast<CallBase>(&I)) {
                    const Value *cv = CB->getCalledOperand()->stripPointerCasts();
                    if (auto *CF = dyn_cast<Function>(cv)) {
                      J.attribute("callee", CF->getName());
                      J.attribute("dem", demangle(CF->getName().str()));
                      J.attribute("defined", !CF->isDeclaration());
                      J.attribute("ro", CF->onlyReadsMemory() || CB->onlyReadsMemory());
                    } else {
                      J.attributeBegin("indirect");
                      operand(cv);
                      J.attributeEnd();
                    }
                    J.attribute("noret", CB->doesNotReturn());
                    J.attributeArray("ops", [&] {
                      for (const Use &U : CB->args()) operand(U.get());
                    });
                    return;
                  }
                  if (auto *BI = dyn_cast<BranchInst>(&I)) {
                    if (BI->isConditional()) {
                      J.attributeBegin("cond");
                      operand(BI->getCondition());
                      J.attributeEnd();
                    }
                    J.attributeArray("succ", [&] {
                      for (unsigned k = 0; k < BI->getNumSuccessors(); k++) J.value(bid[BI->getSuccessor(k)]);
                    });
                    return;
                  }
                  if (auto *SI = dyn_cast<SwitchInst>(&I)) {
                    J.attributeBegin("cond");
                    operand(SI->getCondition());
                    J.attributeEnd();
                    J.attribute("default", bid[SI->getDefaultDest()]);
                    J.attributeArray("cases", [&] {
                      for (auto &c : SI->cases())
                        J.array([&] {
                          J.value(c.getCaseValue()->getSExtValue());
                          J.value(bid[c.getCaseSuccessor()]);
                        });
                    });
                    return;
                  }
                  J.attributeArray("ops", [&] {
                    for (const Use &U : I.operands())
                      if (!isa<BasicBlock>(U.get())) operand(U.get());
                  });
                  if (auto *EV = dyn_cast<ExtractValueInst>(&I))
                    J.attributeArray("idx", [&] { for (unsigned x : EV->indices()) J.value((int64_t)x); });
                });
              }
            });
          });
      });
    });
  }
};

// the bytes of an initialiser; addresses go to `ptrs` (position, symbol, offset); false if it has something else
typedef std::vector<std::tuple<uint64_t, std::string, int64_t>> Ptrs;
static bool initBytes(const Constant *C, const DataLayout &DL, std::string &out, Ptrs *ptrs = nullptr) {
  Type *T = C->getType();
  if (!T->isSized()) return false;
  uint64_t n = DL.getTypeAllocSize(T).getFixedValue();
  if (n > (1 << 16)) return false;
  if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) {
    out.append(n, 0);
    return true;
  }
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    APInt v = I->getValue().zextOrTrunc(8 * n);
    for (uint64_t k = 0; k < n; k++) out += (char)v.extractBitsAsZExtValue(8, 8 * k);
    return true;
  }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    APInt v = F->getValueAPF().bitcastToAPInt().zextOrTrunc(8 * n);
    for (uint64_t k = 0; k < n; k++) out += (char)v.extractBitsAsZExtValue(8, 8 * k);
    return true;
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    StringRef r = CD->getRawDataValues();
    out.append(r.begin(), r.end());
    if (r.size() < n) out.append(n - r.size(), 0);
    return true;
  }
  if (ptrs && T->isPointerTy()) {
    APInt off(64, 0);
    const Value *b = C->stripAndAccumulateConstantOffsets(DL, off, true);
    if (isa<Function>(b) || isa<GlobalVariable>(b)) {
      ptrs->push_back({out.size(), (isa<Function>(b) ? "@" : "") + b->getName().str(), off.getSExtValue()});
      out.append(n, 0);
      return true;
    }
  }
  if (isa<ConstantArray>(C) || isa<ConstantStruct>(C)) {
    size_t base = out.size();
    for (unsigned k = 0; k < C->getNumOperands(); k++) {
      uint64_t off = isa<StructType>(T) ? DL.getStructLayout(cast<StructType>(T))->getElementOffset(k).getFixedValue()
                                        : k * DL.getTypeAllocSize(cast<ArrayType>(T)->getElementType()).getFixedValue();
      while (out.size() < base + off) out += (char)0;
      if (!initBytes(cast<Constant>(C->getOperand(k)), DL, out, ptrs)) return false;
    }
    while (out.size() < base + n) out += (char)0;
    return true;
  }
  return false;
}

int main(int argc, char **argv) {
  // -all: every function of the project is dumped, with its direct callees inlined, and virtual calls are left to the reader
  bool all = argc > 1 && StringRef(argv[1]) == "-all";
  if (all) argv++, argc--;
  if (argc < 3) return 2;
  LLVMContext C;
  std::unique_ptr<Module> M = std::make_unique<Module>("all", C);
  Linker L(*M);
  for (int i = 2; i < argc; i++) {
    SMDiagnostic E;
    auto P = parseIRFile(argv[i], E, C);
    if (!P) {
      E.print(argv[0], errs());
      return 3;
    }
    if (i == 2) {
      M->setDataLayout(P->getDataLayout());
      M->setTargetTriple(P->getTargetTriple());
    }
    if (L.linkInModule(std::move(P), Linker::OverrideFromSrc)) return 3;
  }
  {
    std::vector<GlobalAlias *> al;
    for (GlobalAlias &A : M->aliases()) al.push_back(&A);
    for (GlobalAlias *A : al) {
      A->replaceAllUsesWith(A->getAliasee());
    }
  }
  // call graph facts of the un-inlined program
  std::map<std::string, std::set<std::string>> calls;
  std::map<std::string, std::pair<std::string, int>> where;
  for (Function &F : *M) {
    if (F.isDeclaration()) continue;
    if (auto *SP = F.getSubprogram()) where[F.getName().str()] = {SP->getFilename().str(), (int)SP->getLine()};
    for (Instruction &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (Function *G = CB->getCalledFunction())
          if (!G->isIntrinsic()) calls[F.getName().str()].insert(G->getName().str());
  }
  for (Function &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    if (F.hasAvailableExternallyLinkage()) {
      F.deleteBody();
      F.setLinkage(GlobalValue::ExternalLinkage);
    }
  }
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

  for (Function &F : *M) {
    bool inv = false;
    for (Instruction &I : instructions(F)) inv |= isa<InvokeInst>(I);
    if (inv) runPasses(F, "lowerinvoke", PB, FAM);
  }
  std::vector<Function *> roots;
  for (Function &F : *M)
    if (!F.isDeclaration() && startsWith(F.getName(), "E_")) roots.push_back(&F);
  if (all) {
    std::vector<Function *> fs;
    for (Function &F : *M)
      if (!F.isDeclaration() && !keepOpaque(F) && !F.isVarArg()) fs.push_back(&F);
    for (Function *F : fs) {
      unsigned budget = 400;
      runPasses(*F, "sroa,instsimplify,early-cse,simplifycfg", PB, FAM);
      inlineAll(*F, budget);
      runPasses(*F, "sroa,instsimplify,early-cse,simplifycfg,sroa,instsimplify,early-cse,dce,simplifycfg,loop-simplify", PB, FAM);
    }
    roots = fs;
  }
  else for (Function *F : roots) {
    StringRef n = F->getName().drop_front(2);
    StringRef cls = n.split("__").first;
    GlobalVariable *VT = vtableOf(*M, cls);
    unsigned budget = 4000;
    for (int round = 0; round < 30; round++) {
      bool ch = inlineAll(*F, budget);
      runPasses(*F, "sroa,instsimplify,early-cse", PB, FAM);
      unsigned d = devirt(*F, VT);
      if (d) runPasses(*F, "instsimplify,early-cse,sroa,instsimplify", PB, FAM);
      if (!ch && !d) break;
    }
    runPasses(*F, "sroa,instsimplify,early-cse,simplifycfg,sroa,instsimplify,early-cse,dce,simplifycfg,loop-simplify", PB, FAM);
  }
  std::error_code EC;
  raw_fd_ostream os(argv[1], EC);
  Dumper D(*M, os);
  D.J.object([&] {
    D.J.attributeArray("functions", [&] {
      for (Function *F : roots) D.function(*F);
    });
    D.J.attributeObject("globals", [&] {
      for (const GlobalVariable *G : D.globals)
        D.J.attributeObject(G->getName(), [&] {
          D.J.attribute("const", G->isConstant());
          D.J.attribute("t", tyName(G->getValueType()));
          if (G->getValueType()->isSized())
            D.J.attribute("size", (int64_t)M->getDataLayout().getTypeAllocSize(G->getValueType()).getFixedValue());
          std::string raw;
          Ptrs ptrs;
          if (G->hasInitializer() && initBytes(G->getInitializer(), M->getDataLayout(), raw, all ? &ptrs : nullptr)) {
            std::string hex;
            for (unsigned char c : raw) {
              char b[3];
              snprintf(b, 3, "%02x", c);
              hex += b;
            }
            D.J.attribute("hex", hex);
            if (!ptrs.empty())
              D.J.attributeArray("ptrs", [&] {
                for (auto &p : ptrs)
                  D.J.array([&] {
                    D.J.value((int64_t)std::get<0>(p));
                    D.J.value(std::get<1>(p));
                    D.J.value(std::get<2>(p));
                  });
              });
          }
        });
    });
    D.J.attributeObject("vtables", [&] {
      for (GlobalVariable &G : M->globals())
        if (startsWith(G.getName(), "_ZTVN8pico_cnn") && G.hasInitializer())
          D.J.attribute(G.getName(), demangle(G.getName().str()));
    });
    D.J.attributeObject("types", [&] {
      DebugInfoFinder FI;
      FI.processModule(*M);
      std::set<std::string> seen;
      for (DIType *T : FI.types())
        if (auto *CT = dyn_cast<DICompositeType>(T)) {
          if (CT->getTag() != dwarf::DW_TAG_class_type && CT->getTag() != dwarf::DW_TAG_structure_type) continue;
          if (CT->getElements().empty() || !CT->getIdentifier().contains("pico_cnn")) continue;
          if (!seen.insert(CT->getName().str()).second) continue;
          D.J.attributeArray(CT->getName(), [&] {
            for (auto *E : CT->getElements())
              if (auto *DT = dyn_cast<DIDerivedType>(E))
                if (DT->getTag() == dwarf::DW_TAG_member)
                  D.J.array([&] {
                    D.J.value(DT->getName());
                    D.J.value((int64_t)DT->getOffsetInBits() / 8);
                  });
          });
        }
    });
    D.J.attributeObject("calls", [&] {
      for (auto &p : calls)
        D.J.attributeArray(p.first, [&] {
          for (auto &c : p.second) D.J.value(c);
        });
    });
    D.J.attributeObject("where", [&] {
      for (auto &p : where)
        D.J.attributeArray(p.first, [&] {
          D.J.value(p.second.first);
          D.J.value(p.second.second);
          D.J.value(demangle(p.first));
        });
    });
  });
  return 0;
}
