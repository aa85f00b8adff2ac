// effects: whole-unit effect facts of the library functions of one IR file (clang -O0 -g, SROA run here).
//   effects FILE.ll --repo /repo/     prints one JSON object: globals, writers, external effects, strong definitions
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
static std::string repo = "/repo/";
static Module *M;
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static std::string path(const DIFile *f) {
  if (!f) return "";
  std::string n = f->getFilename().str();
  return !n.empty() && n[0] == '/' ? n : f->getDirectory().str() + "/" + n;
}
static bool inRepo(const DIFile *f) { return path(f).find(repo) != std::string::npos; }
static bool inRepo(const Function *F) { auto *sp = F->getSubprogram(); return sp && inRepo(sp->getFile()); }
static std::string fname(const Function *F) { std::string d = demangle(F->getName().str()); return d.size() > 160 ? d.substr(0, 160) + "..." : d; }
static std::string where(const Instruction *I) {
  if (auto &d = I->getDebugLoc()) { std::string p = path(d->getFile()); return p.substr(p.rfind('/') + 1) + ":" + std::to_string(d.getLine()); }
  return "?:0";
}
static const DICompositeType *classOf(const Function *F) {
  auto *sp = F->getSubprogram(); if (!sp) return nullptr;
  const DIScope *s = sp->getScope();
  if (auto *d = sp->getDeclaration()) s = d->getScope();
  return dyn_cast_or_null<DICompositeType>(s);
}
static std::string bare(StringRef n) { size_t p = n.find('<'); return n.substr(0, p).str(); }
static bool isCtorDtor(const Function *F) {
  auto *c = classOf(F); auto *sp = F->getSubprogram();
  if (!c || !sp) return false;
  std::string b = bare(c->getName()), n = bare(sp->getName());
  return n == b || n == "~" + b;
}
static bool noArgs(const Function *F) { return F->arg_size() == 1; }
static const DICompositeType *ownerOf(const GlobalVariable *G) {
  SmallVector<DIGlobalVariableExpression *, 2> v; G->getDebugInfo(v);
  for (auto *e : v) { if (auto *d = e->getVariable()->getStaticDataMemberDeclaration()) return dyn_cast_or_null<DICompositeType>(d->getScope()); if (auto *c = dyn_cast_or_null<DICompositeType>(e->getVariable()->getScope())) return c; }
  return nullptr;
}
static std::map<const Function *, std::set<const Function *>> callers;
static std::set<const Function *> addrTaken, initFns;
// setup functions of the class that owns G, and helpers reachable only from them
static bool setupFor(const GlobalVariable *G, const Function *F, std::set<const Function *> &seen) {
  if (initFns.count(F)) return true;
  auto *own = ownerOf(G); auto *c = classOf(F);
  if (isCtorDtor(F) && noArgs(F) && own && c && (own == c || own->getName() == c->getName())) return true;
  if (addrTaken.count(F) || callers[F].empty() || !seen.insert(F).second) return false;
  for (auto *k : callers[F]) if (!setupFor(G, k, seen)) return false;
  return true;
}
struct Site { const Instruction *I; std::string what; std::vector<const Function *> chain; };
static bool isConstType(const GlobalVariable *G) {
  SmallVector<DIGlobalVariableExpression *, 2> v; G->getDebugInfo(v);
  for (auto *e : v) {
    const DIType *t = e->getVariable()->getType();
    while (t) {
      if (t->getTag() == dwarf::DW_TAG_const_type) return true;
      if (auto *d = dyn_cast<DIDerivedType>(t)) { if (t->getTag() == dwarf::DW_TAG_typedef || t->getTag() == dwarf::DW_TAG_volatile_type) { t = d->getBaseType(); continue; } }
      if (auto *c = dyn_cast<DICompositeType>(t)) if (t->getTag() == dwarf::DW_TAG_array_type) { t = c->getBaseType(); continue; }
      break;
    }
  }
  return false;
}
static bool isAtomicType(const GlobalVariable *G) {
  SmallVector<DIGlobalVariableExpression *, 2> v; G->getDebugInfo(v);
  for (auto *e : v) if (auto *t = e->getVariable()->getType()) { auto n = t->getName(); if (n.starts_with("atomic<") || n.starts_with("once_flag") || n.starts_with("mutex")) return true; }
  return false;
}
static bool dependsOnArgs(const Value *V, std::set<const Value *> &seen) {
  if (!seen.insert(V).second) return false;
  if (isa<Argument>(V)) return true;
  if (auto *A = dyn_cast<AllocaInst>(V)) { // temporaries: what is stored in them
    for (auto *u : A->users()) if (auto *S = dyn_cast<StoreInst>(u)) { if (S->getPointerOperand() == A && dependsOnArgs(S->getValueOperand(), seen)) return true; }
    else if (auto *C = dyn_cast<CallBase>(u)) { for (auto &o : C->args()) if (o.get() != A && dependsOnArgs(o.get(), seen)) return true; }
    return false;
  }
  if (auto *I = dyn_cast<Instruction>(V)) for (auto &o : I->operands()) if (dependsOnArgs(o.get(), seen)) return true;
  return false;
}
struct Tracker {
  const GlobalVariable *G;
  std::vector<Site> writes, reads;
  std::set<std::pair<const Value *, bool>> seen;
  std::vector<const Function *> chain;
  size_t uses = 0;
  void note(std::vector<Site> &v, const Instruction *I, const char *w) { v.push_back({I, w, chain}); }
  // contents: V points to memory reached through a pointer held in G
  void track(const Value *V, bool contents) {
    if (!seen.insert({V, contents}).second) return;
    for (const Use &U : V->uses()) {
      const User *u = U.getUser();
      if (isa<ConstantExpr>(u) || isa<GlobalAlias>(u)) { track(u, contents); continue; }
      if (isa<Constant>(u)) continue; // held in another constant initialiser: reported by that global's own entry
      auto *I = dyn_cast<Instruction>(u);
      if (!I) continue;
      ++uses;
      if (auto *S = dyn_cast<StoreInst>(I)) {
        if (U.getOperandNo() == S->getPointerOperandIndex()) note(writes, I, S->isAtomic() ? "atomic" : contents ? "write through it" : "write");
        else if (!isa<AllocaInst>(S->getPointerOperand()->stripPointerCasts())) note(writes, I, "its address is kept");
        else if (auto *A = dyn_cast<AllocaInst>(S->getPointerOperand()->stripPointerCasts())) for (auto *l : A->users()) if (isa<LoadInst>(l)) track(l, contents);
      } else if (auto *L = dyn_cast<LoadInst>(I)) { note(reads, I, "read"); if (L->getType()->isPointerTy()) track(L, true); }
      else if (isa<GetElementPtrInst>(I) || isa<BitCastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<AddrSpaceCastInst>(I) || isa<FreezeInst>(I)) track(I, contents);
      else if (isa<ICmpInst>(I)) note(reads, I, "read");
      else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) note(writes, I, "atomic");
      else if (isa<PtrToIntInst>(I)) note(writes, I, "its address is kept");
      else if (auto *R = dyn_cast<ReturnInst>(I)) {
        const Function *F = R->getFunction();
        for (const Use &fu : F->uses()) if (auto *C = dyn_cast<CallBase>(fu.getUser())) if (C->isCallee(&fu)) track(C, contents);
      } else if (auto *MI = dyn_cast<AnyMemIntrinsic>(I)) { note(U.getOperandNo() == 0 ? writes : reads, I, "block write"); }
      else if (isa<LifetimeIntrinsic>(I) || isa<DbgInfoIntrinsic>(I)) {}
      else if (auto *C = dyn_cast<CallBase>(I)) {
        const Function *F = C->getCalledFunction();
        if (C->isCallee(&U)) continue;
        unsigned n = C->getArgOperandNo(&U);
        if (F && !F->isDeclaration() && !F->isVarArg() && n < F->arg_size()) { chain.push_back(C->getFunction()); track(F->getArg(n), contents); chain.pop_back(); }
        else if (F && (F->getName() == "memcpy" || F->getName() == "memmove" || F->getName() == "memset")) note(n == 0 ? writes : reads, I, "block write");
        else if (F && (F->getName().starts_with("llvm.") || C->onlyReadsMemory(n))) note(reads, I, "read");
        else if (F && (F->getName().starts_with("__cxa_guard") || F->getName() == "__cxa_atexit")) {}
        else note(writes, I, "handed to code outside the unit");
      } else note(writes, I, "unusual use");
    }
  }
};
static const char *denied(StringRef n) {
  static const std::set<std::string> bad = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "erand48", "time", "clock", "gettimeofday", "clock_gettime", "getenv", "secure_getenv", "setenv", "putenv", "printf", "puts", "putchar", "vprintf", "fprintf", "vfprintf", "fputs", "fputc", "fopen", "fopen64", "freopen", "fwrite", "fread", "fclose", "write", "read", "open", "open64", "scanf", "getchar", "system", "popen", "exit", "_exit", "quick_exit", "setlocale", "fesetround", "fesetenv", "feraiseexcept", "sleep", "usleep", "nanosleep", "getpid", "fork", "signal", "sigaction", "raise", "syscall", "getrandom", "getentropy", "mmap", "strtok", "localtime", "gmtime", "perror", "pthread_create", "longjmp", "_longjmp"};
  if (bad.count(n.str())) return "process-wide effect";
  if (n.starts_with("_ZNSo") || n.starts_with("_ZStls") || n.starts_with("_ZNSi") || n.starts_with("_ZStrs") || n.starts_with("_ZSt16__ostream_insert") || n.starts_with("_ZNSt14basic_ofstream") || n.starts_with("_ZNSt14basic_ifstream") || n.starts_with("_ZNSt13basic_filebuf") || n.starts_with("_ZNSt3__113basic_ostream")) return "stream output or input";
  if (n.starts_with("_ZNSt6chrono") && n.contains("now")) return "clock";
  if (n.starts_with("_ZNSt13random_device") || n.starts_with("_ZNSt3__113random_device")) return "global random source";
  if (n.starts_with("_ZNSt6thread")) return "thread creation";
  if (n == "llvm.x86.sse.ldmxcsr" || n.starts_with("llvm.set.rounding") || n == "llvm.aarch64.set.fpcr") return "floating-point environment";
  return nullptr;
}
int main(int argc, char **argv) {
  std::string file;
  for (int i = 1; i < argc; ++i) { std::string s = argv[i]; if (s == "--repo") repo = argv[++i]; else file = s; }
  LLVMContext ctx; SMDiagnostic err;
  auto mod = parseIRFile(file, err, ctx);
  if (!mod) { err.print("effects", errs()); return 3; }
  M = mod.get();
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
    for (auto &F : *M) { if (F.isDeclaration()) continue; F.removeFnAttr(Attribute::OptimizeNone); FPM.run(F, FAM); }
  }
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto &op : ca->operands()) if (auto *F = dyn_cast<Function>(cast<ConstantStruct>(op.get())->getOperand(1))) initFns.insert(F);
  std::map<const Function *, std::vector<const CallBase *>> calls;
  size_t nfun = 0, ncalls = 0, nind = 0, nstores = 0;
  for (auto &F : *M) {
    for (const Use &u : F.uses()) { auto *C = dyn_cast<CallBase>(u.getUser()); if (!(C && C->isCallee(&u)) && !isa<GlobalAlias>(u.getUser())) addrTaken.insert(&F); }
    if (F.isDeclaration()) continue;
    if (F.getName().starts_with("_GLOBAL__sub_I") || F.getName().starts_with("__cxx_global_var_init")) initFns.insert(&F);
    if (inRepo(&F)) ++nfun;
    for (auto &I : instructions(F)) {
      if (isa<StoreInst>(I) && inRepo(&F)) ++nstores;
      if (auto *C = dyn_cast<CallBase>(&I)) { if (isa<DbgInfoIntrinsic>(C)) continue; calls[&F].push_back(C); if (auto *K = C->getCalledFunction()) callers[K].insert(&F); if (inRepo(&F)) { ++ncalls; if (!C->getCalledFunction() && !C->isInlineAsm()) ++nind; } }
    }
  }
  std::string out = "{\"globals\":[";
  bool first = true;
  for (auto &G : M->globals()) {
    SmallVector<DIGlobalVariableExpression *, 2> v; G.getDebugInfo(v);
    const DIGlobalVariable *dv = v.empty() ? nullptr : v[0]->getVariable();
    if (!dv || !inRepo(dv->getFile()) || G.isConstant()) continue;
    std::string p = path(dv->getFile()); p = p.substr(p.rfind('/') + 1);
    Tracker t; t.G = &G;
    bool cq = isConstType(&G);
    if (!G.isConstant()) t.track(&G, false);
    out += std::string(first ? "" : ",") + "\n{\"name\":\"" + jesc(demangle(G.getName().str())) + "\",\"file\":\"" + p + "\",\"line\":" + std::to_string(dv->getLine()) + ",\"constant\":" + (G.isConstant() ? "true" : "false") + ",\"const_type\":" + (cq ? "true" : "false") + ",\"thread_local\":" + (G.isThreadLocal() ? "true" : "false") + ",\"uses\":" + std::to_string(t.uses) + ",\"reads\":" + std::to_string(t.reads.size()) + ",\"writes\":[";
    first = false;
    bool f2 = true;
    for (auto &s : t.writes) {
      const Function *F = s.I->getFunction();
      bool ok = false; std::string why;
      std::vector<const Function *> ch = s.chain; ch.push_back(F);
      for (auto *c : ch) { std::set<const Function *> seen; if (setupFor(&G, c, seen)) { ok = true; why = "setup or teardown"; } }
      if (!ok && G.isThreadLocal()) { ok = true; why = "thread local"; }
      if (!ok && (isAtomicType(&G) || s.what == "atomic")) { ok = true; why = "atomic"; }
      if (!ok && cq && s.what != "write through it") { // initialisation of a constant: guarded by the compiler, must not depend on the call
        bool dep = false; std::set<const Value *> sv;
        const Instruction *I = s.I;
        if (s.chain.empty()) {
          if (auto *S = dyn_cast<StoreInst>(I)) dep = dependsOnArgs(S->getValueOperand(), sv);
          else if (auto *C = dyn_cast<CallBase>(I)) for (auto &o : C->args()) if (dependsOnArgs(o.get(), sv)) dep = true;
          ok = !dep; why = ok ? "initialisation of a constant" : "the constant is initialised from a call's own data";
        } else {
          const Function *F0 = s.chain[0];
          for (auto *C : calls[F0]) { bool has = false; for (auto &o : C->args()) if (o.get()->stripInBoundsOffsets() == &G) has = true; if (has) for (auto &o : C->args()) if (dependsOnArgs(o.get(), sv)) dep = true; }
          ok = !dep; why = ok ? "initialisation of a constant" : "the constant is initialised from a call's own data";
        }
      }
      std::string c; for (auto *k : ch) c += (c.empty() ? "" : " > ") + fname(k);
      out += std::string(f2 ? "" : ",") + "{\"ok\":" + (ok ? "true" : "false") + ",\"why\":\"" + jesc(why) + "\",\"what\":\"" + s.what + "\",\"at\":\"" + jesc(where(s.I)) + "\",\"in\":\"" + jesc(fname(F)) + "\",\"chain\":\"" + jesc(c) + "\"}";
      f2 = false;
    }
    out += "]}";
  }
  out += "],\n\"effects\":["; first = true;
  // every function reachable from a library function within the unit
  std::map<const Function *, std::pair<const Function *, const CallBase *>> from;
  std::vector<const Function *> q;
  for (auto &F : *M) if (!F.isDeclaration() && inRepo(&F)) { from[&F] = {nullptr, nullptr}; q.push_back(&F); }
  for (size_t i = 0; i < q.size(); ++i) for (auto *C : calls[q[i]]) if (auto *K = C->getCalledFunction()) {
    if (K->isDeclaration()) {
      if (auto *d = denied(K->getName())) {
        std::string ch = fname(q[i]); const CallBase *at = C;
        for (const Function *f = q[i]; from[f].first; f = from[f].first) { ch = fname(from[f].first) + " > " + ch; at = from[f].second; }
        out += std::string(first ? "" : ",") + "\n{\"callee\":\"" + jesc(fname(K)) + "\",\"kind\":\"" + d + "\",\"at\":\"" + where(at) + "\",\"chain\":\"" + jesc(ch) + "\"}"; first = false;
      }
    } else if (!from.count(K)) { from[K] = {q[i], C}; q.push_back(K); }
  }
  out += "],\n\"strong\":["; first = true;
  size_t ndefs = 0;
  for (auto &G : M->global_objects()) {
    if (G.isDeclaration()) continue;
    const DIFile *f = nullptr; unsigned line = 0;
    if (auto *F = dyn_cast<Function>(&G)) { if (auto *sp = F->getSubprogram()) { f = sp->getFile(); line = sp->getLine(); } }
    else { SmallVector<DIGlobalVariableExpression *, 2> v; cast<GlobalVariable>(&G)->getDebugInfo(v); if (!v.empty()) { f = v[0]->getVariable()->getFile(); line = v[0]->getVariable()->getLine(); } }
    if (!f || !inRepo(f)) continue;
    ++ndefs;
    if (G.hasLocalLinkage() || G.isDiscardableIfUnused() || G.isWeakForLinker()) continue;
    std::string p = path(f); p = p.substr(p.rfind('/') + 1);
    out += std::string(first ? "" : ",") + "\n{\"name\":\"" + jesc(demangle(G.getName().str())) + "\",\"file\":\"" + p + "\",\"line\":" + std::to_string(line) + "}"; first = false;
  }
  out += "],\n\"functions\":["; first = true;
  std::set<std::string> fl;
  for (auto &F : *M) if (!F.isDeclaration() && inRepo(&F)) { std::string p = path(F.getSubprogram()->getFile()); auto *c = classOf(&F); fl.insert(p.substr(p.rfind('/') + 1) + ":" + (c ? bare(c->getName()) + "::" : "") + F.getSubprogram()->getName().str()); }
  for (auto &s : fl) { out += std::string(first ? "" : ",") + "\"" + jesc(s) + "\""; first = false; }
  out += "],\n\"stats\":{\"instances\":" + std::to_string(nfun) + ",\"call_sites\":" + std::to_string(ncalls) + ",\"indirect_calls\":" + std::to_string(nind) + ",\"stores\":" + std::to_string(nstores) + ",\"definitions\":" + std::to_string(ndefs) + ",\"reachable_functions\":" + std::to_string(q.size()) + "}}\n";
  fputs(out.c_str(), stdout);
  return 0;
}
