static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
struct Args { std::string file, entry; bool list = false; bool dump = false; };
static Args ar;
static int rcode;
static void coverage(std::set<std::string> &funcs, std::map<std::string, std::set<unsigned>> &lines) {
  for (auto &p : cfns) for (auto &b : p.second->blocks) for (auto &c : b->ins) if (c.hits) {
    const DebugLoc &d = c.I->getDebugLoc();
    if (!d) continue;
    for (const DILocation *l = d.get(); l; l = l->getInlinedAt()) {
      std::string f = locOf(l);
      if (f.find(repoPrefix) == std::string::npos) continue;
      f = f.substr(f.rfind('/') + 1);
      const DISubprogram *sp = l->getScope()->getSubprogram();
      if (sp) {
        std::string cls;
        if (auto *ct = dyn_cast_or_null<DICompositeType>(sp->getScope())) cls = ct->getName().str() + "::";
        size_t lt = cls.find('<'); if (lt != std::string::npos) cls = cls.substr(0, lt) + "::";
        funcs.insert(f + ":" + cls + sp->getName().str());
      }
      lines[f].insert(l->getLine());
    }
  }
}
static void *work(void *) {
  auto t0 = std::chrono::steady_clock::now();
  LLVMContext ctx; SMDiagnostic err;
  auto mod = parseIRFile(ar.file, err, ctx);
  if (!mod) { err.print("absint", errs()); rcode = 3; return nullptr; }
  M = mod.get(); DL = &M->getDataLayout();
  if (ar.list) { for (auto &F : *M) if (F.getName().starts_with("sa_check_") && !F.isDeclaration()) printf("%s\n", F.getName().str().c_str()); return nullptr; }
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM; FPM.addPass(LoopSimplifyPass()); FPM.addPass(LCSSAPass());
    for (auto &F : *M) if (!F.isDeclaration()) FPM.run(F, FAM);
  }
  std::string status = "ok", why;
  Function *E = M->getFunction(ar.entry);
  if (!E) { printf("{\"entry\":\"%s\",\"status\":\"error\",\"why\":\"no such entry\"}\n", ar.entry.c_str()); rcode = 3; return nullptr; }
  try {
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op.get()); if (auto *F = dyn_cast<Function>(cs->getOperand(1))) { std::vector<Val> none; bool dead = false; callFn(F, none, nullptr, dead); } }
    std::vector<Val> none; bool dead = false;
    callFn(E, none, nullptr, dead);
    if (dead && reports.empty()) { status = "error"; why = "entry never completes"; }
  } catch (Unsupported &u) { status = "error"; Report r; locate(curI, r); why = u.why + " at " + r.chain; }
  catch (std::bad_alloc &) { status = "gaveup"; why = "memory limit"; }
  catch (GiveUp &g) { status = "gaveup"; Report r; locate(curI, r); why = g.why + " at " + r.chain; }
  std::set<std::string> funcs; std::map<std::string, std::set<unsigned>> lines;
  coverage(funcs, lines);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::ostringstream os;
  os << "{\"entry\":\"" << ar.entry << "\",\"status\":\"" << status << "\",\"why\":\"" << jesc(why) << "\",\"reports\":[";
  bool first = true;
  for (auto &r : reports) {
    os << (first ? "" : ",") << "{\"definite\":" << (r.definite ? "true" : "false") << ",\"kind\":\"" << jesc(r.kind) << "\",\"label\":\"" << jesc(r.label) << "\",\"file\":\"" << jesc(r.file) << "\",\"line\":" << r.line << ",\"func\":\"" << jesc(r.func) << "\",\"detail\":\"" << jesc(r.detail) << "\",\"chain\":\"" << jesc(r.chain) << "\",\"witness\":\"" << jesc(r.witness) << "\"}";
    first = false;
  }
  os << "],\"checks\":{"; first = true;
  for (auto &c : checkHits) { os << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; first = false; }
  os << "},\"notes\":{"; first = true;
  for (auto &c : notes) { os << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; first = false; }
  extern u64 n_ivl_imprecise;
  os << "},\"stats\":{\"steps\":" << n_steps << ",\"joins\":" << n_merge << ",\"calls\":" << n_calls << ",\"loads\":" << n_loads << ",\"stores\":" << n_stores << ",\"checks\":" << n_checks << ",\"symbols\":" << syms.size() << ",\"tables\":" << n_pw << ",\"opaque\":" << n_opaque << ",\"ivl_imprecise\":" << n_ivl_imprecise << ",\"maxatoms\":" << maxk_used << ",\"peak_mb\":" << [] { struct rusage u; getrusage(RUSAGE_SELF, &u); return u.ru_maxrss >> 10; }() << ",\"seconds\":" << dt << "},\"functions\":[";
  first = true;
  for (auto &f : funcs) { os << (first ? "" : ",") << "\"" << jesc(f) << "\""; first = false; }
  os << "],\"lines\":{"; first = true;
  for (auto &l : lines) { os << (first ? "" : ",") << "\"" << jesc(l.first) << "\":["; bool f2 = true; for (unsigned n : l.second) { os << (f2 ? "" : ",") << n; f2 = false; } os << "]"; first = false; }
  os << "}}";
  printf("%s\n", os.str().c_str());
  fflush(stdout);
  _exit(0); // skip teardown of the value graph
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    std::string s = argv[i];
    if (s == "--list") ar.list = true;
    else if (s == "--seed") seedv = strtoull(argv[++i], 0, 0) + 1;
    else if (s == "--repo") repoPrefix = argv[++i];
    else if (s == "--maxsteps") maxsteps = strtoull(argv[++i], 0, 0);
    else if (s == "--maxk") MAXK = atoi(argv[++i]);
    else if (ar.file.empty()) ar.file = s; else ar.entry = s;
  }
  struct rlimit rl = {(rlim_t)13 << 30, (rlim_t)13 << 30}; setrlimit(RLIMIT_AS, &rl);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)6 << 30);
  pthread_t th;
  if (pthread_create(&th, &at, work, nullptr)) { perror("pthread"); return 3; }
  pthread_join(th, nullptr);
  return rcode;
}
