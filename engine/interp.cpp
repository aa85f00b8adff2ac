// Abstract interpreter for LLVM IR produced from the headers under /repo.
#include "ops.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/IntrinsicsAArch64.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include <pthread.h>
#include <unistd.h>
#include <sys/resource.h>
#include <set>
#include <sstream>
#include <chrono>
using namespace llvm;

static std::string repoPrefix = "/repo/";
static u64 seedv = 1;
static u64 n_steps, n_merge, n_calls, n_loads, n_stores, n_checks, n_checks_open, maxsteps = 4000000000ull, last_exit_fork;
static int maxk_used;

struct Unsupported { std::string why; };
struct GiveUp { std::string why; };
void unsupported(const std::string &s) { throw Unsupported{s}; }

// ------------------------------------------------------------------ memory
// def: condition under which the byte has been written at all (joins with a side that never wrote keep the written value)
struct Cell { Val v; u8 idx = 0, n = 0; u32 serial = 0; const Instruction *wr = nullptr; Bit def = bconst(1); };
struct Obj {
  u64 base = 0, size = 0; std::vector<Cell> cells; bool dead = false, global = false; std::string name;
  std::vector<std::pair<u64, u64>> ro; // read-only ranges (offsets)
  bool constant = false; bool symsz = false; Val ssize; // symsz: size is the symbolic value ssize, `size` its maximum
};
static std::vector<std::unique_ptr<Obj>> objs;
static u32 serialNo = 1;
struct JEnt { u32 obj; u64 off; Cell old; };
static std::vector<JEnt> journal;
static int journalDepth = 0;
// tracking of written cells, for sa_track / sa_havoc_written
static int trackObj = -1; static std::set<u64> tracked;

static u32 newobj(u64 size, u64 align, const std::string &name, u64 misalign = 0) {
  u32 id = objs.size();
  auto o = std::make_unique<Obj>();
  if (!align) align = 1;
  u64 a = align < 4096 ? align : 4096;
  o->base = ((u64)(id + 1) << 32) + 65536 + a + misalign;   // aligned to exactly `align`
  o->size = size; o->name = name;
  if (size > (1ull << 27)) throw Unsupported{"object too large"};
  o->cells.resize(size);
  objs.push_back(std::move(o));
  return id;
}
static Obj *findobj(u64 addr, u64 &off, u32 *idp = nullptr) {
  u64 id = addr >> 32;
  if (id == 0 || id > objs.size()) return nullptr;
  Obj *o = objs[id - 1].get();
  off = addr - o->base; // may wrap => huge
  if (idp) *idp = id - 1;
  return o;
}

// ------------------------------------------------------------------ reports
struct Report { std::string kind, label, file, func, chain, witness, detail; unsigned line = 0; bool definite = true; };
static std::vector<Report> reports;
static std::set<std::string> reportKeys;
static std::vector<const Instruction *> callstack;
static const Instruction *curI;
struct Frame;
static std::string locOf(const DILocation *l) { return (l->getDirectory().str().empty() || l->getFilename().starts_with("/") ? l->getFilename().str() : l->getDirectory().str() + "/" + l->getFilename().str()); }
static void addScopes(const Instruction *I, Report &r, std::ostringstream &os) {
  if (!I) return;
  const DebugLoc &d = I->getDebugLoc();
  if (!d) return;
  for (const DILocation *l = d.get(); l; l = l->getInlinedAt()) {
    std::string f = locOf(l);
    const DISubprogram *sp = l->getScope()->getSubprogram();
    std::string fn = sp ? sp->getName().str() : "?";
    if (r.file.empty() && f.find(repoPrefix) != std::string::npos) { r.file = f; r.line = l->getLine(); r.func = fn; }
    os << (os.tellp() > 0 ? " <- " : "") << fn << "@" << f.substr(f.rfind('/') + 1) << ":" << l->getLine();
  }
}
static void locate(const Instruction *I, Report &r) {
  std::ostringstream os;
  addScopes(I, r, os);
  for (int i = (int)callstack.size() - 1; i >= 0 && i + 12 >= (int)callstack.size(); --i) addScopes(callstack[i], r, os);
  r.chain = os.str();
}
void whereami(const char *what) { Report r; locate(curI, r); fprintf(stderr, "%s at %s\n", what, r.chain.c_str()); }
static std::vector<Bit> guards;
static std::string hx(u64 v) { char b[32]; snprintf(b, sizeof b, "%llx", (unsigned long long)v); return b; }

static std::string witnessText(Assign &A) {
  // group by name
  std::map<std::string, std::map<u32, bool>> g;
  for (auto &p : A.m) if (syms[p.first].cls != S_OPAQUE) g[syms[p.first].name][syms[p.first].bit] = p.second;
  std::ostringstream os;
  int n = 0;
  for (auto &p : g) {
    if (++n > 24) { os << " ..."; break; }
    os << (n > 1 ? " " : "") << p.first << "={";
    int c = 0;
    for (auto &q : p.second) { if (++c > 64) { os << ".."; break; } os << (c > 1 ? "," : "") << q.first << ":" << q.second; }
    os << "}";
  }
  return os.str();
}
static void flatten(Bit c, std::vector<Bit> &out) { out.push_back(c); }
// ---- feasibility.  bit 0: can be true, bit 1: can be false.
static Support guardSupport(Support s, int soft) {
  (void)soft;
  return s;
}
static void useGuards(Support &s, std::vector<Bit> &used) {
  for (int i = (int)guards.size() - 1, n = 0; i >= 0 && n < 48; --i, ++n) {
    Support t = s;
    int gk = 0;
    { Support g(MAXK); g.add(guards[i]); gk = g.ok ? g.k() : 99; }
    t.add(guards[i]);
    if (!t.ok) continue;
    int grow = t.k() - s.k();
    if (t.k() <= 10 || grow < gk) { s = t; used.push_back(guards[i]); }
  }
}
static int decide(const Bit &c) {
  if (c.isconst()) return c.cv() ? 1 : 2;
  for (auto &g : guards) { if (g == c) return 1; if (g == bnot(c)) return 2; }
  Support s(MAXK);
  s.add(c);
  if (!s.ok) return 3;
  std::vector<Bit> used;
  useGuards(s, used);
  if (used.empty()) return 3; // canonical forms are non-constant, hence both
  Tab care, t;
  evalbits(used.data(), std::min<size_t>(used.size(), 64), s.basis, care);
  u64 all = maskw(std::min<size_t>(used.size(), 64));
  evalbits(&c, 1, s.basis, t);
  int r = 0;
  for (size_t i = 0; i < t.size() && r != 3; ++i) if (care[i] == all) r |= (t[i] & 1) ? 1 : 2;
  maxk_used = std::max(maxk_used, s.k());
  return r;
}
// Search for a concrete assignment on which `bad` holds together with every guard.
// 1 = found (A filled), 0 = proved impossible, -1 = unknown
static int findWitness(const Bit &bad, Assign &A) {
  if (bad.isconst() && !bad.cv()) return 0;
  int d = decide(bad);
  if (!(d & 1)) return 0;
  u64 rng = seedv * 0x9e3779b97f4a7c15ull + 12345;
  auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  // affine constraints first: guards that are affine, plus those fitting in a basis
  Support s(MAXK);
  s.add(bad);
  std::vector<Bit> used;
  if (s.ok) for (int i = (int)guards.size() - 1; i >= 0 && used.size() < 60; --i) { Support t = s; t.add(guards[i]); if (t.ok) { s = t; used.push_back(guards[i]); } }
  std::vector<u32> good;
  if (s.ok) {
    used.push_back(bad);
    Tab care;
    evalbits(used.data(), used.size(), s.basis, care);
    u64 all = maskw(used.size());
    for (size_t i = 0; i < care.size(); ++i) if (care[i] == all) good.push_back(i);
    if (good.empty()) return 0;
  }
  bool complete = s.ok && used.size() == guards.size() + 1;
  bool imp = false;
  for (int attempt = 0; attempt < 400; ++attempt) {
    Assign B; B.rng = rnd() | 1;
    if (s.ok && attempt < 300) {
      u32 t = good[attempt < 4 ? (attempt * good.size() / 4) : rnd() % good.size()];
      // solve atom equations over symbols: triangular elimination with random free symbols
      std::vector<std::pair<BV, bool>> rows;
      const std::vector<u32> at = bases.tab[s.basis].atoms;
      std::vector<u32> pivs;
      for (size_t j = 0; j < at.size(); ++j) {
        BV v = aff.forms[at[j]]; bool r = t >> j & 1;
        for (size_t q = 0; q < rows.size(); ++q) {
          u32 p = pivs[q];
          if (p / 64 < v.size() && (v[p / 64] >> (p % 64) & 1)) { if (v.size() < rows[q].first.size()) v.resize(rows[q].first.size()); for (size_t x = 0; x < rows[q].first.size(); ++x) v[x] ^= rows[q].first[x]; r ^= rows[q].second; }
        }
        // choose a pivot, prefer non-opaque symbols
        int piv = -1;
        for (size_t x = 0; x < v.size(); ++x) { u64 y = v[x]; while (y) { int b = __builtin_ctzll(y); y &= y - 1; u32 sy = x * 64 + b; if (piv < 0 || (syms[piv].cls == S_OPAQUE && syms[sy].cls != S_OPAQUE)) piv = sy; } }
        if (piv < 0) continue;
        // keep rows reduced
        for (size_t q = 0; q < rows.size(); ++q) { BV &u = rows[q].first; if ((size_t)piv / 64 < u.size() && (u[piv / 64] >> (piv % 64) & 1)) { if (u.size() < v.size()) u.resize(v.size()); for (size_t x = 0; x < v.size(); ++x) u[x] ^= v[x]; rows[q].second ^= r; } }
        rows.push_back({v, r}); pivs.push_back(piv);
      }
      // random values for the others, then pivots
      for (size_t q = 0; q < rows.size(); ++q) { const BV &v = rows[q].first; for (size_t x = 0; x < v.size(); ++x) { u64 y = v[x]; while (y) { int b = __builtin_ctzll(y); y &= y - 1; u32 sy = x * 64 + b; if (std::find(pivs.begin(), pivs.end(), sy) == pivs.end() && syms[sy].cls != S_OPAQUE && !B.m.count(sy)) B.m[sy] = attempt == 0 ? 0 : B.next(); } } }
      for (size_t q = 0; q < rows.size(); ++q) {
        if (syms[pivs[q]].cls == S_OPAQUE) continue;
        bool r = rows[q].second; const BV &v = rows[q].first;
        for (size_t x = 0; x < v.size(); ++x) { u64 y = v[x]; while (y) { int b = __builtin_ctzll(y); y &= y - 1; u32 sy = x * 64 + b; if (sy != pivs[q] && syms[sy].cls != S_OPAQUE) r ^= evalsym(sy, B); } }
        B.m[pivs[q]] = r;
      }
    }
    bool ok = evalbit(bad, B);
    for (size_t i = 0; i < guards.size() && ok; ++i) ok = evalbit(guards[i], B);
    if (ok) { if (B.imprec) { imp = true; continue; } A = B; return 1; }
  }
  (void)complete; (void)imp;
  return -1;
}
static void report(const std::string &kind, const std::string &label, const Instruction *I, const Bit &bad, const std::string &detail, const Instruction *wr = nullptr) {
  Report r; r.kind = kind; r.label = label; r.detail = detail;
  Assign A;
  int w = findWitness(bad, A);
  if (w == 0) return;
  r.definite = w == 1;
  if (wr) { std::ostringstream os; addScopes(wr, r, os); std::string c = os.str(); Report r2 = r; locate(I, r2); r2.chain = "value written by " + c + "; checked at " + r2.chain; r = r2; }
  else locate(I, r);
  if (w == 1) r.witness = witnessText(A);
  std::string key = kind + "|" + label + "|" + r.file + ":" + std::to_string(r.line) + (r.definite ? "D" : "U");
  if (reportKeys.insert(key).second && reports.size() < 200) reports.push_back(r);
  static int many = 0;
  if (r.definite && ++many > 5000) throw GiveUp{"stopped after 5000 violations"};
}
static Bit btrue() { return bconst(1); }
static u64 maxmem = 6000;
static u64 residentMB() {
  static int fd = [] { FILE *f = fopen("/proc/self/statm", "r"); return f ? fileno(f) : -1; }();
  char b[64]; ssize_t n = fd < 0 ? -1 : pread(fd, b, sizeof b - 1, 0);
  if (n <= 0) return 0;
  b[n] = 0;
  char *p = strchr(b, ' ');
  return p ? strtoull(p, nullptr, 10) * 4096 >> 20 : 0;
}

// ------------------------------------------------------------------ loads and stores
static void rawstore(u32 id, u64 off, const Val &v, unsigned n) {
  Obj *o = objs[id].get();
  u32 s = ++serialNo;
  for (unsigned i = 0; i < n; ++i) {
    Cell &c = o->cells[off + i];
    if (journalDepth) journal.push_back({id, off + i, std::move(c)});
    c.v = v; c.idx = i; c.n = n; c.serial = s; c.wr = curI; c.def = bconst(1);
    if ((int)id == trackObj) tracked.insert(off + i);
  }
}
static void setcell(u32 id, u64 off, const Cell &nc) {
  Cell &c = objs[id]->cells[off];
  if (journalDepth) journal.push_back({id, off, c});
  c = nc;
  if ((int)id == trackObj) tracked.insert(off);
}
static int decide(const Bit &c);
static Val cellbyte(u32 id, u64 off) {
  Cell &c = objs[id]->cells[off];
  if (c.n == 0) {
    Obj *o = objs[id].get();
    Val u = fresh(S_UNINIT, "uninit:" + o->name + "+" + std::to_string(off), 8);
    const Instruction *w = c.wr;
    c.v = u; c.idx = 0; c.n = 1; c.serial = ++serialNo; c.wr = w; // deliberately not journalled: same unknown in every arm
    return u;
  }
  Val v = c.n == 1 ? c.v : slicev(c.v, c.idx * 8, 8);
  if (c.def.isconst() || !(decide(c.def) & 2)) return v;
  v = vite(c.def, v, fresh(S_UNINIT, "uninit:" + objs[id]->name + "+" + std::to_string(off), 8));
  c.v = v; c.idx = 0; c.n = 1; c.serial = ++serialNo; c.def = bconst(1); // the same unknown in every arm
  return v;
}
static Val rawload(u32 id, u64 off, unsigned n) {
  Obj *o = objs[id].get();
  Cell *c = &o->cells[off];
  if (c->n == n && c->idx == 0) {
    u32 s = c->serial; bool ok = true;
    for (unsigned i = 1; i < n; ++i) if (c[i].serial != s || c[i].idx != i || c[i].n != n) { ok = false; break; }
    for (unsigned i = 0; i < n && ok; ++i) if (!c[i].def.isconst() && (!i || c[i].def != c[i - 1].def) && (decide(c[i].def) & 2)) ok = false;
    if (ok) return c->v;
  }
  std::vector<Val> p;
  for (unsigned i = 0; i < n; ++i) p.push_back(cellbyte(id, off + i));
  return concatv(p);
}
static void careTab(u32 basis, std::vector<u8> &care) {
  size_t N = 1ull << bases.tab[basis].atoms.size();
  care.assign(N, 1);
  for (auto &g : guards) {
    Support s(MAXK); s.basis = basis;
    // share at least something with the basis
    if (g.f) { s.addf(g.f.p); s.adda(g.ax); } else s.adda(g.id);
    if (!s.ok) continue;
    if (s.basis == basis) {
      Tab t; evalbits(&g, 1, basis, t);
      for (size_t i = 0; i < N; ++i) if (!(t[i] & 1)) care[i] = 0;
    } else {
      Tab t; evalbits(&g, 1, s.basis, t);
      std::vector<u8> any(N, 0);
      for (size_t i = 0; i < t.size(); ++i) if (t[i] & 1) any[i & (N - 1)] = 1;
      for (size_t i = 0; i < N; ++i) if (!any[i]) care[i] = 0;
    }
  }
}
static bool inro(Obj *o, u64 off, u64 n) { for (auto &r : o->ro) if (off < r.second && off + n > r.first) return true; return false; }
static bool accessOK(u64 addr, unsigned n, u64 align, bool wr, u32 &id, u64 &off, std::string &why) {
  Obj *o = findobj(addr, off, &id);
  if (!o) { why = "access through invalid pointer 0x" + hx(addr); return false; }
  if (o->dead) { why = "access to dead object " + o->name; return false; }
  if (off > o->size || off + n > o->size) { why = "access of " + std::to_string(n) + " bytes at offset " + std::to_string((i64)off) + " of " + o->name + " (size " + std::to_string(o->size) + ")"; return false; }
  if (o->symsz) { Val b = apply(O_ULT, 1, 64, {o->ssize, vconst(off + n, 64)}); if (decide(getbit(b, 0)) & 1) report("memory", wr ? "invalid write" : "invalid read", curI, getbit(b, 0), "access at offset " + std::to_string(off) + " of variable-length " + o->name); }
  if (align > 1 && addr % align) { why = "misaligned access (needs " + std::to_string(align) + ") at offset " + std::to_string(off) + " of " + o->name; return false; }
  if (wr && (o->constant || inro(o, off, n))) { why = "write to read-only input at offset " + std::to_string(off) + " of " + o->name; return false; }
  return true;
}
static Bit eqconst(const Tab &t, u32 basis, u64 c) { Tab x(t.size()); for (size_t i = 0; i < t.size(); ++i) x[i] = t[i] == c; return simplifybit(x, basis); }
static bool addrTable(const Val &addr, u32 &basis, Tab &t, std::vector<u8> &care) {
  if (addr.k != K_BITS) return false;
  Support s(MAXK);
  s.add(addr);
  if (!s.ok) return false;
  basis = s.basis;
  evalval(addr, basis, t);
  careTab(basis, care);
  maxk_used = std::max(maxk_used, s.k());
  return true;
}
static void uninitCheck(const Val &v, const char *what);
static Val loadN(const Val &addr, unsigned n, u64 align) {
  ++n_loads;
  if (addr.isc()) {
    u32 id; u64 off; std::string why;
    if (!accessOK(addr.c, n, align, false, id, off, why)) { report("memory", "invalid read", curI, btrue(), why); if (why.find("misaligned") == std::string::npos) return fresh(S_IMPREC, "badload", n * 8); }
    return rawload(id, off, n);
  }
  if (addr.k == K_UNDEF) { report("uninit", "read through undefined pointer", curI, btrue(), ""); return fresh(S_IMPREC, "badload", n * 8); }
  u32 basis; Tab t; std::vector<u8> care;
  if (!addrTable(addr, basis, t, care)) {
    return fresh(S_IMPREC, "load", n * 8);
  }
  std::map<u64, Val> vals;
  bool allc = true;
  for (size_t i = 0; i < t.size(); ++i) if (care[i] && !vals.count(t[i])) {
    u32 id; u64 off; std::string why;
    if (!accessOK(t[i], n, align, false, id, off, why)) {
      report("memory", "invalid read", curI, eqconst(t, basis, t[i]), why);
      vals[t[i]] = vconst(0, n * 8);
      continue;
    }
    Val v = rawload(id, off, n);
    if (!v.isc()) allc = false;
    vals[t[i]] = v;
  }
  if (vals.empty()) return vconst(0, n * 8);
  if (allc && n <= 8) {
    Tab o(t.size());
    u64 lastA = ~0ull, lastV = 0;
    for (size_t i = 0; i < t.size(); ++i) { if (!care[i]) { o[i] = 0; continue; } if (t[i] != lastA) { lastA = t[i]; lastV = vals[lastA].c; } o[i] = lastV; }
    return simplify(o, basis, n * 8);
  }
  // group equal values
  Val r; bool first = true;
  for (auto &p : vals) {
    if (first) { r = p.second; first = false; continue; }
    r = vite(eqconst(t, basis, p.first), p.second, r);
  }
  return r;
}
// store that happens only under c; bytes never written before become defined under c
static void condStore(u32 id, u64 off, const Bit &c, const Val &v, unsigned n) {
  if (c.isconst()) { if (c.cv()) rawstore(id, off, v, n); return; }
  Obj *o = objs[id].get();
  Cell *q = &o->cells[off];
  bool none = true, whole = q->n == n && q->idx == 0, plain = true;
  for (unsigned i = 0; i < n; ++i) { if (q[i].n) none = false; if (q[i].serial != q->serial || q[i].idx != i || q[i].n != n || q[i].def != q->def) whole = false; if (!q[i].n || !q[i].def.isconst()) plain = false; }
  if (none || (whole && !plain)) {
    Bit d = none ? c : bor(c, q->def);
    rawstore(id, off, none ? v : vite(c, v, q->v), n);
    for (unsigned i = 0; i < n; ++i) o->cells[off + i].def = d;
  } else if (!plain && n > 1) for (unsigned i = 0; i < n; ++i) condStore(id, off + i, c, slicev(v, i * 8, 8), 1);
  else if (!plain) {
    Bit d = bor(c, q->def); Val old = q->n == 1 ? q->v : slicev(q->v, q->idx * 8, 8);
    rawstore(id, off, vite(c, v, old), 1);
    o->cells[off].def = d;
  } else rawstore(id, off, vite(c, v, rawload(id, off, n)), n);
}
static void storeN(const Val &addr, const Val &v, unsigned n, u64 align) {
  ++n_stores;
  if (addr.isc()) {
    u32 id; u64 off; std::string why;
    if (!accessOK(addr.c, n, align, true, id, off, why)) { report("memory", "invalid write", curI, btrue(), why); if (why.find("misaligned") == std::string::npos && why.find("read-only") == std::string::npos) return; }
    rawstore(id, off, v, n);
    return;
  }
  if (addr.k == K_UNDEF) { report("uninit", "write through undefined pointer", curI, btrue(), ""); return; }
  u32 basis; Tab t; std::vector<u8> care;
  if (!addrTable(addr, basis, t, care)) throw GiveUp{"store through an address outside the domain"};
  std::set<u64> as;
  for (size_t i = 0; i < t.size(); ++i) if (care[i]) as.insert(t[i]);
  for (u64 a : as) {
    u32 id; u64 off; std::string why;
    Bit c = as.size() == 1 ? btrue() : eqconst(t, basis, a);
    if (!accessOK(a, n, align, true, id, off, why)) { report("memory", "invalid write", curI, c, why); continue; }
    condStore(id, off, c, v, n);
  }
}

// ------------------------------------------------------------------ code
static const DataLayout *DL;
static Module *M;
struct Opnd { int slot = -1; Val c; };
struct CInst { const Instruction *I; unsigned op; int dst; std::vector<Opnd> ops; Type *ty; u32 hits = 0; };
struct CBlock { const BasicBlock *bb; std::vector<const PHINode *> phis; std::vector<int> phislot; std::vector<CInst> ins; std::vector<CBlock *> succ; CBlock *ipdom = nullptr; int idx; bool deadend = false, loopexit = false; std::vector<std::unordered_map<const BasicBlock *, Opnd>> inc; };
struct CFn { Function *F; std::vector<std::unique_ptr<CBlock>> blocks; int nslots = 0; std::vector<int> argslot; std::unordered_map<const Value *, int> slot; };
static std::unordered_map<Function *, std::unique_ptr<CFn>> cfns;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<u64, Function *> fnAt;
struct Frame { CFn *f; std::vector<Val> r; std::vector<u32> allocas; };

static Val constVal(const Constant *C);
static u64 sizeOf(Type *t) { return DL->getTypeStoreSize(t); }
static unsigned widthOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isHalfTy()) return 16;
  if (t->isX86_FP80Ty()) throw Unsupported{"long double"};
  std::string s; raw_string_ostream os(s); t->print(os);
  throw Unsupported{"type " + os.str()};
}
static bool isagg(Type *t) { return t->isVectorTy() || t->isStructTy() || t->isArrayTy(); }
static unsigned nelem(Type *t) { if (auto v = dyn_cast<FixedVectorType>(t)) return v->getNumElements(); if (auto s = dyn_cast<StructType>(t)) return s->getNumElements(); return t->getArrayNumElements(); }
static Type *elemT(Type *t, unsigned i) { if (auto v = dyn_cast<VectorType>(t)) return v->getElementType(); if (auto s = dyn_cast<StructType>(t)) return s->getElementType(i); return t->getArrayElementType(); }
static u64 elemOff(Type *t, unsigned i) {
  if (auto v = dyn_cast<VectorType>(t)) return DL->getTypeSizeInBits(v->getElementType()) / 8 * i;
  if (auto s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i);
  return DL->getTypeAllocSize(t->getArrayElementType()) * i;
}
static Val undefOf(Type *t) {
  if (isagg(t)) { std::vector<Val> e; for (unsigned i = 0; i < nelem(t); ++i) e.push_back(undefOf(elemT(t, i))); return vvec(std::move(e)); }
  return vundef(widthOf(t));
}
static Val addv(const Val &a, u64 c) { if (!c) return a; return apply(O_ADD, 64, 64, {a, vconst(c, 64)}); }
static Val loadT(Type *t, const Val &addr, u64 align) {
  if (auto vt = dyn_cast<FixedVectorType>(t)) if (vt->getElementType()->isIntegerTy(1)) {
    Val w = loadN(addr, sizeOf(t), align);
    std::vector<Val> e; for (unsigned i = 0; i < nelem(t); ++i) e.push_back(slicev(w, i, 1));
    return vvec(std::move(e));
  }
  if (isagg(t)) {
    std::vector<Val> e;
    if (align > 1 && nelem(t)) { // report misalignment once
      for (unsigned i = 0; i < nelem(t); ++i) e.push_back(loadT(elemT(t, i), addv(addr, elemOff(t, i)), i == 0 ? align : 1));
    } else for (unsigned i = 0; i < nelem(t); ++i) e.push_back(loadT(elemT(t, i), addv(addr, elemOff(t, i)), 1));
    return vvec(std::move(e));
  }
  unsigned w = widthOf(t), n = sizeOf(t);
  Val v = loadN(addr, n, align);
  if (v.w != w) v = slicev(v, 0, w);
  return v;
}
static void storeT(Type *t, const Val &addr, const Val &v, u64 align) {
  if (auto vt = dyn_cast<FixedVectorType>(t)) if (vt->getElementType()->isIntegerTy(1)) {
    Val w = concatv(v.vec()->e);
    if (w.w % 8) w = apply(O_ZEXT, (w.w + 7) / 8 * 8, w.w, {w});
    storeN(addr, w, sizeOf(t), align);
    return;
  }
  if (isagg(t)) {
    if (v.k != K_VEC) { storeT(t, addr, undefOf(t), align); return; }
    for (unsigned i = 0; i < nelem(t); ++i) storeT(elemT(t, i), addv(addr, elemOff(t, i)), v.vec()->e[i], i == 0 ? align : 1);
    return;
  }
  unsigned n = sizeOf(t);
  Val x = v;
  if (x.w != n * 8) x = x.k == K_UNDEF ? vundef(n * 8) : apply(O_ZEXT, n * 8, x.w, {x});
  if (x.k == K_UNDEF) x = fresh(S_UNINIT, "undef", n * 8);
  storeN(addr, x, n, align);
}
static void initGlobal(u32 id, u64 off, const Constant *C) {
  Type *t = C->getType();
  if (isa<UndefValue>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    unsigned es = D->getElementByteSize();
    for (unsigned i = 0; i < D->getNumElements(); ++i) {
      u64 v = D->getElementType()->isIntegerTy() ? D->getElementAsInteger(i) : D->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
      rawstore(id, off + i * es, vconst(v, es * 8), es);
    }
    return;
  }
  if (isa<ConstantAggregateZero>(C) || (C->isNullValue())) {
    u64 n = DL->getTypeAllocSize(t);
    // store naturally sized zeros for leaf types
    if (isagg(t)) { for (unsigned i = 0; i < nelem(t); ++i) initGlobal(id, off + elemOff(t, i), C->getAggregateElement(i)); return; }
    n = sizeOf(t);
    rawstore(id, off, vconst(0, n * 8), n);
    return;
  }
  if (isagg(t)) { for (unsigned i = 0; i < nelem(t); ++i) initGlobal(id, off + elemOff(t, i), C->getAggregateElement(i)); return; }
  Val v = constVal(C);
  unsigned n = sizeOf(t);
  if (v.w != n * 8) v = vconst(v.c, n * 8);
  rawstore(id, off, v, n);
}
static u64 addrOf(const GlobalValue *G) {
  auto it = gaddr.find(G);
  if (it != gaddr.end()) return it->second;
  if (auto *F = dyn_cast<Function>(G)) {
    u32 id = newobj(1, 16, "function " + F->getName().str());
    gaddr[G] = objs[id]->base;
    fnAt[objs[id]->base] = const_cast<Function *>(F);
    return objs[id]->base;
  }
  auto *V = dyn_cast<GlobalVariable>(G);
  if (!V) throw Unsupported{"global alias"};
  u64 n = DL->getTypeAllocSize(V->getValueType());
  u64 al = V->getAlign() ? V->getAlign()->value() : DL->getABITypeAlign(V->getValueType()).value();
  u32 id = newobj(n, al, "global " + G->getName().str());
  objs[id]->global = true;
  gaddr[G] = objs[id]->base;
  if (V->hasInitializer()) {
    auto sj = journalDepth; journalDepth = 0;
    auto st = trackObj; trackObj = -1;
    initGlobal(id, 0, V->getInitializer());
    journalDepth = sj; trackObj = st;
  }
  objs[id]->constant = V->isConstant();
  return objs[id]->base;
}
static Val constVal(const Constant *C) {
  Type *t = C->getType();
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    if (I->getBitWidth() <= 64) return vconst(I->getZExtValue(), I->getBitWidth());
    std::vector<Bit> b; for (unsigned i = 0; i < I->getBitWidth(); ++i) b.push_back(bconst(I->getValue()[i]));
    return vbits(std::move(b));
  }
  if (auto *F = dyn_cast<ConstantFP>(C)) return vconst(F->getValueAPF().bitcastToAPInt().getZExtValue(), widthOf(t));
  if (isa<ConstantPointerNull>(C)) return vconst(0, 64);
  if (isa<UndefValue>(C)) return undefOf(t);
  if (auto *G = dyn_cast<GlobalValue>(C)) return vconst(addrOf(G), 64);
  if (isagg(t)) { std::vector<Val> e; for (unsigned i = 0; i < nelem(t); ++i) e.push_back(constVal(C->getAggregateElement(i))); return vvec(std::move(e)); }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    if (auto *G = dyn_cast<GEPOperator>(E)) {
      APInt off(64, 0);
      if (G->accumulateConstantOffset(*DL, off)) return vconst(constVal(cast<Constant>(G->getPointerOperand())).c + off.getZExtValue(), 64);
    }
    switch (E->getOpcode()) {
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(E->getOperand(0));
    case Instruction::Sub: return vconst(constVal(E->getOperand(0)).c - constVal(E->getOperand(1)).c, widthOf(t));
    case Instruction::Add: return vconst(constVal(E->getOperand(0)).c + constVal(E->getOperand(1)).c, widthOf(t));
    case Instruction::Trunc: return vconst(constVal(E->getOperand(0)).c, widthOf(t));
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os);
  throw Unsupported{"constant " + os.str()};
}
static CFn *compile(Function *F) {
  auto it = cfns.find(F);
  if (it != cfns.end()) return it->second.get();
  auto f = std::make_unique<CFn>();
  f->F = F;
  auto &slot = f->slot;
  for (auto &A : F->args()) { slot[&A] = f->nslots; f->argslot.push_back(f->nslots++); }
  std::unordered_map<const BasicBlock *, CBlock *> bm;
  for (auto &B : *F) {
    auto b = std::make_unique<CBlock>(); b->bb = &B; b->idx = f->blocks.size(); bm[&B] = b.get();
    for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = f->nslots++;
    f->blocks.push_back(std::move(b));
  }
  auto mk = [&](const Value *v) { Opnd o; auto s = slot.find(v); if (s != slot.end()) o.slot = s->second; else if (auto *c = dyn_cast<Constant>(v)) o.c = constVal(c); return o; };
  for (auto &b : f->blocks) {
    for (auto &I : *b->bb) {
      if (auto *P = dyn_cast<PHINode>(&I)) {
        b->phis.push_back(P); b->phislot.push_back(slot[P]);
        std::unordered_map<const BasicBlock *, Opnd> m;
        for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) m[P->getIncomingBlock(i)] = mk(P->getIncomingValue(i));
        b->inc.push_back(std::move(m));
        continue;
      }
      if (isa<DbgInfoIntrinsic>(I)) continue;
      CInst c; c.I = &I; c.op = I.getOpcode(); c.ty = I.getType();
      c.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
      if (auto *CB = dyn_cast<CallBase>(&I)) { for (auto &a : CB->args()) c.ops.push_back(isa<MetadataAsValue>(a.get()) ? Opnd() : mk(a.get())); if (!CB->getCalledFunction()) c.ops.push_back(mk(CB->getCalledOperand())); }
      else for (auto &o : I.operands()) c.ops.push_back(isa<BasicBlock>(o.get()) ? Opnd() : mk(o.get()));
      b->ins.push_back(std::move(c));
    }
    for (const BasicBlock *S : successors(b->bb)) b->succ.push_back(bm[S]);
  }
  // blocks that can only reach `unreachable`
  size_t n = f->blocks.size();
  std::vector<char> live(n, 0);
  bool ch = true;
  for (auto &b : f->blocks) if (isa<ReturnInst>(b->bb->getTerminator())) live[b->idx] = 1;
  while (ch) { ch = false; for (auto &b : f->blocks) if (!live[b->idx]) for (auto *s : b->succ) if (live[s->idx]) { live[b->idx] = 1; ch = true; break; } }
  for (auto &b : f->blocks) b->deadend = !live[b->idx];
  // postdominator sets by iterative bitsets (functions are small)
  std::vector<std::vector<bool>> pd(n, std::vector<bool>(n, true));
  for (auto &b : f->blocks) if (isa<ReturnInst>(b->bb->getTerminator())) { pd[b->idx].assign(n, false); pd[b->idx][b->idx] = true; }
  ch = true;
  while (ch) {
    ch = false;
    for (int i = (int)n - 1; i >= 0; --i) {
      CBlock *b = f->blocks[i].get();
      if (b->deadend || isa<ReturnInst>(b->bb->getTerminator())) continue;
      std::vector<bool> x(n, true);
      for (auto *s : b->succ) if (!s->deadend) for (size_t j = 0; j < n; ++j) if (!pd[s->idx][j]) x[j] = false;
      x[i] = true;
      if (x != pd[i]) { pd[i] = x; ch = true; }
    }
  }
  for (auto &b : f->blocks) {
    if (b->deadend) continue;
    // immediate: strict postdominator whose own set is largest
    int best = -1; size_t bc = 0;
    for (size_t j = 0; j < n; ++j) if (j != (size_t)b->idx && pd[b->idx][j]) { size_t c = std::count(pd[j].begin(), pd[j].end(), true); if (best < 0 || c > bc) { best = j; bc = c; } }
    b->ipdom = best < 0 ? nullptr : f->blocks[best].get();
  }
  DominatorTree DT(*F);
  LoopInfo LI(DT);
  for (auto &b : f->blocks) if (Loop *L = LI.getLoopFor(b->bb)) {
    bool in = false, out = false;
    for (auto *s : b->succ) (L->contains(s->bb) ? in : out) = true;
    b->loopexit = in && out;
  }
  CFn *r = f.get();
  cfns[F] = std::move(f);
  return r;
}

// ------------------------------------------------------------------ execution
enum OK_ { REACH, RET, DEAD };
struct Out { OK_ k; std::vector<Val> phis; Val ret; };
static Val callFn(Function *F, std::vector<Val> &args, const CInst *ci, bool &dead);
static Out run(Frame &fr, CBlock *b, CBlock *stop);
static inline const Val &get(Frame &fr, const Opnd &o) { return o.slot >= 0 ? fr.r[o.slot] : o.c; }

static void evalPhis(Frame &fr, CBlock *to, CBlock *from, std::vector<Val> &out) {
  out.resize(to->phis.size());
  for (size_t i = 0; i < to->phis.size(); ++i) { auto it = to->inc[i].find(from->bb); out[i] = get(fr, it->second); }
}
static void setPhis(Frame &fr, CBlock *b, std::vector<Val> &v) { for (size_t i = 0; i < v.size(); ++i) fr.r[b->phislot[i]] = v[i]; }
// jump to block `to`: returns true if region ended (Out filled)
static bool jump(Frame &fr, CBlock *from, CBlock *to, CBlock *stop, CBlock *&cur, Out &o) {
  std::vector<Val> ph;
  evalPhis(fr, to, from, ph);
  if (to == stop) { o.k = REACH; o.phis = std::move(ph); return true; }
  setPhis(fr, to, ph);
  cur = to;
  return false;
}
static bool supportHas(const Bit &b, SymClass c) {
  auto hasAff = [&](u32 id) { const BV &v = aff.forms[id]; for (size_t i = 0; i < v.size(); ++i) { u64 x = v[i]; while (x) { int j = __builtin_ctzll(x); x &= x - 1; if (syms[i * 64 + j].cls == c) return true; } } return false; };
  if (!b.f) return b.id && hasAff(b.id);
  if (b.ax && hasAff(b.ax)) return true;
  for (u32 a : bases.tab[b.f->basis].atoms) if (hasAff(a)) return true;
  return false;
}
static void mergeMem(const Bit &c, std::map<std::pair<u32, u64>, Cell> &s1, std::map<std::pair<u32, u64>, Cell> &s2) {
  // current memory = state before the branch
  auto getc = [&](std::map<std::pair<u32, u64>, Cell> &s, u32 o, u64 off) -> Cell & { auto it = s.find({o, off}); if (it != s.end()) return it->second; return objs[o]->cells[off]; };
  std::set<std::pair<u32, u64>> keys;
  for (auto &p : s1) keys.insert(p.first);
  for (auto &p : s2) keys.insert(p.first);
  const Instruction *save = curI;
  for (auto it = keys.begin(); it != keys.end();) {
    u32 o = it->first; u64 off = it->second;
    if (o >= objs.size() || objs[o]->dead || off >= objs[o]->cells.size()) { ++it; continue; }
    Cell c1 = getc(s1, o, off), c2 = getc(s2, o, off);
    if (c1.serial == c2.serial && c1.idx == c2.idx && c1.n == c2.n && c1.n) { // untouched in effect
      Cell &now = objs[o]->cells[off];
      if (!(now.serial == c1.serial && now.idx == c1.idx)) setcell(o, off, c1);
      ++it; continue;
    }
    unsigned n = c1.n;
    bool whole = n && c2.n == n && c1.idx == 0 && c2.idx == 0 && off + n <= objs[o]->cells.size();
    if (whole) for (unsigned i = 1; i < n && whole; ++i) { Cell &a = getc(s1, o, off + i), &b = getc(s2, o, off + i); if (a.serial != c1.serial || a.idx != i || b.serial != c2.serial || b.idx != i) whole = false; }
    // one side never wrote: keep the other side's value, guarded
    Cell &w = c1.n ? c1 : c2; auto &us = c1.n ? s2 : s1; auto &ws = c1.n ? s1 : s2; bool half = !c1.n != !c2.n;
    if (half) {
      n = w.n; bool wh = w.idx == 0 && off + n <= objs[o]->cells.size();
      for (unsigned i = 1; i < n && wh; ++i) { Cell &a = getc(ws, o, off + i), &b = getc(us, o, off + i); if (a.serial != w.serial || a.idx != i || a.def != w.def || b.n) wh = false; }
      if (!wh) n = 1;
      curI = w.wr;
      rawstore(o, off, wh ? w.v : w.n == 1 ? w.v : slicev(w.v, w.idx * 8, 8), n);
      Bit d = c1.n ? band(c, w.def) : band(bnot(c), w.def);
      for (unsigned i = 0; i < n; ++i) objs[o]->cells[off + i].def = d;
      it = keys.lower_bound({o, off + n});
      continue;
    }
    if (!c1.n) { ++it; continue; }
    if (whole) for (unsigned i = 1; i < n && whole; ++i) if (getc(s1, o, off + i).def != c1.def || getc(s2, o, off + i).def != c2.def) whole = false;
    Bit def = c1.def == c2.def ? c1.def : bite(c, c1.def, c2.def);
    auto byteOf = [&](Cell &x) -> Val { return x.n == 1 ? x.v : slicev(x.v, x.idx * 8, 8); };
    if (!whole) n = 1;
    Val a = whole ? c1.v : byteOf(c1), b = whole ? c2.v : byteOf(c2);
    // attribute to the arm that wrote
    curI = s1.count({o, off}) ? c1.wr : c2.wr;
    if (!curI) curI = c1.wr ? c1.wr : c2.wr;
    rawstore(o, off, vite(c, a, b), n);
    for (unsigned i = 0; i < n; ++i) objs[o]->cells[off + i].def = def;
    std::pair<u32, u64> end{o, off + n};
    it = keys.lower_bound(end);
  }
  curI = save;
}
static int depth = 0;
struct Arm { Out out; std::map<std::pair<u32, u64>, Cell> st; size_t nobj; };
// Execute both sides of a symbolic branch up to `stop` and join.
template <class F1, class F2> static Out fork(Frame &fr, const Bit &c, CBlock *stop, F1 armT, F2 armF) {
  ++n_merge;
  if (++depth > 3000) { throw GiveUp{"symbolic branch nesting"}; }
  std::vector<Val> snap = fr.r;
  size_t g0 = guards.size();
  Arm A[2];
  std::vector<Bit> gx[2];
  for (int i = 0; i < 2; ++i) {
    size_t j0 = journal.size();
    ++journalDepth;
    guards.push_back(i == 0 ? c : bnot(c));
    A[i].out = i == 0 ? armT() : armF();
    gx[i].assign(guards.begin() + g0, guards.end());
    guards.resize(g0);
    --journalDepth;
    if (A[i].out.k != DEAD) for (size_t j = j0; j < journal.size(); ++j) { auto &e = journal[j]; A[i].st[{e.obj, e.off}] = Cell(); }
    for (auto &p : A[i].st) p.second = objs[p.first.first]->dead ? Cell() : objs[p.first.first]->cells[p.first.second];
    for (size_t j = journal.size(); j-- > j0;) { auto &e = journal[j]; if (!objs[e.obj]->dead) objs[e.obj]->cells[e.off] = std::move(e.old); }
    journal.resize(j0);
    if (i == 0) fr.r = snap;
  }
  fr.r = std::move(snap);
  --depth;
  Out o;
  if (A[0].out.k == DEAD && A[1].out.k == DEAD) { o.k = DEAD; return o; }
  for (int i = 0; i < 2; ++i) if (A[1 - i].out.k == DEAD) {
    for (auto &p : A[i].st) if (!objs[p.first.first]->dead) setcell(p.first.first, p.first.second, p.second);
    guards.insert(guards.end(), gx[i].begin(), gx[i].end()); // the other side cannot continue
    return std::move(A[i].out);
  }
  if (A[0].out.k != A[1].out.k) throw Unsupported{"branch arms end differently"};
  mergeMem(c, A[0].st, A[1].st);
  o.k = A[0].out.k;
  if (o.k == REACH) { o.phis.resize(A[0].out.phis.size()); for (size_t i = 0; i < o.phis.size(); ++i) o.phis[i] = vite(c, A[0].out.phis[i], A[1].out.phis[i]); }
  else if (A[0].out.ret.w || A[0].out.ret.k == K_VEC) o.ret = vite(c, A[0].out.ret, A[1].out.ret);
  return o;
}
static Val lanewise(Type *rt, const std::vector<Val> &ops, unsigned w, std::function<Val(const std::vector<Val> &)> f) {
  (void)w;
  if (auto *vt = dyn_cast<FixedVectorType>(rt)) {
    std::vector<Val> e(vt->getNumElements());
    std::vector<Val> x(ops.size());
    for (unsigned i = 0; i < e.size(); ++i) {
      for (size_t j = 0; j < ops.size(); ++j) x[j] = ops[j].k == K_VEC ? ops[j].vec()->e[i] : ops[j];
      e[i] = f(x);
    }
    return vvec(std::move(e));
  }
  return f(ops);
}
static Val op2(int op, Type *t, const Val &a, const Val &b) {
  Type *s = t->getScalarType(); unsigned w = widthOf(s);
  return lanewise(t, {a, b}, w, [&](const std::vector<Val> &x) { return apply(op, w, w, x); });
}
static int binop(unsigned o) {
  switch (o) {
  case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL;
  case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV; case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM;
  case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; case Instruction::AShr: return O_ASHR;
  case Instruction::And: return O_AND; case Instruction::Or: return O_OR; case Instruction::Xor: return O_XOR;
  case Instruction::FAdd: return O_FADD; case Instruction::FSub: return O_FSUB; case Instruction::FMul: return O_FMUL; case Instruction::FDiv: return O_FDIV; case Instruction::FRem: return O_FREM;
  }
  return 0;
}
static int icmpop(CmpInst::Predicate p) {
  switch (p) {
  case CmpInst::ICMP_EQ: return O_EQ; case CmpInst::ICMP_NE: return O_NE; case CmpInst::ICMP_UGT: return O_UGT; case CmpInst::ICMP_UGE: return O_UGE;
  case CmpInst::ICMP_ULT: return O_ULT; case CmpInst::ICMP_ULE: return O_ULE; case CmpInst::ICMP_SGT: return O_SGT; case CmpInst::ICMP_SGE: return O_SGE;
  case CmpInst::ICMP_SLT: return O_SLT; case CmpInst::ICMP_SLE: return O_SLE; default: return 0;
  }
}
static Val bitcastV(Type *to, Type *from, const Val &v) {
  if (to == from) return v;
  bool va = isagg(from), vb = isagg(to);
  if (!va && !vb) return v;
  if (va && vb && DL->getTypeSizeInBits(to->getScalarType()) == DL->getTypeSizeInBits(from->getScalarType())) return v;
  std::vector<Val> parts;
  if (va) { for (auto &e : v.vec()->e) parts.push_back(e); } else parts.push_back(v);
  if (!vb) return concatv(parts);
  unsigned ew = DL->getTypeSizeInBits(to->getScalarType());
  unsigned n = nelem(to);
  // regroup without building very wide words
  std::vector<Val> out;
  unsigned pw = parts[0].w;
  if (parts.size() == 1) { for (unsigned i = 0; i < n; ++i) out.push_back(slicev(parts[0], i * ew, ew)); }
  else if (ew >= pw) { unsigned r = ew / pw; for (unsigned i = 0; i < n; ++i) out.push_back(concatv(std::vector<Val>(parts.begin() + i * r, parts.begin() + (i + 1) * r))); }
  else { unsigned r = pw / ew; for (unsigned i = 0; i < n; ++i) out.push_back(slicev(parts[i / r], (i % r) * ew, ew)); }
  return vvec(std::move(out));
}
static bool undefIn(const Val &v) { if (v.k == K_UNDEF) return true; if (v.k == K_VEC) for (auto &e : v.vec()->e) if (undefIn(e)) return true; return false; }
static Bit condBit(const Val &v, const char *what) {
  if (v.k == K_UNDEF) { report("uninit", what, curI, btrue(), "decision on an undefined value"); return baff(aff.sym(newsym(S_IMPREC, "undefcond", 0))); }
  return getbit(v, 0);
}
static Out run(Frame &fr, CBlock *b, CBlock *stop) {
  Out o;
  for (;;) {
    CBlock *cur = b;
    for (size_t ip = 0; ip < cur->ins.size(); ++ip) {
      CInst &ci = cur->ins[ip];
      const Instruction *I = ci.I;
      curI = I;
      ++ci.hits;
      if (++n_steps > maxsteps) throw GiveUp{n_steps - last_exit_fork > maxsteps / 2 ? "instruction budget" : "instruction limit while loop exits were undecided"};
      if (!(n_steps & 0xfff) && residentMB() > maxmem) throw GiveUp{"memory limit"};
      switch (ci.op) {
      case Instruction::Ret:
        o.k = RET;
        if (!ci.ops.empty()) o.ret = get(fr, ci.ops[0]);
        return o;
      case Instruction::Br: {
        auto *B = cast<BranchInst>(I);
        CBlock *nx;
        if (B->isUnconditional()) nx = cur->succ[0];
        else {
          const Val &cv = get(fr, ci.ops[0]);
          if (cv.isc()) nx = cur->succ[cv.c ? 0 : 1];
          else {
            Bit c = condBit(cv, "branch");
            int d = decide(c);
            if (d == 0) { o.k = DEAD; return o; }
            if (d != 3) nx = cur->succ[d == 1 ? 0 : 1];
            else {
              if (supportHas(c, S_UNINIT)) report("uninit", "branch depends on uninitialised data", I, bconst(1), "");
              CBlock *pd = cur->ipdom;
              CBlock *t = cur->succ[0], *e = cur->succ[1];
              auto arm = [&](CBlock *to) { return [&fr, cur, to, pd]() { Out x; CBlock *n2 = nullptr; if (jump(fr, cur, to, pd, n2, x)) return x; return run(fr, n2, pd); }; };
              if (t == e) { nx = t; }
              else {
                if (cur->loopexit) last_exit_fork = n_steps;
                Out x = fork(fr, c, pd, arm(t), arm(e));
                if (x.k == DEAD || x.k == RET) return x;
                if (pd == stop) return x;
                setPhis(fr, pd, x.phis);
                b = pd;
                goto nextblock;
              }
            }
          }
        }
        if (jump(fr, cur, nx, stop, b, o)) return o;
        goto nextblock;
      }
      case Instruction::Switch: {
        auto *S = cast<SwitchInst>(I);
        const Val &v = get(fr, ci.ops[0]);
        if (v.isc()) {
          CBlock *nx = nullptr;
          unsigned k = 0;
          for (auto &cs : S->cases()) { ++k; if (cs.getCaseValue()->getZExtValue() == v.c) { nx = cur->succ[k]; break; } }
          if (!nx) nx = cur->succ[0];
          if (jump(fr, cur, nx, stop, b, o)) return o;
          goto nextblock;
        }
        CBlock *pd = cur->ipdom;
        std::vector<std::pair<Bit, CBlock *>> cases;
        unsigned k = 0;
        for (auto &cs : S->cases()) { ++k; Val e = apply(O_EQ, 1, v.w, {v, vconst(cs.getCaseValue()->getZExtValue(), v.w)}); cases.push_back({getbit(e, 0), cur->succ[k]}); }
        std::function<Out(size_t)> go = [&](size_t i) -> Out {
          auto fin = [&](CBlock *to) -> Out { Out x; CBlock *n2 = nullptr; if (jump(fr, cur, to, pd, n2, x)) return x; return run(fr, n2, pd); };
          if (i == cases.size()) return fin(cur->succ[0]);
          int d = decide(cases[i].first);
          if (d == 0) { Out x; x.k = DEAD; return x; }
          if (d == 1) return fin(cases[i].second);
          if (d == 2) return go(i + 1);
          return fork(fr, cases[i].first, pd, [&]() { return fin(cases[i].second); }, [&]() { return go(i + 1); });
        };
        Out x = go(0);
        if (x.k == DEAD || x.k == RET) return x;
        if (pd == stop) return x;
        setPhis(fr, pd, x.phis);
        b = pd;
        goto nextblock;
      }
      case Instruction::Unreachable: {
        o.k = DEAD;
        report("unreachable", "control reaches undefined behaviour", I, btrue(), "");
        return o;
      }
      case Instruction::Load: fr.r[ci.dst] = loadT(ci.ty, get(fr, ci.ops[0]), cast<LoadInst>(I)->getAlign().value()); break;
      case Instruction::Store: storeT(I->getOperand(0)->getType(), get(fr, ci.ops[1]), get(fr, ci.ops[0]), cast<StoreInst>(I)->getAlign().value()); break;
      case Instruction::Alloca: {
        auto *A = cast<AllocaInst>(I);
        const Val &cnt = get(fr, ci.ops[0]);
        u64 sz = 0; Val ss;
        if (cnt.isc()) sz = DL->getTypeAllocSize(A->getAllocatedType()) * cnt.c;
        else {
          ss = apply(O_MUL, 64, 64, {apply(O_ZEXT, 64, cnt.w, {cnt}), vconst(DL->getTypeAllocSize(A->getAllocatedType()), 64)});
          u32 basis; Tab t; std::vector<u8> care;
          if (!addrTable(ss, basis, t, care)) throw GiveUp{"variable-length array of unbounded size"};
          for (size_t i = 0; i < t.size(); ++i) if (care[i]) { if (t[i] > (1 << 24)) { report("memory", "variable-length array too large", curI, eqconst(t, basis, t[i]), std::to_string(t[i])); continue; } sz = std::max(sz, t[i]); }
        }
        u32 id = newobj(sz, A->getAlign().value(), "local " + (A->hasName() ? A->getName().str() : std::string("object")) + " of " + fr.f->F->getName().str());
        if (!cnt.isc()) { objs[id]->symsz = true; objs[id]->ssize = ss; }
        fr.allocas.push_back(id);
        fr.r[ci.dst] = vconst(objs[id]->base, 64);
        break;
      }
      case Instruction::GetElementPtr: {
        auto *G = cast<GetElementPtrInst>(I);
        Val a = get(fr, ci.ops[0]);
        u64 coff = 0;
        unsigned k = 1;
        for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti, ++k) {
          const Val &ix = get(fr, ci.ops[k]);
          if (StructType *ST = gti.getStructTypeOrNull()) { coff += DL->getStructLayout(ST)->getElementOffset(ix.c); continue; }
          u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
          if (ix.isc()) coff += (u64)sextw(ix.c, ix.w) * sz;
          else {
            if (ix.k == K_VEC) throw Unsupported{"vector gep"};
            Val x = ix.w < 64 ? apply(O_SEXT, 64, ix.w, {ix}) : ix;
            if (sz != 1) x = apply(O_MUL, 64, 64, {x, vconst(sz, 64)});
            a = apply(O_ADD, 64, 64, {a, x});
          }
        }
        if (coff) { if (a.isc()) a = vconst(a.c + coff, 64); else a = addv(a, coff); }
        fr.r[ci.dst] = a;
        break;
      }
      case Instruction::ICmp: {
        int op = icmpop(cast<ICmpInst>(I)->getPredicate());
        unsigned w = widthOf(I->getOperand(0)->getType()->getScalarType());
        const Val &x = get(fr, ci.ops[0]), &y = get(fr, ci.ops[1]);
        if (x.isc() && y.isc()) { fr.r[ci.dst] = vconst(evalop(op, 1, w, x.c, y.c, 0), 1); break; }
        fr.r[ci.dst] = lanewise(ci.ty, {x, y}, w, [&](const std::vector<Val> &v) { return apply(op, 1, w, v); });
        break;
      }
      case Instruction::FCmp: {
        int op = O_FCMP + (int)cast<FCmpInst>(I)->getPredicate();
        unsigned w = widthOf(I->getOperand(0)->getType()->getScalarType());
        fr.r[ci.dst] = lanewise(ci.ty, {get(fr, ci.ops[0]), get(fr, ci.ops[1])}, w, [&](const std::vector<Val> &v) { return apply(op, 1, w, v); });
        break;
      }
      case Instruction::Select: {
        const Val &c = get(fr, ci.ops[0]), &x = get(fr, ci.ops[1]), &y = get(fr, ci.ops[2]);
        if (c.isc()) { fr.r[ci.dst] = c.c ? x : y; break; }
        if (c.k == K_VEC) {
          std::vector<Val> e;
          for (unsigned i = 0; i < nelem(ci.ty); ++i) e.push_back(vite(condBit(c.vec()->e[i], "select"), x.vec()->e[i], y.vec()->e[i]));
          fr.r[ci.dst] = vvec(std::move(e));
        } else {
          Bit cb = condBit(c, "select");
          int d = guards.empty() ? 3 : decide(cb);
          fr.r[ci.dst] = d == 1 ? x : d == 2 ? y : vite(cb, x, y);
        }
        break;
      }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
        int op = ci.op == Instruction::ZExt ? O_ZEXT : ci.op == Instruction::SExt ? O_SEXT : ci.op == Instruction::Trunc ? O_TRUNC : ci.op == Instruction::FPToSI ? O_FPTOSI : ci.op == Instruction::FPToUI ? O_FPTOUI : ci.op == Instruction::SIToFP ? O_SITOFP : ci.op == Instruction::UIToFP ? O_UITOFP : ci.op == Instruction::FPExt ? O_FPEXT : O_FPTRUNC;
        unsigned w = widthOf(ci.ty->getScalarType()), ws = widthOf(I->getOperand(0)->getType()->getScalarType());
        fr.r[ci.dst] = lanewise(ci.ty, {get(fr, ci.ops[0])}, w, [&](const std::vector<Val> &v) { return apply(op, w, ws, v); });
        break;
      }
      case Instruction::PtrToInt: { Val v = get(fr, ci.ops[0]); unsigned w = widthOf(ci.ty); fr.r[ci.dst] = w < 64 ? slicev(v, 0, w) : v; break; }
      case Instruction::IntToPtr: { Val v = get(fr, ci.ops[0]); fr.r[ci.dst] = v.w < 64 ? apply(O_ZEXT, 64, v.w, {v}) : v; break; }
      case Instruction::BitCast: fr.r[ci.dst] = bitcastV(ci.ty, I->getOperand(0)->getType(), get(fr, ci.ops[0])); break;
      case Instruction::Freeze: fr.r[ci.dst] = get(fr, ci.ops[0]); break;
      case Instruction::FNeg: { unsigned w = widthOf(ci.ty->getScalarType()); fr.r[ci.dst] = lanewise(ci.ty, {get(fr, ci.ops[0])}, w, [&](const std::vector<Val> &v) { return apply(O_FNEG, w, w, v); }); break; }
      case Instruction::ExtractElement: {
        const Val &ix = get(fr, ci.ops[1]); const Val &v = get(fr, ci.ops[0]);
        if (ix.isc()) { fr.r[ci.dst] = ix.c < v.vec()->e.size() ? v.vec()->e[ix.c] : vundef(widthOf(ci.ty)); break; }
        Val r = v.vec()->e[0];
        for (size_t i = 1; i < v.vec()->e.size(); ++i) r = vite(getbit(apply(O_EQ, 1, ix.w, {ix, vconst(i, ix.w)}), 0), v.vec()->e[i], r);
        fr.r[ci.dst] = r;
        break;
      }
      case Instruction::InsertElement: {
        const Val &ix = get(fr, ci.ops[2]);
        std::vector<Val> e = get(fr, ci.ops[0]).vec()->e;
        const Val &x = get(fr, ci.ops[1]);
        if (ix.isc()) { if (ix.c < e.size()) e[ix.c] = x; }
        else for (size_t i = 0; i < e.size(); ++i) e[i] = vite(getbit(apply(O_EQ, 1, ix.w, {ix, vconst(i, ix.w)}), 0), x, e[i]);
        fr.r[ci.dst] = vvec(std::move(e));
        break;
      }
      case Instruction::ShuffleVector: {
        auto *S = cast<ShuffleVectorInst>(I);
        const Val &x = get(fr, ci.ops[0]), &y = get(fr, ci.ops[1]);
        size_t n = x.vec()->e.size();
        std::vector<Val> e;
        for (int m : S->getShuffleMask()) { if (m < 0) e.push_back(undefOf(ci.ty->getScalarType())); else e.push_back((size_t)m < n ? x.vec()->e[m] : y.vec()->e[m - n]); }
        fr.r[ci.dst] = vvec(std::move(e));
        break;
      }
      case Instruction::ExtractValue: {
        Val v = get(fr, ci.ops[0]);
        for (unsigned ix : cast<ExtractValueInst>(I)->indices()) { Val t = v.vec()->e[ix]; v = t; }
        fr.r[ci.dst] = v;
        break;
      }
      case Instruction::InsertValue: {
        auto *IV = cast<InsertValueInst>(I);
        std::function<Val(const Val &, size_t)> go = [&](const Val &v, size_t d) -> Val {
          if (d == IV->getNumIndices()) return get(fr, ci.ops[1]);
          std::vector<Val> e = v.vec()->e; unsigned ix = IV->getIndices()[d]; e[ix] = go(e[ix], d + 1); return vvec(std::move(e));
        };
        fr.r[ci.dst] = go(get(fr, ci.ops[0]), 0);
        break;
      }
      case Instruction::Call: {
        auto *C = cast<CallInst>(I);
        Function *F = C->getCalledFunction();
        std::vector<Val> args;
        size_t na = C->arg_size();
        for (size_t i = 0; i < na; ++i) args.push_back(get(fr, ci.ops[i]));
        if (!F) {
          const Val &fp = get(fr, ci.ops[na]);
          if (fp.isc() && fnAt.count(fp.c)) F = fnAt[fp.c];
          else throw Unsupported{"indirect call"};
        }
        bool dead = false;
        Val r = callFn(F, args, &ci, dead);
        if (dead) { o.k = DEAD; return o; }
        if (ci.dst >= 0) fr.r[ci.dst] = r;
        break;
      }
      default: {
        int op = binop(ci.op);
        if (!op) throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
        const Val &x = get(fr, ci.ops[0]), &y = get(fr, ci.ops[1]);
        if (x.isc() && y.isc()) {
          if (op >= O_UDIV && op <= O_SREM && y.c == 0) report("ub", "division by zero", I, btrue(), "");
          fr.r[ci.dst] = vconst(evalop(op, x.w, x.w, x.c, y.c, 0), x.w); break;
        }
        if (op >= O_UDIV && op <= O_SREM && !y.isc() && y.k == K_BITS) { Val z = apply(O_EQ, 1, y.w, {y, vconst(0, y.w)}); Bit zb = getbit(z, 0); if (decide(zb) & 1) report("ub", "division by zero", I, zb, ""); }
        fr.r[ci.dst] = op2(op, ci.ty, x, y);
      }
      }
    }
    throw Unsupported{"block without terminator"};
  nextblock:;
  }
}
#include "intrin.inc"
static Val callFn(Function *F, std::vector<Val> &args, const CInst *ci, bool &dead) {
  ++n_calls;
  Val r;
  if (F->isIntrinsic() || F->isDeclaration()) { r = external(F, args, ci, dead); return r; }
  if (F->getName() == "_Znwm" || F->getName() == "_Znam") return external(F, args, ci, dead);
  if (callstack.size() > 4000) throw GiveUp{"call depth"};
  const Instruction *site = ci ? ci->I : nullptr;
  callstack.push_back(site);
  Frame fr;
  fr.f = compile(F);
  fr.r.resize(fr.f->nslots);
  for (size_t i = 0; i < args.size() && i < fr.f->argslot.size(); ++i) fr.r[fr.f->argslot[i]] = args[i];
  // byval arguments get their own copy
  for (auto &A : F->args()) if (A.hasByValAttr()) {
    u64 n = DL->getTypeAllocSize(A.getParamByValType());
    u32 id = newobj(n, A.getParamAlign() ? A.getParamAlign()->value() : 8, "byval");
    fr.allocas.push_back(id);
    Val dst = vconst(objs[id]->base, 64);
    copyMem(dst, args[A.getArgNo()], n);
    fr.r[fr.f->argslot[A.getArgNo()]] = dst;
  }
  Out o = run(fr, fr.f->blocks[0].get(), nullptr);
  callstack.pop_back();
  curI = site;
  for (u32 id : fr.allocas) { objs[id]->dead = true; objs[id]->cells.clear(); objs[id]->cells.shrink_to_fit(); }
  if (o.k == DEAD) dead = true;
  return o.ret;
}
#include "main.inc"
