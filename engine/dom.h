// Abstract domains of the analyser.
//
// A bit is a Boolean function of the entry's symbols, represented either as
//   - a GF(2)-affine form  s_i1 ^ s_i2 ^ ... ^ const   (no size limit), or
//   - one output bit of a finite function ("fin"): a truth table over at most
//     MAXK linearly independent affine forms (the atoms).
// A word is a vector of bits.  Everything that does not fit becomes an OPAQUE
// symbol that remembers its defining operation.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <functional>
#include <algorithm>
#include <cassert>
#include <cmath>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

struct RC { mutable u32 rc = 0; virtual ~RC() {} };
template <class T> struct Ref {
  T *p = nullptr;
  Ref() {}
  Ref(T *q) : p(q) { if (p) ++p->rc; }
  Ref(const Ref &o) : p(o.p) { if (p) ++p->rc; }
  Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  template <class U> Ref(const Ref<U> &o) : p(o.p) { if (p) ++p->rc; }
  Ref &operator=(const Ref &o) { if (o.p) ++o.p->rc; T *q = p; p = o.p; rel(q); return *this; }
  Ref &operator=(Ref &&o) noexcept { std::swap(p, o.p); return *this; }
  ~Ref() { rel(p); }
  static void rel(T *q) { if (q && --q->rc == 0) delete q; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p; }
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

// ---------------------------------------------------------------- symbols
enum SymClass : u8 { S_INPUT, S_UNINIT, S_STALE, S_OPAQUE, S_IMPREC };
struct Val;
struct OpaqueDef;
struct SymInfo { SymClass cls; std::string name; u32 bit; std::shared_ptr<OpaqueDef> def; };
extern std::vector<SymInfo> syms;

// ---------------------------------------------------------------- affine forms
typedef std::vector<u64> BV; // trimmed
struct AffTab {
  std::vector<BV> forms;
  std::unordered_multimap<u64, u32> idx;
  std::unordered_map<u64, u32> xmemo;
  AffTab() { forms.push_back(BV()); }
  static u64 hash(const BV &v) { u64 h = 0x9e3779b97f4a7c15ull; for (u64 x : v) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; } return h; }
  u32 intern(BV v) {
    while (!v.empty() && !v.back()) v.pop_back();
    if (v.empty()) return 0;
    u64 h = hash(v);
    auto r = idx.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) if (forms[i->second] == v) return i->second;
    u32 id = forms.size();
    forms.push_back(std::move(v));
    idx.emplace(h, id);
    return id;
  }
  u32 sym(u32 s) { BV v(s / 64 + 1); v[s / 64] = 1ull << (s % 64); return intern(v); }
  u32 xr(u32 a, u32 b) {
    if (!a) return b;
    if (!b) return a;
    if (a == b) return 0;
    if (a > b) std::swap(a, b);
    u64 key = ((u64)a << 32) | b;
    auto it = xmemo.find(key);
    if (it != xmemo.end()) return it->second;
    const BV &x = forms[a], &y = forms[b];
    BV v(std::max(x.size(), y.size()));
    for (size_t i = 0; i < x.size(); ++i) v[i] = x[i];
    for (size_t i = 0; i < y.size(); ++i) v[i] ^= y[i];
    u32 r = intern(std::move(v));
    if (xmemo.size() > 4000000) xmemo.clear();
    xmemo[key] = r;
    return r;
  }
};
extern AffTab aff;

// ---------------------------------------------------------------- bases
extern int MAXK;
struct BRow { BV v; u32 mask; u32 piv; };
struct Basis { std::vector<u32> atoms; std::vector<BRow> rows; };
struct BasisTab {
  std::vector<Basis> tab;
  std::map<std::vector<u32>, u32> idx;
  std::unordered_map<u64, std::pair<u32, u32>> memo; // (basis,aff)->(basis',mask)
  BasisTab() { tab.push_back(Basis()); idx[{}] = 0; }
  // returns false if the basis would exceed maxk. mask = aff expressed over basis'
  bool add(u32 b, u32 a, u32 &nb, u32 &mask, int maxk) {
    if (!a) { nb = b; mask = 0; return true; }
    u64 key = ((u64)b << 32) | a;
    auto it = memo.find(key);
    if (it != memo.end()) {
      nb = it->second.first; mask = it->second.second;
      return (int)tab[nb].atoms.size() <= maxk;
    }
    const Basis &B = tab[b];
    BV v = aff.forms[a];
    u32 m = 0;
    for (const BRow &r : B.rows) {
      if (r.piv / 64 < v.size() && (v[r.piv / 64] >> (r.piv % 64) & 1)) {
        if (v.size() < r.v.size()) v.resize(r.v.size());
        for (size_t i = 0; i < r.v.size(); ++i) v[i] ^= r.v[i];
        m ^= r.mask;
      }
    }
    while (!v.empty() && !v.back()) v.pop_back();
    if (v.empty()) { nb = b; mask = m; memo[key] = {nb, mask}; return true; }
    int k = B.atoms.size();
    if (k + 1 > maxk) return false;
    std::vector<u32> at = B.atoms;
    at.push_back(a);
    auto f = idx.find(at);
    if (f != idx.end()) nb = f->second;
    else {
      Basis N; N.atoms = at; N.rows = B.rows;
      BRow r; r.v = v; r.mask = m | (1u << k);
      r.piv = 0;
      for (size_t i = 0; i < v.size(); ++i) if (v[i]) { r.piv = i * 64 + __builtin_ctzll(v[i]); break; }
      N.rows.push_back(r);
      nb = tab.size();
      tab.push_back(std::move(N));
      idx[at] = nb;
    }
    mask = 1u << k;
    memo[key] = {nb, mask};
    return true;
  }
  u32 of(const std::vector<u32> &at) {
    u32 b = 0, m;
    for (u32 a : at) { u32 nb; bool ok = add(b, a, nb, m, 32); (void)ok; b = nb; }
    return b;
  }
};
extern BasisTab bases;

// ---------------------------------------------------------------- finite functions
struct Fin : RC {
  u32 basis; u8 k, esz;
  std::vector<u8> d;
  u64 get(u64 t) const {
    switch (esz) {
    case 1: return d[t];
    case 2: { u16 x; memcpy(&x, &d[t * 2], 2); return x; }
    case 4: { u32 x; memcpy(&x, &d[t * 4], 4); return x; }
    default: { u64 x; memcpy(&x, &d[t * 8], 8); return x; }
    }
  }
};

struct Bit {
  Ref<Fin> f; // null => affine
  u32 id = 0; // affine id or bit index in f
  u32 ax = 0; // affine addend of a finite bit that does not fit into its table
  bool neg = false;
  bool isconst() const { return !f && !id; }
  bool cv() const { return neg; }
  bool operator==(const Bit &o) const { return f.p == o.f.p && id == o.id && ax == o.ax && neg == o.neg; }
  bool operator!=(const Bit &o) const { return !(*this == o); }
};
static inline Bit bconst(bool v) { Bit b; b.neg = v; return b; }
static inline Bit baff(u32 id, bool neg = false) { Bit b; b.id = id; b.neg = neg; return b; }
static inline Bit bnot(Bit b) { b.neg = !b.neg; return b; }

// ---------------------------------------------------------------- values
enum Kind : u8 { K_UNDEF, K_CONST, K_BITS, K_VEC, K_IVL };
struct BitsN : RC { std::vector<Bit> b; };
struct VecN : RC { std::vector<Val> e; };   // vectors and aggregates
struct IvlN;                                // guarded intervals
struct Val {
  Kind k = K_UNDEF; u16 w = 0; u64 c = 0; Ref<RC> p;
  BitsN *bits() const { return (BitsN *)p.p; }
  VecN *vec() const { return (VecN *)p.p; }
  IvlN *ivl() const { return (IvlN *)p.p; }
  bool isc() const { return k == K_CONST; }
  bool same(const Val &o) const {
    if (k != o.k || w != o.w) return false;
    if (k == K_CONST) return c == o.c;
    if (k == K_UNDEF) return true;
    if (p.p == o.p.p) return true;
    if (k == K_BITS) return bits()->b == o.bits()->b;
    if (k == K_VEC) {
      if (vec()->e.size() != o.vec()->e.size()) return false;
      for (size_t i = 0; i < vec()->e.size(); ++i) if (!vec()->e[i].same(o.vec()->e[i])) return false;
      return true;
    }
    return false;
  }
};
// A finite function whose entries are intervals instead of constants:
// value in [lo[t],hi[t]] when the atoms take assignment t.  flt: w==32/64 IEEE.
struct IvlN : RC { u32 basis; u8 k; bool flt; std::vector<i64> lo, hi; std::vector<double> flo, fhi; };

struct OpaqueDef { int op; unsigned w; std::vector<Val> ops; u32 first; };

static inline Val vconst(u64 c, unsigned w) { Val v; v.k = K_CONST; v.w = w; v.c = c & maskw(w); return v; }
static inline Val vundef(unsigned w) { Val v; v.k = K_UNDEF; v.w = w; return v; }
static inline Val vvec(std::vector<Val> e) { VecN *n = new VecN; n->e = std::move(e); Val v; v.k = K_VEC; v.w = 0; v.p = Ref<RC>(n); return v; }
static inline Val vbits(std::vector<Bit> b) {
  bool all = b.size() <= 64;
  if (all) for (auto &x : b) if (!x.isconst()) { all = false; break; }
  if (all) { u64 c = 0; for (size_t i = 0; i < b.size(); ++i) if (b[i].cv()) c |= 1ull << i; return vconst(c, b.size()); }
  BitsN *n = new BitsN; Val v; v.k = K_BITS; v.w = b.size(); n->b = std::move(b); v.p = Ref<RC>(n); return v;
}
u32 newsym(SymClass c, const std::string &name, u32 bit, std::shared_ptr<OpaqueDef> def = nullptr);
Val fresh(SymClass c, const std::string &name, unsigned w);
const std::vector<Bit> getbits(const Val &v); // K_UNDEF materialises UNINIT symbols
static inline Bit getbit(const Val &v, unsigned i) {
  if (v.k == K_CONST) return bconst(i < 64 && (v.c >> i & 1));
  if (v.k == K_BITS) return v.bits()->b[i];
  return getbits(v)[i];
}

typedef std::vector<u64> Tab;
struct Support { u32 basis = 0; bool ok = true; int maxk;
  Support(int mk) : maxk(mk) {}
  void adda(u32 a) { if (!ok || !a) return; u32 nb, m; if (!bases.add(basis, a, nb, m, maxk)) ok = false; else basis = nb; }
  void addf(const Fin *f) { for (u32 a : std::vector<u32>(bases.tab[f->basis].atoms)) adda(a); }
  void add(const Bit &b) { if (b.f) { if (!basis && (int)bases.tab[b.f->basis].atoms.size() <= maxk) basis = b.f->basis; else addf(b.f.p); adda(b.ax); } else adda(b.id); }
  void add(const Val &v);
  int k() const { return bases.tab[basis].atoms.size(); }
};
void evalbits(const Bit *b, unsigned n, u32 basis, Tab &out); // n<=64
void evalval(const Val &v, u32 basis, Tab &out);
Val simplify(Tab &t, u32 basis, unsigned w);
Bit simplifybit(Tab &t, u32 basis);
Bit bxor(const Bit &a, const Bit &b);
Bit bfun(const Bit *in, unsigned n, u32 tt);  // n<=3 inputs, truth table tt
static inline Bit band(const Bit &a, const Bit &b) {
  if (a.isconst()) return a.cv() ? b : a;
  if (b.isconst()) return b.cv() ? a : b;
  if (a == b) return a;
  if (a == bnot(b)) return bconst(0);
  Bit in[2] = {a, b}; return bfun(in, 2, 0x8);
}
static inline Bit bor(const Bit &a, const Bit &b) { return bnot(band(bnot(a), bnot(b))); }
Bit bite(const Bit &c, const Bit &a, const Bit &b);
Val vite(const Bit &c, const Val &a, const Val &b);
